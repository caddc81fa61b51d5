package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/msgstore"
	"codeberg.org/emersion/soju/xirc"
	"gopkg.in/irc.v4"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P37", Level: "stress_oracle",
		Rule:   "db: databases made by random histories of operations (with deletions, so identifiers have gaps) are migrated with the real migrate-db executable to an empty database or one with other users; every record of the result, as a tree without identifiers, is compared with the source's, whose content must not change. logs: logs written by the real file store are moved with migrate-logs; what the database then holds per conversation is compared, in order, with what was logged. znc: generated ZNC configurations, with filters and over existing databases, are imported with znc-import; the database is compared with the documented merge; malformed ones must be refused. A situation is (case, features of the source)",
		Assume: []string{"both databases are SQLite: no PostgreSQL server is available"},
		Cases: func(e *Env) []Case {
			c := Repeat(e, "db", e.N(150, 1500), p37DB)
			c = append(c, Repeat(e, "logs", e.N(200, 2000), p37Logs)...)
			return append(c, Repeat(e, "znc", e.N(500, 5000), p37ZNC)...)
		},
	})
}

type p37Sub struct{ Endpoint, Auth, P256DH, VAPID string }

type p37Net struct {
	Rec      database.Network
	Channels []database.Channel
	Receipts []string
	Subs     []p37Sub
}

type p37User struct {
	Rec  database.User
	Nets []string
	Subs []p37Sub
}

func p37JSON(v interface{}) string {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	Must(enc.Encode(v))
	return strings.TrimSpace(b.String())
}

func p37Subs(db database.Database, uid, nid int64) []p37Sub {
	l, err := db.ListWebPushSubscriptions(ctx0, uid, nid)
	Must(err)
	var out []p37Sub
	for _, s := range l {
		out = append(out, p37Sub{s.Endpoint, s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID})
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

// p37Dump describes every user, by name, without identifiers.
func p37Dump(db database.Database) (users map[string]string, configs []string, nrec int) {
	l, err := db.ListUsers(ctx0)
	Must(err)
	users = map[string]string{}
	for _, u := range l {
		pu := p37User{Rec: normUser(u), Subs: p37Subs(db, u.ID, 0)}
		nets, err := db.ListNetworks(ctx0, u.ID)
		Must(err)
		for _, n := range nets {
			pn := p37Net{Rec: normNet(n), Subs: p37Subs(db, u.ID, n.ID)}
			chs, err := db.ListChannels(ctx0, n.ID)
			Must(err)
			for _, c := range chs {
				c.ID = 0
				pn.Channels = append(pn.Channels, c)
			}
			sort.Slice(pn.Channels, func(i, j int) bool { return pn.Channels[i].Name < pn.Channels[j].Name })
			drs, err := db.ListDeliveryReceipts(ctx0, n.ID)
			Must(err)
			for _, d := range drs {
				pn.Receipts = append(pn.Receipts, fmt.Sprintf("%q %q %q", d.Target, d.Client, d.InternalMsgID))
			}
			sort.Strings(pn.Receipts)
			pn.Rec.ID = 0
			nrec += 1 + len(chs) + len(drs) + len(pn.Subs)
			pu.Nets = append(pu.Nets, p37JSON(pn))
		}
		sort.Strings(pu.Nets)
		nrec += 1 + len(pu.Subs)
		pu.Rec.ID = 0
		users[u.Username] = p37JSON(pu)
	}
	cl, err := db.ListWebPushConfigs(ctx0)
	Must(err)
	for _, c := range cl {
		configs = append(configs, c.VAPIDKeys.Public+" "+c.VAPIDKeys.Private)
	}
	sort.Strings(configs)
	return users, configs, nrec + len(cl)
}

// p37Run runs one of the tools.
func p37Run(dir, name string, args ...string) (out string, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), Watchdog)
	defer cancel()
	cmd := exec.CommandContext(ctx, Bin(name), args...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		panic(Stuck{name + " does not end: " + lastLines(string(b), 5)})
	}
	return string(b), err
}

func p37Same(what string, got, want map[string]string) {
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			Failf("%s: user %q is missing", what, k)
		}
		if g != w {
			Failf("%s: user %q differs: %s", what, k, StrDiff(g, w))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			Failf("%s: there is an extra user %q", what, k)
		}
	}
}

func p37DB(t *T) {
	r := t.Rng
	src, dst := filepath.Join(t.Dir(), "src.db"), filepath.Join(t.Dir(), "dst.db")
	m := newP25Model()
	p25Run(t, src, m, 30+r.Intn(200))
	sdb, err := database.Open("sqlite3", src)
	Must(err)
	// records the history is unlikely to have left
	ul, err := sdb.ListUsers(ctx0)
	Must(err)
	for _, u := range ul {
		if r.Intn(2) == 0 {
			continue
		}
		n := database.NewNetwork(fmt.Sprintf("irc%d.example", r.Intn(1000)))
		n.Name = fmt.Sprintf("extra%d", r.Intn(1000))
		Must(sdb.StoreNetwork(ctx0, u.ID, n))
		for i := r.Intn(3); i > 0; i-- {
			Must(sdb.StoreChannel(ctx0, n.ID, &database.Channel{Name: fmt.Sprintf("#x%d", i), Key: "k", Detached: r.Intn(2) == 0, DetachedInternalMsgID: "abc", RelayDetached: database.FilterMessage, DetachAfter: time.Duration(r.Intn(100)) * time.Second}))
		}
		for i := r.Intn(3); i > 0; i-- {
			Must(sdb.StoreClientDeliveryReceipts(ctx0, n.ID, Pick(r, []string{"", "phone", "desk top"})+strings.Repeat("x", i), []database.DeliveryReceipt{{Target: "#x1", InternalMsgID: fmt.Sprintf("id%d", r.Intn(100))}, {Target: "bob", InternalMsgID: "id"}}))
		}
		for _, id := range []int64{0, n.ID} {
			for i := r.Intn(3); i > 0; i-- {
				s := database.WebPushSubscription{Endpoint: fmt.Sprintf("https://push.example/%d/%d", r.Int31(), i)}
				s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID = "a", fmt.Sprint(i), "v"
				Must(sdb.StoreWebPushSubscription(ctx0, u.ID, id, &s))
			}
		}
	}
	su, sc, nrec := p37Dump(sdb)
	gaps := false
	for i, u := range ul {
		gaps = gaps || u.ID != int64(i+1)
	}
	Must(sdb.Close())
	// the destination may hold other users already
	want := map[string]string{}
	for k, v := range su {
		want[k] = v
	}
	other := r.Intn(2) == 0
	if other {
		ddb, err := database.Open("sqlite3", dst)
		Must(err)
		for i := 1 + r.Intn(3); i > 0; i-- {
			u := database.NewUser(fmt.Sprintf("there before %d", i))
			Must(ddb.StoreUser(ctx0, u))
			for j := r.Intn(3); j > 0; j-- {
				n := database.NewNetwork(fmt.Sprintf("n%d.example", j))
				Must(ddb.StoreNetwork(ctx0, u.ID, n))
				Must(ddb.StoreChannel(ctx0, n.ID, &database.Channel{Name: "#there"}))
			}
			if r.Intn(2) == 0 {
				Must(ddb.DeleteUser(ctx0, u.ID))
			}
		}
		du, _, _ := p37Dump(ddb)
		for k, v := range du {
			want[k] = v
		}
		Must(ddb.Close())
	}
	out, err := p37Run(t.Dir(), "migrate-db", "sqlite3:"+src, "sqlite3:"+dst)
	if err != nil {
		Failf("migrate-db failed on a valid database: %v: %s", err, lastLines(out, 4))
	}
	ddb, err := database.Open("sqlite3", dst)
	Must(err)
	du, dc, _ := p37Dump(ddb)
	Must(ddb.Close())
	p37Same("the migrated database", du, want)
	if strings.Join(dc, "\n") != strings.Join(sc, "\n") {
		Failf("web push keys: migrated %q, source %q", dc, sc)
	}
	sdb, err = database.Open("sqlite3", src)
	Must(err)
	su2, sc2, _ := p37Dump(sdb)
	Must(sdb.Close())
	p37Same("the source after the migration", su2, su)
	if strings.Join(sc2, "\n") != strings.Join(sc, "\n") {
		Failf("the source's web push keys changed")
	}
	t.State("db gaps %v other users %v", gaps, other)
	t.Count("migrated records compared", nrec)
}

// p37Msg makes a message as a network would relay it.
func p37Msg(r *rand.Rand, target string, k int) *irc.Message {
	ch := strings.ContainsAny(target[:1], "#&")
	nick := Pick(r, []string{"ann", "Bob[1]", "c_d", "x{}"})
	if !ch && r.Intn(2) == 0 {
		nick = target
	}
	p := &irc.Prefix{Name: nick, User: "u", Host: Pick(r, []string{"host.example", "2001:db8::1", "gateway/web"})}
	text := fmt.Sprintf("%s %d", Pick(r, []string{"hello", "> quoted", "- dash", "*** star", "<x> y", "é日本", "[01:02:03] <a> b", "trailing ", "a  b", ")", ":", "*** ann is now known as bob"}), k)
	if r.Intn(30) == 0 {
		text = strings.Repeat("long ", 400) + fmt.Sprint(k)
	}
	m := func(cmd string, params ...string) *irc.Message {
		return &irc.Message{Prefix: p, Command: cmd, Params: params}
	}
	n := 4
	if ch {
		n = 12
	}
	switch r.Intn(n) {
	case 0, 1:
		return m("PRIVMSG", target, text)
	case 2:
		return m("NOTICE", target, text)
	case 3:
		return m("PRIVMSG", target, "\x01ACTION "+text+"\x01")
	case 4:
		return m("JOIN", target)
	case 5:
		if r.Intn(2) == 0 {
			return m("PART", target)
		}
		return m("PART", target, "bye (really) "+fmt.Sprint(k))
	case 6:
		return m("QUIT", "gone "+fmt.Sprint(k))
	case 7:
		return m("NICK", fmt.Sprintf("new%d", k))
	case 8:
		return m("KICK", target, "victim", fmt.Sprintf("reason %d", k))
	case 9:
		return m("TOPIC", target, fmt.Sprintf("it's topic %d", k))
	case 10:
		return m("MODE", target, "+o-v", "ann", fmt.Sprintf("b%d", k))
	default:
		return m("PRIVMSG", target, text)
	}
}

func p37Logs(t *T) {
	r := t.Rng
	dir := t.Dir()
	root, path := filepath.Join(dir, "logs"), filepath.Join(dir, "x.db")
	db, err := database.Open("sqlite3", path)
	Must(err)
	type conv struct {
		u      *database.User
		n      *database.Network
		target string
	}
	logged := map[conv][]*irc.Message{}
	var convs []conv
	var nets []conv
	unames := []string{"alice", "bob", "we/ird", "x~y"}[:1+r.Intn(4)]
	if r.Intn(3) == 0 { // identifiers with gaps
		u := database.NewUser("deleted")
		Must(db.StoreUser(ctx0, u))

		Must(db.DeleteUser(ctx0, u.ID))
	}
	for _, name := range unames {
		u := database.NewUser(name)
		u.Nick = Pick(r, []string{"", "mynick"})
		Must(db.StoreUser(ctx0, u))
		ms := msgstore.NewFSStore(root, u)
		for i := r.Intn(3); i >= 0; i-- {
			n := database.NewNetwork(fmt.Sprintf("irc%d.example", i))
			n.Name = Pick(r, []string{"", fmt.Sprintf("net%d", i), fmt.Sprintf("a/b%d", i)})
			n.Nick = Pick(r, []string{"", "netnick"})
			Must(db.StoreNetwork(ctx0, u.ID, n))
			nets = append(nets, conv{u, n, ""})
			targets := Subset(r, []string{"#chan", "#other", "ann", "bob[1]", "&local", "#é"}, 0.6)
			now := time.Date(2024, 2, 26+r.Intn(3), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.Local)
			for k := r.Intn(60); k > 0 && len(targets) > 0; k-- {
				if r.Intn(3) > 0 {
					now = now.Add(time.Duration(r.Intn(9000)) * time.Millisecond)
				} else if r.Intn(6) == 0 {
					now = now.Add(time.Duration(r.Intn(30)) * time.Hour)
				}
				c := conv{u, n, Pick(r, targets)}
				m := p37Msg(r, c.target, k)
				m.Tags = irc.Tags{"time": xirc.FormatServerTime(now)}
				_, err := ms.Append(n, c.target, m)
				Must(err)
				if logged[c] == nil {
					convs = append(convs, c)
				}
				logged[c] = append(logged[c], m)
			}
		}
		Must(ms.Close())
	}
	Must(db.Close())
	before := treeOf(root, func(string) bool { return false })
	out, err := p37Run(dir, "migrate-logs", root, "sqlite3:"+path)
	if err != nil {
		Failf("migrate-logs failed on valid logs: %v: %s", err, lastLines(out, 4))
	}
	after := treeOf(root, func(string) bool { return false })
	for p, s := range before {
		if after[p] != s {
			Failf("the source log %s changed", p)
		}
	}
	if len(after) != len(before) {
		Failf("files appeared among the source logs")
	}
	db, err = database.Open("sqlite3", path)
	Must(err)
	defer db.Close()
	far := time.Now().Add(time.Hour)
	for _, c := range convs {
		got, err := db.ListMessages(ctx0, c.n.ID, c.target, &database.MessageOptions{BeforeTime: far, Limit: 100000, Events: true})
		Must(err)
		want := logged[c]
		what := fmt.Sprintf("user %q network %q conversation %q", c.u.Username, c.n.GetName(), c.target)
		if len(got) != len(want) {
			Failf("%s: %d messages after the migration, %d were logged", what, len(got), len(want))
		}
		for i, g := range got {
			w := want[i]
			if a, b := p37Canon(g, c.target, c.u, c.n, true), p37Canon(w, c.target, c.u, c.n, false); a != b {
				Failf("%s: message %d is %q, logged %q", what, i, a, b)
			}
			t.State("logs %s channel %v", w.Command, strings.HasPrefix(c.target, "#"))
		}
		t.Count("migrated messages compared", len(want))
		// the message store must see the same through history requests
		dbs := msgstore.NewDBStore(db)
		h, err := dbs.LoadBeforeTime(ctx0, far, time.Time{}, &msgstore.LoadMessageOptions{Network: c.n, Entity: c.target, Limit: 100000, Events: true})
		Must(err)
		if len(h) != len(want) {
			Failf("%s: history has %d messages of %d", what, len(h), len(want))
		}
	}
	for _, c := range nets {
		tg, err := db.ListMessageLastPerTarget(ctx0, c.n.ID, &database.MessageOptions{BeforeTime: far, AfterTime: time.Unix(0, 0), Limit: 1000, Events: true})
		Must(err)
		for _, x := range tg {
			if logged[conv{c.u, c.n, x.Name}] == nil {
				Failf("user %q network %q has a conversation %q which was never logged there", c.u.Username, c.n.GetName(), x.Name)
			}
		}
	}
}

// p37Canon is the part of a message the log format keeps.
func p37Canon(m *irc.Message, target string, u *database.User, n *database.Network, migrated bool) string {
	tm, err := time.Parse(xirc.ServerTimeLayout, m.Tags["time"])
	Must(err)
	pr := m.Prefix.Name
	switch m.Command {
	case "JOIN", "PART", "QUIT":
		pr = m.Prefix.String()
	}
	params := append([]string{}, m.Params...)
	if (m.Command == "PRIVMSG" || m.Command == "NOTICE") && !migrated && strings.EqualFold(pr, target) {
		params[0] = database.GetNick(u, n)
	}
	return fmt.Sprintf("%s %s %s %q", tm.UTC().Truncate(time.Second).Format(time.RFC3339), pr, m.Command, params)
}

// --- ZNC ---

type p37Chan struct {
	name, key          string
	detached, disabled bool
}

type p37ZNet struct {
	name, nick, ident, realname string
	host, port, pass            string
	tls                         bool
	connect                     string // "", "true" or "false"
	chans                       []p37Chan
}

type p37ZUser struct {
	name, admin, nick, ident, realname string
	nets                               []p37ZNet
}

func p37ZGen(r *rand.Rand) []p37ZUser {
	var us []p37ZUser
	opt := func(s ...string) string { return Pick(r, append(s, "")) }
	for _, un := range Subset(r, []string{"alice", "Bob", "carol_1", "dave-x"}, 0.6) {
		u := p37ZUser{name: un, admin: opt("true", "false"), nick: Pick(r, []string{un, "nick|" + un}), ident: opt("id"), realname: opt("Real Name = here", "R  N", "réal")}
		for i, nn := range Subset(r, []string{"libera", "OFTC", "net 3", "x.y"}, 0.6) {
			n := p37ZNet{name: nn, nick: opt("altn"), ident: opt("netid"), realname: opt("Net real"), tls: r.Intn(2) == 0, connect: opt("true", "false")}
			n.host = Pick(r, []string{fmt.Sprintf("irc%d.example", i), fmt.Sprintf("192.0.2.%d", i), fmt.Sprintf("2001:db8::%d", i+1), fmt.Sprintf("h%d", i)})
			n.port = Pick(r, []string{"6667", "6697", "7000"})
			n.pass = opt("secret", "p:w=/x")
			for _, c := range Subset(r, []string{"#a", "##b", "#é", "&loc", "#A-b", "+plus"}, 0.4) {
				n.chans = append(n.chans, p37Chan{c, opt("key1", "k=2"), r.Intn(3) == 0, r.Intn(5) == 0})
			}
			u.nets = append(u.nets, n)
		}
		us = append(us, u)
	}
	return us
}

func p37ZText(r *rand.Rand, us []p37ZUser) string {
	var b strings.Builder
	ind := func(d int, s string) {
		b.WriteString(strings.Repeat(Pick(r, []string{"\t", "\t", "  "}), d) + s + Pick(r, []string{"\n", "\n", "\n", " \n", "\r\n"}))
		if r.Intn(15) == 0 {
			b.WriteString("\n")
		}
		if r.Intn(25) == 0 {
			b.WriteString(strings.Repeat("\t", d) + "// a comment = <x>\n")
		}
	}
	kv := func(d int, k, v string) {
		if v != "" {
			ind(d, k+Pick(r, []string{" = ", " = ", "=", "  =  "})+v)
		}
	}
	ind(0, "// WARNING")
	kv(0, "Version", "1.8.2")
	kv(0, "LoadModule", "webadmin")
	ind(0, "<Listener listener0>")
	kv(1, "Port", "6697")
	kv(1, "SSL", "true")
	ind(0, "</Listener>")
	tf := func(v bool) string {
		if v {
			return "true"
		}
		return Pick(r, []string{"", "false"})
	}
	for _, u := range us {
		ind(0, "<User "+u.name+">")
		fs := [][2]string{{"Admin", u.admin}, {"Nick", u.nick}, {"AltNick", "other"}, {"Ident", u.ident}, {"RealName", u.realname}, {"QuitMsg", "bye"}, {"Buffer", "500"}}
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		for _, f := range fs {
			kv(1, f[0], f[1])
		}
		sect := func(n p37ZNet) {
			ind(1, "<Network "+n.name+">")
			port := n.port
			if n.tls {
				port = "+" + port
			}
			s := n.host + " " + port
			if n.pass != "" {
				s += " " + n.pass
			}
			fs := [][2]string{{"Nick", n.nick}, {"Ident", n.ident}, {"RealName", n.realname}, {"Server", s}, {"IRCConnectEnabled", n.connect}, {"FloodBurst", "9"}, {"TrustAllCerts", "false"}}
			if r.Intn(4) == 0 {
				fs = append(fs, [2]string{"LoadModule", Pick(r, []string{"sasl", "nickserv", "perform", "log"})})
			}
			r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			for _, f := range fs {
				kv(2, f[0], f[1])
				if f[0] == "Server" && r.Intn(3) == 0 { // only the first is imported
					kv(2, "Server", "backup.example 6667")
				}
			}
			for _, c := range n.chans {
				ind(2, "<Chan "+c.name+">")
				kv(3, "Key", c.key)
				kv(3, "Detached", tf(c.detached))
				kv(3, "Disabled", tf(c.disabled))
				kv(3, "Buffer", "50")
				ind(2, "</Chan>")
			}
			ind(1, "</Network>")
		}
		for _, n := range u.nets {
			sect(n)
		}
		ind(1, "<Pass password>")
		kv(2, "Hash", "0123")
		kv(2, "Method", "sha256")
		ind(1, "</Pass>")
		ind(0, "</User>")
	}
	return b.String()
}

func p37ZNC(t *T) {
	r := t.Rng
	dir := t.Dir()
	path, conf, zpath := filepath.Join(dir, "z.db"), filepath.Join(dir, "soju conf"), filepath.Join(dir, "znc.conf")
	Must(os.WriteFile(conf, []byte("db sqlite3 "+path+"\nhostname x.example\n"), 0644))
	db, err := database.Open("sqlite3", path)
	Must(err)
	type mnet struct {
		rec database.Network
		chs map[string]database.Channel
	}
	type muser struct {
		rec  database.User
		nets map[string]*mnet
	}
	model := map[string]*muser{}
	// what is there already
	if r.Intn(2) == 0 {
		for _, un := range Subset(r, []string{"alice", "Bob", "carol_1", "zed", "bob"}, 0.6) {
			u := database.NewUser(un)
			u.Admin = r.Intn(2) == 0
			u.Nick, u.Realname, u.Password = Pick(r, []string{"", "n1"}), Pick(r, []string{"", "rr"}), "hash"
			u.Enabled, u.MaxNetworks = r.Intn(4) > 0, r.Intn(3)-1
			Must(db.StoreUser(ctx0, u))
			mu := &muser{rec: *u, nets: map[string]*mnet{}}
			model[un] = mu
			for i, nn := range Subset(r, []string{"libera", "OFTC", "local", ""}, 0.5) {
				n := database.NewNetwork(fmt.Sprintf("ircs://old%d.example", i))
				n.Name, n.Nick, n.Username, n.Realname, n.Pass = nn, Pick(r, []string{"", "old"}), "oldid", "oldreal", "oldpass"
				n.ConnectCommands = []string{"PRIVMSG x :y"}
				n.AutoAway, n.Enabled, n.CertFP = r.Intn(2) == 0, r.Intn(2) == 0, "fp"
				n.SASL.Mechanism, n.SASL.Plain.Username, n.SASL.Plain.Password = "PLAIN", "sa", "sl"
				Must(db.StoreNetwork(ctx0, u.ID, n))
				mn := &mnet{rec: *n, chs: map[string]database.Channel{}}
				mu.nets[n.GetName()] = mn
				for _, c := range Subset(r, []string{"#a", "##b", "#mine"}, 0.5) {
					ch := database.Channel{Name: c, Key: "oldkey", Detached: r.Intn(2) == 0, RelayDetached: database.FilterNone, DetachAfter: time.Minute, DetachedInternalMsgID: "mid"}
					Must(db.StoreChannel(ctx0, n.ID, &ch))
					mn.chs[c] = ch
				}
			}
		}
	}
	before, _, _ := p37Dump(db)
	Must(db.Close())
	zus := p37ZGen(r)
	text := p37ZText(r, zus)
	args := []string{"-config", conf}
	var fu, fn []string
	if r.Intn(3) == 0 {
		fu = Subset(r, []string{"alice", "Bob", "dave-x"}, 0.5)
		for _, u := range fu {
			args = append(args, "-user", u)
		}
	}
	if r.Intn(3) == 0 {
		fn = Subset(r, []string{"libera", "net 3", "x.y"}, 0.5)
		for _, n := range fn {
			args = append(args, "-network", n)
		}
	}
	bad := ""
	if r.Intn(4) == 0 && len(zus) > 0 {
		switch r.Intn(4) {
		case 0:
			bad, text = "a section which is not closed", text[:strings.LastIndex(text, "</User>")]
		case 1:
			bad, text = "a section closed by another", strings.Replace(text, "</User>", "</Network>", 1)
		case 2:
			bad, text = "a line without a value", strings.Replace(text, "<User", "Broken\n<User", 1)
		default:
			bad, text = "a file cut in the middle of a line", text[:strings.LastIndex(text, "</User>")+3]
		}
	}
	Must(os.WriteFile(zpath, []byte(text), 0644))
	out, err := p37Run(dir, "znc-import", append(args, zpath)...)
	db, derr := database.Open("sqlite3", path)
	Must(derr)
	defer db.Close()
	got, _, nrec := p37Dump(db)
	if b, _ := os.ReadFile(zpath); string(b) != text {
		Failf("the ZNC configuration was changed")
	}
	if bad != "" {
		if err == nil {
			Failf("a ZNC configuration with %s is accepted:\n%s", bad, text)
		}
		p37Same("after a refused import", got, before)
		t.State("znc refused: %s", bad)
		t.Count("malformed ZNC files refused", 1)
		return
	}
	if err != nil {
		Failf("znc-import failed on a valid file: %v: %s\n%s", err, lastLines(out, 4), text)
	}
	// the documented merge
	for _, zu := range zus {
		if len(fu) > 0 && !setOf(fu)[zu.name] {
			continue
		}
		mu := model[zu.name]
		if mu == nil {
			mu = &muser{rec: *database.NewUser(zu.name), nets: map[string]*mnet{}}
			model[zu.name] = mu
		}
		mu.rec.Admin = zu.admin == "true"
		for _, zn := range zu.nets {
			if len(fn) > 0 && !setOf(fn)[zn.name] {
				continue
			}
			mn := mu.nets[zn.name]
			if mn == nil {
				mn = &mnet{rec: *database.NewNetwork(""), chs: map[string]database.Channel{}}
				mn.rec.Name = zn.name
				mu.nets[zn.name] = mn
			}
			first := func(a, b string) string {
				if a != "" {
					return a
				}
				return b
			}
			n := &mn.rec
			n.Nick, n.Username, n.Realname = first(zn.nick, zu.nick), first(zn.ident, zu.ident), first(zn.realname, zu.realname)
			n.Pass, n.Enabled = zn.pass, zn.connect != "false"
			n.Addr = map[bool]string{true: "ircs", false: "irc+insecure"}[zn.tls] + "://" + net.JoinHostPort(zn.host, zn.port)
			for _, zc := range zn.chans {
				if zc.disabled {
					continue
				}
				ch := mn.chs[zc.name]
				ch.Name, ch.Key, ch.Detached = zc.name, zc.key, zc.detached
				mn.chs[zc.name] = ch
			}
		}
	}
	want := map[string]string{}
	for name, mu := range model {
		pu := p37User{Rec: normUser(mu.rec)}
		pu.Rec.ID = 0
		for _, mn := range mu.nets {
			pn := p37Net{Rec: normNet(mn.rec)}
			pn.Rec.ID = 0
			for _, c := range mn.chs {
				c.ID = 0
				pn.Channels = append(pn.Channels, c)
			}
			sort.Slice(pn.Channels, func(i, j int) bool { return pn.Channels[i].Name < pn.Channels[j].Name })
			pu.Nets = append(pu.Nets, p37JSON(pn))
		}
		sort.Strings(pu.Nets)
		want[name] = p37JSON(pu)
	}
	// a new user's last activity is the time of the import
	p37Same(fmt.Sprintf("after importing (filters %q %q)\n%s", fu, fn, text), got, want)
	for _, zu := range zus {
		t.State("znc existing %v filtered %v networks %d", before[zu.name] != "", len(fu) > 0, len(zu.nets))
	}
	t.Count("imported records compared", nrec)
}
