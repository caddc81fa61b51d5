package checks

import (
	"context"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P41", Level: "exploration",
		Rule:   "one execution = a user with up to 5 networks and clients bound to them or to none, an administrator and some other users; random changes on both sides (networks created, renamed, disabled, deleted, lost and back; forced nick changes, joins, kicks; channels created, deleted, detached, attached; SASL and certificates set and reset, logins and logouts; users created, changed, deleted; clients coming and leaving); after each, every report of the service (network, channel, sasl, user and server status, fingerprints), asked for by a random client or through the administration socket, is parsed and compared with the harness's own record, quoted lines must arrive at the chosen network only and notices to all once at each client; a situation is (change, report, asked by)",
		Assume: []string{"a report which does not match is asked for again for a while before it counts, since losses are noticed with a delay"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "reports", e.N(1200, 20000), p41Reports)
		},
	})
}

type p41Net struct {
	id      int
	name    string // "" for the address
	up      *Upstream
	off     atomic.Bool
	enabled bool
	uc      *UpConn
	nick    string
	joined  map[string]bool
	saved   map[string]bool // detached
	mech    string
	user    string
	account string
}

func (n *p41Net) getName() string {
	if n.name != "" {
		return n.name
	}
	return n.up.Addr
}

func (n *p41Net) connected() bool { return n.uc != nil }

type p41Client struct {
	cl  *Client
	net *p41Net
}

type p41User struct {
	admin, enabled bool
	max            int
}

type p41 struct {
	t       *T
	r       *rand.Rand
	w       *World
	nets    []*p41Net
	clients []*p41Client
	other   *Client // of the administrator
	users   map[string]*p41User
	seq     int
}

func (p *p41) newNet() *p41Net {
	p.seq++
	n := &p41Net{id: p.seq, enabled: true, joined: map[string]bool{}, saved: map[string]bool{}}
	n.up = NewUpstream(p.t, fmt.Sprintf("up%d", p.seq))
	n.up.OnConn = func(c *UpConn) {
		if n.off.Load() {
			c.Peer.Close()
		}
	}
	n.up.Start()
	if p.r.Intn(4) != 0 {
		n.name = fmt.Sprintf("net%d", p.seq)
	}
	return n
}

// up waits for a connection and for the saved channels to be rejoined.
func (p *p41) await(n *p41Net) {
	if !n.enabled || n.off.Load() {
		return
	}
	n.uc = n.up.SyncLive(1)
	n.nick = n.uc.CurNick()
	n.account = ""
	n.joined = map[string]bool{}
	for c := range n.saved {
		n.joined[c] = true
	}
}

func (p *p41) lost(n *p41Net) {
	n.uc, n.account, n.joined = nil, "", map[string]bool{}
}

// ask runs a command and returns what is printed.
func (p *p41) ask(c *Client, cmd string) []string {
	from := c.Mark()
	c.Send("PRIVMSG BouncerServ :" + cmd)
	c.Sync()
	var out []string
	for _, l := range c.Since(from) {
		if l.Command == "PRIVMSG" && strings.HasPrefix(l.Raw[strings.Index(l.Raw, ":"):], ":BouncerServ!") {
			out = append(out, l.P(1))
		}
	}
	return out
}

type p41Asker struct {
	desc  string
	nick  func() string
	net   *p41Net
	run   func(cmd string) []string
	admin bool
}

// asker picks who asks on behalf of alice.
func (p *p41) asker() p41Asker {
	if p.r.Intn(3) == 0 {
		return p41Asker{desc: "administration socket", run: func(cmd string) []string {
			l, _ := p.w.Admin("user run alice " + cmd)
			return l
		}}
	}
	if p.r.Intn(4) == 0 {
		return p41Asker{desc: "administrator", run: func(cmd string) []string { return p.ask(p.other, "user run alice "+cmd) }}
	}
	c := Pick(p.r, p.clients)
	a := p41Asker{desc: "bound client", net: c.net, run: func(cmd string) []string { return p.ask(c.cl, cmd) }}
	if c.net == nil {
		a.desc = "client of all networks"
		a.nick = func() string { return "alice" }
	}
	return a
}

var p41NetLine = regexp.MustCompile(`^(\S+)(?: \((\S+)\))? \[([^\]]*)\](?:: (.*))?$`)

// mismatch compares one report; it returns "" if all is well.
func (p *p41) networks(a p41Asker) string {
	lines := a.run("network status")
	seen := map[string]bool{}
	for _, l := range lines {
		if len(p.nets) == 0 {
			if len(lines) == 1 && strings.HasPrefix(l, "No network") {
				return ""
			}
		}
		m := p41NetLine.FindStringSubmatch(l)
		if m == nil {
			return fmt.Sprintf("%q is no network status", l)
		}
		var n *p41Net
		for _, x := range p.nets {
			if x.getName() == m[1] {
				n = x
			}
		}
		if n == nil || seen[m[1]] {
			return fmt.Sprintf("%q: unknown or repeated network", l)
		}
		seen[m[1]] = true
		if (n.name != "" && m[2] != n.up.Addr) || (n.name == "" && m[2] != "") {
			return fmt.Sprintf("%q: the address is %q", l, n.up.Addr)
		}
		st := strings.Split(m[3], ", ")
		cur := st[len(st)-1] == "current"
		if cur != (a.net == n) {
			return fmt.Sprintf("%q: current network of the one who asks: %v", l, a.net == n)
		}
		switch {
		case n.connected():
			ok := st[0] == "connected as "+n.nick
			if a.nick == nil || a.nick() == n.nick {
				ok = ok || st[0] == "connected"
			}
			if !ok {
				return fmt.Sprintf("%q: it is connected as %q", l, n.nick)
			}
			if m[4] != fmt.Sprintf("%d channels", len(n.joined)) {
				return fmt.Sprintf("%q: %d channels are joined: %v", l, len(n.joined), n.joined)
			}
		case !n.enabled:
			if st[0] != "disabled" {
				return fmt.Sprintf("%q: it is disabled", l)
			}
		default:
			if st[0] != "disconnected" {
				return fmt.Sprintf("%q: it is not connected", l)
			}
		}
	}
	if len(seen) != len(p.nets) {
		return fmt.Sprintf("%d networks listed, there are %d", len(seen), len(p.nets))
	}
	return ""
}

func (p *p41) channels(a p41Asker) string {
	cmd, nets := "channel status", p.nets
	if a.net != nil {
		nets = []*p41Net{a.net}
	}
	single := a.net != nil
	if len(p.nets) > 0 && p.r.Intn(2) == 0 {
		n := Pick(p.r, p.nets)
		cmd, nets, single = cmd+" -network "+n.getName(), []*p41Net{n}, true
	}
	var want []string
	for _, n := range nets {
		for c, det := range n.saved {
			st := "disconnected"
			if n.connected() && n.joined[c] {
				st = "joined"
			} else if n.connected() {
				st = "parted"
			}
			if det {
				st += ", detached"
			}
			name := c
			if !single {
				name += "/" + n.getName()
			}
			want = append(want, fmt.Sprintf("%s [%s]", name, st))
		}
	}
	got := a.run(cmd)
	if len(want) == 0 {
		if len(got) == 1 && strings.HasPrefix(got[0], "No channel") {
			return ""
		}
		return fmt.Sprintf("%q: %q, want none", cmd, got)
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Sprintf("%q: %q, want %q", cmd, got, want)
	}
	return ""
}

func (p *p41) sasl(a p41Asker) string {
	n := a.net
	arg := ""
	if n == nil || p.r.Intn(2) == 0 {
		if len(p.nets) == 0 {
			return ""
		}
		n = Pick(p.r, p.nets)
		arg = " -network " + n.getName()
	}
	got := strings.Join(a.run("sasl status"+arg), "\n")
	want := map[string]string{"": "SASL is disabled", "PLAIN": fmt.Sprintf("SASL PLAIN enabled with username %q", n.user), "EXTERNAL": "SASL EXTERNAL (CertFP) enabled"}[n.mech]
	switch {
	case n.connected() && n.account != "":
		want += fmt.Sprintf("\nAuthenticated on upstream network with account %q", n.account)
	case n.connected():
		want += "\nUnauthenticated on upstream network"
	default:
		want += "\nDisconnected from upstream network"
	}
	if got != want {
		return fmt.Sprintf("sasl status%s: %q, want %q", arg, got, want)
	}
	got = strings.ToLower(strings.Join(a.run("certfp fingerprint"+arg), "\n"))
	if n.mech != "EXTERNAL" {
		if strings.Contains(got, "sha-") {
			return fmt.Sprintf("a fingerprint without certificate: %q", got)
		}
		return ""
	}
	rec := p.record(n)
	b := rec.SASL.External.CertBlob
	for _, sum := range []string{fmt.Sprintf("%x", sha1.Sum(b)), fmt.Sprintf("%x", sha256.Sum256(b)), fmt.Sprintf("%x", sha512.Sum512(b))} {
		if !strings.Contains(got, sum) {
			return fmt.Sprintf("fingerprints %q of the certificate with %q", got, sum)
		}
	}
	return ""
}

func (p *p41) record(n *p41Net) database.Network {
	l, err := p.w.DB.ListNetworks(context.Background(), p.w.UserID("alice"))
	Must(err)
	for _, rec := range l {
		if rec.GetName() == n.getName() {
			return rec
		}
	}
	Failf("network %q is not saved", n.getName())
	panic("")
}

func (p *p41) adminAsk(cmd string) []string {
	if p.r.Intn(2) == 0 {
		return p.ask(p.other, cmd)
	}
	l, _ := p.w.Admin(cmd)
	return l
}

func (p *p41) userStatus() string {
	cmd := "user status"
	var names []string
	if p.r.Intn(2) == 0 {
		for u := range p.users {
			names = append(names, u)
		}
		sort.Strings(names)
		names = []string{Pick(p.r, names)}
		cmd += " " + names[0]
	} else {
		for u := range p.users {
			names = append(names, u)
		}
	}
	var want []string
	for _, name := range names {
		u := p.users[name]
		var attrs []string
		if u.admin {
			attrs = append(attrs, "admin")
		}
		if !u.enabled {
			attrs = append(attrs, "disabled")
		}
		s := name
		if len(attrs) > 0 {
			s += " (" + strings.Join(attrs, ", ") + ")"
		}
		k := 0
		if name == "alice" {
			k = len(p.nets)
		}
		s += fmt.Sprintf(": %d networks", k)
		if u.max >= 0 {
			s += fmt.Sprintf(" (%d max)", u.max)
		}
		want = append(want, s)
	}
	got := p.adminAsk(cmd)
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Sprintf("%q: %q, want %q", cmd, got, want)
	}
	return ""
}

func (p *p41) serverStatus() string {
	got := p.adminAsk("server status")
	var users, dbUsers, down, up, nets, chans int
	if len(got) == 1 {
		fmt.Sscanf(got[0], "%d/%d users, %d downstreams, %d upstreams, %d networks, %d channels", &users, &dbUsers, &down, &up, &nets, &chans)
	}
	saved, conn, trying := 0, 0, 0
	for _, n := range p.nets {
		saved += len(n.saved)
		if n.connected() {
			conn++
		} else if n.enabled {
			trying++
		}
	}
	if users != len(p.users) || dbUsers != len(p.users) || down != len(p.clients)+1 || up < conn || up > conn+trying || nets != len(p.nets) || chans != saved {
		return fmt.Sprintf("server status %q, there are %d users, %d clients, %d-%d connections to networks, %d networks and %d channels", got, len(p.users), len(p.clients)+1, conn, conn+trying, len(p.nets), saved)
	}
	return ""
}

// check asks for some reports.
func (p *p41) check(what string) {
	for i := 0; i < 3; i++ {
		a := p.asker()
		kind := Pick(p.r, []string{"network", "network", "channel", "channel", "sasl", "user", "server"})
		desc := a.desc
		f := func() string { return p.networks(a) }
		switch kind {
		case "channel":
			f = func() string { return p.channels(a) }
		case "sasl":
			f = func() string { return p.sasl(a) }
		case "user":
			f, desc = p.userStatus, "administrator"
		case "server":
			f, desc = p.serverStatus, "administrator"
		}
		start := time.Now()
		r, seed := p.r, p.r.Int63()
		for {
			p.r = rand.New(rand.NewSource(seed)) // the same report each time
			bad := f()
			p.r = r
			if bad == "" {
				break
			}
			if time.Since(start) > Watchdog/6 {
				Failf("after %s, report to %s: %s", what, desc, bad)
			}
			time.Sleep(5 * time.Millisecond)
		}
		p.t.Count("reports compared", 1)
		p.t.State("%s|%s|%s", strings.Fields(what)[0], kind, desc)
	}
	p.w.CheckNoPanic()
}

func (p *p41) must(lines []string, want string) {
	for _, l := range lines {
		if strings.HasPrefix(l, want) {
			return
		}
	}
	Failf("answer %q, want %q", lines, want)
}

func (p *p41) connect() {
	c := &p41Client{}
	o := ClientOpts{User: "alice", Nick: "alice"}
	if len(p.nets) > 0 && p.r.Intn(3) != 0 {
		c.net = Pick(p.r, p.nets)
		if o.Network = c.net.name; o.Network == "" {
			o.NetID = fmt.Sprint(p.record(c.net).ID)
		}
	}
	if p.r.Intn(2) == 0 {
		o.Client = Pick(p.r, []string{"phone", "desk"})
	}
	o.Caps = Subset(p.r, []string{"message-tags", "server-time", "batch", "labeled-response", "soju.im/bouncer-networks", "echo-message"}, 0.4)
	if c.net == nil {
		o.Caps = append(o.Caps, "soju.im/bouncer-networks")
	}
	c.cl = p.w.Connect(o)
	p.clients = append(p.clients, c)
}

func (p *p41) dropClient(i int) {
	p.clients[i].cl.CloseWait()
	p.clients = append(p.clients[:i], p.clients[i+1:]...)
	p.w.WaitDownstreams(int64(len(p.clients) + 1))
}

var p41Chans = []string{"#a", "#b", "#C", "##d", "#ee"}

func (p *p41) step() string {
	r := p.r
	var live []*p41Net
	for _, n := range p.nets {
		if n.connected() {
			live = append(live, n)
		}
	}
	a := p41Asker{run: func(cmd string) []string {
		l, ok := p.w.Admin("user run alice " + cmd)
		if !ok {
			Failf("%q refused: %q", cmd, l)
		}
		return l
	}}
	k := r.Intn(26)
	switch {
	case k < 3 && len(p.nets) < 5:
		n := p.newNet()
		n.enabled = r.Intn(4) != 0
		n.off.Store(r.Intn(4) == 0)
		cmd := fmt.Sprintf("network create -addr %s -enabled %v", n.up.Addr, n.enabled)
		if n.name != "" {
			cmd += " -name " + n.name
		}
		n.nick = "alice"
		if r.Intn(2) == 0 {
			cmd += fmt.Sprintf(" -nick n%d", n.id)
		}
		p.must(a.run(cmd), "created network")
		p.nets = append(p.nets, n)
		p.await(n)
		return "network-create"
	case k < 5 && len(p.nets) > 0: // update
		n := Pick(r, p.nets)
		cmd := "network update " + n.getName()
		if r.Intn(2) == 0 {
			p.seq++
			n.name = fmt.Sprintf("net%d", p.seq)
			cmd += " -name " + n.name
		}
		if r.Intn(2) == 0 {
			n.enabled = !n.enabled
			cmd += fmt.Sprintf(" -enabled %v", n.enabled)
		}
		if r.Intn(2) == 0 {
			p.seq++
			cmd += fmt.Sprintf(" -nick m%d", p.seq)
		}
		old := n.uc
		p.must(a.run(cmd), "updated network")
		p.lost(n)
		if old != nil {
			old.WaitClosed("an update")
		}
		p.await(n)
		return "network-update"
	case k < 6 && len(p.nets) > 1:
		i := r.Intn(len(p.nets))
		n := p.nets[i]
		p.must(a.run("network delete "+n.getName()), "deleted network")
		p.nets = append(p.nets[:i], p.nets[i+1:]...)
		var rest []*p41Client
		for _, c := range p.clients {
			if c.net != n {
				rest = append(rest, c)
				continue
			}
			c.cl.WaitClosed("the deletion of its network")
		}
		p.clients = rest
		p.w.WaitDownstreams(int64(len(p.clients) + 1))
		if len(p.clients) == 0 {
			p.connect()
		}
		return "network-delete"
	case k < 8 && len(live) > 0:
		n := Pick(r, live)
		n.off.Store(r.Intn(3) != 0)
		old := n.uc
		old.Peer.Close()
		old.WaitClosed("the end")
		p.lost(n)
		if !n.off.Load() {
			p.awaitNew(n, old)
		}
		return "network-loss"
	case k < 10:
		for _, n := range p.nets {
			if n.off.Load() {
				n.off.Store(false)
				p.await(n)
				return "network-back"
			}
		}
	case k < 11 && len(live) > 0:
		n := Pick(r, live)
		p.seq++
		nick := fmt.Sprintf("forced%d", p.seq)
		if r.Intn(3) == 0 {
			nick = "alice"
		}
		n.uc.Sendf(":%s NICK %s", n.uc.Prefix(), nick)
		n.uc.SetNick(nick)
		n.nick = nick
		n.uc.Sync()
		return "nick"
	case k < 13 && len(live) > 0:
		n := Pick(r, live)
		ch := Pick(r, p41Chans)
		if n.joined[ch] {
			switch r.Intn(2) {
			case 0:
				n.uc.Sendf(":op!o@h KICK %s %s :out", ch, n.nick)
			default:
				n.uc.Sendf(":%s PART %s", n.uc.Prefix(), ch)
			}
			delete(n.joined, ch)
			n.uc.Sync()
			return "removed"
		}
		n.uc.DoJoin(ch, "")
		n.joined[ch] = true
		n.uc.Sync()
		return "forced-join"
	case k < 17 && len(p.nets) > 0:
		n := Pick(r, p.nets)
		ch := Pick(r, p41Chans)
		arg := ch + "/" + n.getName()
		if det, ok := n.saved[ch]; ok {
			if r.Intn(3) == 0 {
				p.must(a.run("channel delete "+arg), "deleted channel")
				delete(n.saved, ch)
				delete(n.joined, ch)
				p.sync(n)
				return "channel-delete"
			}
			n.saved[ch] = !det
			p.must(a.run(fmt.Sprintf("channel update %s -detached %v", arg, !det)), "updated channel")
			p.sync(n)
			return fmt.Sprintf("detached=%v", !det)
		}
		det := r.Intn(3) == 0
		p.must(a.run(fmt.Sprintf("channel create %s -detached %v", arg, det)), "created channel")
		n.saved[ch] = det
		if n.connected() {
			n.joined[ch] = true
		}
		p.sync(n)
		return "channel-create"
	case k < 19 && len(p.nets) > 0:
		n := Pick(r, p.nets)
		p.seq++
		switch r.Intn(4) {
		case 0:
			n.mech = ""
			p.must(a.run("sasl reset -network "+n.getName()), "credentials reset")
			return "sasl-reset"
		case 1:
			n.mech = "EXTERNAL"
			p.must(a.run("certfp generate -key-type "+Pick(r, []string{"ed25519", "ecdsa"})+" -network "+n.getName()), "certificate generated")
			return "certfp"
		default:
			n.mech, n.user = "PLAIN", fmt.Sprintf("login%d", p.seq)
			p.must(a.run("sasl set-plain -network "+n.getName()+" "+n.user+" secret"), "credentials saved")
			return "sasl-plain"
		}
	case k < 20 && len(live) > 0:
		n := Pick(r, live)
		p.seq++
		if n.account != "" && r.Intn(2) == 0 {
			n.uc.Sendf(":%s 901 %s %s :You are now logged out", n.up.Host, n.nick, n.uc.Prefix())
			n.account = ""
		} else {
			n.account = fmt.Sprintf("acc%d", p.seq)
			n.uc.Sendf(":%s 900 %s %s %s :You are now logged in", n.up.Host, n.nick, n.uc.Prefix(), n.account)
		}
		n.uc.Sync()
		return "account"
	case k < 22: // users
		p.seq++
		if len(p.users) < 6 && r.Intn(2) == 0 {
			u := &p41User{admin: r.Intn(3) == 0, enabled: r.Intn(3) != 0, max: r.Intn(4) - 1}
			name := fmt.Sprintf("user%d", p.seq)
			p.must(p.adminAsk(fmt.Sprintf("user create -username %s -disable-password -admin=%v -enabled=%v -max-networks %d", name, u.admin, u.enabled, u.max)), "created user")
			p.users[name] = u
			return "user-create"
		}
		var names []string
		for u := range p.users {
			if u != "alice" && u != "root" {
				names = append(names, u)
			}
		}
		if len(names) == 0 {
			return ""
		}
		sort.Strings(names)
		name := Pick(r, names)
		u := p.users[name]
		if r.Intn(3) == 0 {
			p.must(p.adminAsk("user delete "+name+" "+delToken(name)), "deleted user")
			delete(p.users, name)
			return "user-delete"
		}
		cmd := "user update " + name
		if r.Intn(2) == 0 {
			u.admin = !u.admin
			cmd += fmt.Sprintf(" -admin %v", u.admin)
		}
		if r.Intn(2) == 0 {
			u.enabled = !u.enabled
			cmd += fmt.Sprintf(" -enabled %v", u.enabled)
		}
		if r.Intn(2) == 0 {
			u.max = r.Intn(4) - 1
			cmd += fmt.Sprintf(" -max-networks %d", u.max)
		}
		p.must(p.adminAsk(cmd), "updated user")
		return "user-update"
	case k < 24:
		if len(p.clients) > 1 && r.Intn(2) == 0 || len(p.clients) > 4 {
			p.dropClient(r.Intn(len(p.clients)))
			return "client-left"
		}
		p.connect()
		return "client-joined"
	case k < 25 && len(live) > 0:
		n := Pick(r, live)
		p.seq++
		tok := fmt.Sprintf("quoted-%d", p.seq)
		marks := map[*p41Net]int{}
		for _, x := range live {
			marks[x] = x.uc.Mark()
		}
		as := p.asker()
		p.must(as.run(fmt.Sprintf(`network quote %s "PRIVMSG target :%s x"`, n.getName(), tok)), "sent command")
		for _, x := range live {
			p.sync(x)
			k := 0
			for _, l := range x.uc.Since(marks[x]) {
				if l.Command == "PRIVMSG" && l.P(0) == "target" && l.P(1) == tok+" x" {
					k++
				}
			}
			want := 0
			if x == n {
				want = 1
			}
			if k != want {
				Failf("a line quoted to %s came %d times to %s", n.getName(), k, x.getName())
			}
		}
		p.t.Count("quoted lines", 1)
		return "quote"
	default:
		p.seq++
		text := fmt.Sprintf("announcement %d", p.seq)
		all := []*Client{p.other}
		for _, c := range p.clients {
			all = append(all, c.cl)
		}
		var from []int
		for _, c := range all {
			from = append(from, c.Mark())
		}
		p.adminAsk(`server notice "` + text + `"`)
		p.fence()
		for i, c := range all {
			c.Sync()
			k := 0
			for _, l := range c.Since(from[i]) {
				if l.Command == "NOTICE" && l.P(1) == text {
					k++
				}
			}
			if k != 1 {
				c.Dump()
				Failf("%s got the notice to all %d times", c.Name, k)
			}
		}
		p.t.Count("notices to all", 1)
		return "notice"
	}
	return ""
}

func (p *p41) fence() {
	for _, u := range []string{"alice", "root"} {
		if l, ok := p.w.Admin("user run " + u + " network status"); !ok {
			Failf("network status refused: %q", l)
		}
	}
}

// sync lets the answers of the network be processed.
func (p *p41) sync(n *p41Net) {
	if n.uc != nil {
		p.fence()
		n.uc.Sync()
		n.uc.Sync()
	}
}

// awaitNew waits for another connection than old.
func (p *p41) awaitNew(n *p41Net, old *UpConn) {
	Until("a new connection", func() bool { c := n.up.Newest(); return c != nil && c != old })
	p.await(n)
}

func p41Reports(t *T) {
	p := &p41{t: t, r: t.Rng, users: map[string]*p41User{"alice": {enabled: true, max: -1}, "root": {admin: true, enabled: true, max: -1}}}
	p.w = NewWorld(t, Pick(p.r, []string{"memory", "db"}))
	u := p.w.AddUser("alice", false)
	p.w.AddUser("root", true)
	for i := 0; i < p.r.Intn(3); i++ {
		n := p.newNet()
		p.w.AddNetwork(u, n.name, n.up)
		p.nets = append(p.nets, n)
	}
	p.w.Start()
	for _, n := range p.nets {
		p.await(n)
	}
	p.other = p.w.Connect(ClientOpts{User: "root", Nick: "root", Caps: []string{"soju.im/bouncer-networks"}})
	p.connect()
	var script []string
	defer func() {
		if v := recover(); v != nil {
			t.Logf("history: %s", strings.Join(script, "; "))
			panic(v)
		}
	}()
	p.check("start")
	for i := 0; i < 30; i++ {
		s := p.step()
		if s == "" {
			continue
		}
		script = append(script, s)
		p.check(s)
		t.Count("steps", 1)
	}
	t.Sample("%s", strings.Join(script, "; "))
}
