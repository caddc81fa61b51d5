package checks

import (
	"database/sql"
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P22", Level: "stress_oracle",
		Rule:   "one execution = two users with two networks each; a random history of operations carrying unique secrets (correct, wrong, malformed, oversized and aborted logins; NickServ commands in all spellings; server passwords, SASL credentials, login connect commands and account passwords set through the service, with and without syntax errors; post-registration authentication and account registration; commands sent right before a disconnection on either side), interleaved with status, list, history and search queries by everybody, reconnections and restarts; afterwards the monitor scans every line ever received by every client and every server, the message logs, every database table and the default-level server log for every secret, in plain and in its base64 forms, and allows it only where it belongs. A situation is (kind of secret, store, connection state when sent)",
		Assume: []string{"secrets are unique random strings, so a match is a leak"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "secrets", e.N(260, 6000), p22Run)
		},
	})
}

type p22Secret struct {
	text string
	kind string
	ups  map[string]bool     // servers that may receive it
	cl   func(c *p22Cl) bool // clients that may receive it
	user int                 // database records it may be part of
	seq  int
	pats []string
}

type p22Cl struct {
	c    *Client
	user int
	net  int // -1: unbound
	late bool
	gone bool
}

type p22 struct {
	t        *T
	w        *World
	r        *rand.Rand
	store    string
	internal bool
	late     bool
	ups      [2][2]*Upstream
	cls      []*p22Cl
	secs     []*p22Secret
	seq      int
	kill     sync.Map // upstream -> close after the next echo
}

// b64Pats returns the parts of s visible in base64 whatever its alignment.
func b64Pats(s string) []string {
	var l []string
	for off := 0; off < 3; off++ {
		b := base64.StdEncoding.EncodeToString([]byte(strings.Repeat("x", off) + s))
		skip := 0
		if off > 0 {
			skip = 4
		}
		end := (off + len(s)) / 3 * 4
		if end-skip >= 12 {
			l = append(l, b[skip:end])
		}
	}
	return l
}

func (p *p22) secret(kind string, user int, ups []string, cl func(c *p22Cl) bool) string {
	const al = "ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz23456789"
	b := make([]byte, 20)
	for i := range b {
		b[i] = al[p.r.Intn(len(al))]
	}
	text := "Zq" + string(b)
	p.seq++
	s := &p22Secret{text: text, kind: kind, ups: map[string]bool{}, cl: cl, user: user, seq: p.seq}
	for _, u := range ups {
		s.ups[u] = true
	}
	s.pats = append([]string{text}, b64Pats(text)...)
	p.secs = append(p.secs, s)
	p.t.Count("secrets "+kind, 1)
	return text
}

func (p *p22) connect(user, net int) *p22Cl {
	o := ClientOpts{User: p22Users[user], Caps: Subset(p.r, []string{"message-tags", "echo-message", "sasl", "batch", "server-time", "draft/chathistory", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "account-notify"}, 0.7), Client: Pick(p.r, []string{"", "a", "b"})}
	if net >= 0 {
		o.Network = p22Nets[net]
	}
	cl := &p22Cl{user: user, net: net, late: p.late}
	cl.c = p.w.Connect(o)
	p.cls = append(p.cls, cl)
	return cl
}

var p22Users = []string{"alice", "bob"}
var p22Nets = []string{"neta", "netb"}

func (p *p22) live() []*p22Cl {
	var l []*p22Cl
	for _, c := range p.cls {
		if !c.gone {
			l = append(l, c)
		}
	}
	return l
}

func (p *p22) upName(user, net int) string { return p.ups[user][net].Name }

// after sends the line and possibly tears down one of the connections.
func (p *p22) send(cl *p22Cl, kind string, lines ...string) {
	state := "settled"
	switch p.r.Intn(7) {
	case 0:
		// the client vanishes right after; the bouncer still has work queued
		state = "vanishing"
		for i := 0; i < p.r.Intn(20); i++ {
			lines = append([]string{"PRIVMSG BouncerServ :help"}, lines...)
		}
		cl.c.Raw(strings.Join(lines, "\r\n") + "\r\n")
		cl.c.Peer.Close()
		cl.gone = true
	case 1:
		state = "quitting"
		cl.c.Raw("QUIT\r\n" + strings.Join(lines, "\r\n") + "\r\n")
		cl.gone = true
	case 2:
		if cl.net >= 0 {
			state = "server-leaves"
			p.kill.Store(p.ups[cl.user][cl.net], true)
		}
		cl.c.Send(lines...)
	default:
		cl.c.Send(lines...)
		if cl.c.TrySync() < 0 {
			cl.gone = true // e.g. a malformed authentication
		}
	}
	p.t.State("%s %s %s", kind, p.store, state)
}

func (p *p22) step() {
	r := p.r
	ls := p.live()
	if len(ls) == 0 || r.Intn(8) == 0 {
		p.connect(r.Intn(2), r.Intn(3)-1)
		return
	}
	cl := Pick(r, ls)
	var ups []string
	if cl.net >= 0 {
		ups = []string{p.upName(cl.user, cl.net)}
	}
	self := func(c *p22Cl) bool { return c == cl }
	none := func(c *p22Cl) bool { return false }
	switch r.Intn(12) {
	case 0, 1, 2: // account services
		s := p.secret("nickserv", cl.user, ups, func(c *p22Cl) bool {
			return c.user == cl.user && c.net == cl.net && !c.late
		})
		ns := Pick(r, []string{"NickServ", "nickserv", "NICKSERV", "nIcKsErV"})
		tag := ""
		if r.Intn(3) == 0 {
			tag = Pick(r, []string{"@+draft/reply=1 ", "@label=x1 ", "@+draft/channel-context=#a ", "@+x=" + s + " "})
		}
		cmd := Pick(r, []string{"PRIVMSG", "PRIVMSG", "PRIVMSG", "NOTICE", "privmsg"})
		txt := Pick(r, []string{"IDENTIFY " + s, "IDENTIFY acc " + s, "identify " + s, "REGISTER " + s + " a@b", "SET PASSWORD " + s, "GHOST nick " + s, "REGAIN nick " + s, "LOGIN " + s, "DROP acc " + s, "SETPASS acc key " + s, "RECOVER x " + s, "\x01" + s + "\x01"})
		target := ns
		if r.Intn(6) == 0 {
			target = ns + ",NickServ"
		}
		p.send(cl, "nickserv", fmt.Sprintf("%s%s %s :%s", tag, cmd, target, txt))
	case 3: // service: network credentials
		n := r.Intn(2)
		echo := false
		s := p.secret("service-network", cl.user, []string{p.upName(cl.user, n)}, func(c *p22Cl) bool {
			return c == cl || echo && c.user == cl.user && c.net == n && !c.late
		})
		name := p22Nets[n]
		cmd := Pick(r, []string{
			"sasl set-plain -network " + name + " acc " + s,
			"network update " + name + " -pass " + s,
			"network update " + name + ` -connect-command "PRIVMSG NickServ :IDENTIFY ` + s + `"`,
			"sasl set-plain -network " + name + " " + s,
			"sasl set-plain -network nowhere acc " + s,
			"network update nowhere -pass " + s,
			"network update " + name + " -pass " + s + " -bogus x",
			"network update " + name + ` -connect-command "` + s,
			"network create -addr irc+insecure://127.0.0.1:1 -name extra -enabled false -pass " + s,
			"network create -addr irc+insecure://127.0.0.1:1 -enabled maybe -pass " + s,
			"network quote " + name + ` "PRIVMSG NickServ :IDENTIFY ` + s + `"`,
			"network quote " + name + ` "PASS ` + s + `"`,
		})
		echo = strings.Contains(cmd, "NickServ") // the user's clients see what is sent
		p.send(cl, "service-network", "PRIVMSG BouncerServ :"+cmd)
	case 4: // service: account passwords
		if p.internal {
			return // it would take effect
		}
		s := p.secret("service-account", -1, nil, self)
		cmd := Pick(r, []string{
			"user update -password " + s,
			"user update " + p22Users[cl.user] + " -password " + s,
			"user update nobody -password " + s,
			"user create -username new -password " + s,
			"user update -password " + s + " -bogus",
			"user run " + p22Users[1-cl.user] + " user update -password " + s,
			"user run " + p22Users[1-cl.user] + " sasl set-plain -network nowhere acc " + s,
			"user delete x " + s,
		})
		p.send(cl, "service-account", "PRIVMSG BouncerServ :"+cmd)
	case 5: // authentication on the network
		s := p.secret("sasl", cl.user, ups, none)
		good := B64("\x00acc\x00" + s)
		pay := Pick(r, []string{good, good, B64("acc\x00" + s), B64(s), good + "!", B64("\x00acc\x00" + s + "\x00more"), B64("other\x00acc\x00" + s), B64("\x00acc\x00" + s + strings.Repeat("y", 300))})
		lines := []string{"CAP REQ sasl", Pick(r, []string{"AUTHENTICATE PLAIN", "AUTHENTICATE PLAIN", "AUTHENTICATE OAUTHBEARER", "AUTHENTICATE ANONYMOUS"})}
		for len(pay) > 400 {
			lines = append(lines, "AUTHENTICATE "+pay[:400])
			pay = pay[400:]
		}
		lines = append(lines, "AUTHENTICATE "+pay)
		p.send(cl, "sasl", lines...)
	case 6: // account registration, oper and others
		s := p.secret("command", cl.user, ups, self)
		p.send(cl, "command", Pick(r, []string{"REGISTER acc * " + s, "REGISTER acc a@b :" + s, "VERIFY acc " + s, "OPER me " + s, "PASS " + s, "NS IDENTIFY " + s, "NICKSERV IDENTIFY " + s}))
	case 7: // logins
		u := p22Users[r.Intn(2)]
		s := p.secret("login", -1, nil, none)
		c := p.w.Dial("login")
		x := &p22Cl{c: c, user: -1, net: -1, gone: true}
		p.cls = append(p.cls, x)
		switch r.Intn(7) {
		case 0:
			c.Send("PASS "+s, "NICK x", "USER "+u+"/neta 0 * :x")
		case 1:
			c.Send("PASS "+u+":"+s, "NICK x", "USER "+u+" 0 * :x")
		case 2:
			c.Send("CAP LS 302", "CAP REQ :sasl", "AUTHENTICATE PLAIN", "AUTHENTICATE "+B64("\x00"+u+"\x00"+s), "NICK x", "USER x 0 * :x", "CAP END")
		case 3:
			c.Send("CAP LS 302", "CAP REQ :sasl", "AUTHENTICATE PLAIN", "AUTHENTICATE "+Pick(r, []string{B64(s), B64(u + "\x00" + s), B64("\x00" + u + "\x00" + s + "\x00"), B64(u+"\x00"+u+"\x00"+s) + "=", s, B64("\x00\x00" + s)}), "NICK x", "USER x 0 * :x", "CAP END")
		case 4:
			c.Send("PASS "+s+" extra", "PASS :"+s, "PASS", "NICK x", "USER "+u, "USER "+u+" 0 * :x")
		case 5:
			c.Send("CAP REQ :sasl", "AUTHENTICATE OAUTHBEARER", "AUTHENTICATE "+B64("n,a="+u+",\x01auth=Bearer "+s+"\x01\x01"), "AUTHENTICATE "+B64("n,,\x01auth=Basic "+s), "AUTHENTICATE "+B64("n"+s))
		default:
			c.Send("PASS "+s, "NICK x", "@"+s+" "+s, "USER "+u+"/neta 0 * :x")
		}
		if r.Intn(2) == 0 {
			c.Wait(0, "refusal", func(l Line) bool {
				return l.Command == "464" || l.Command == "FAIL" || l.Command == "904" || l.Command == "ERROR" || l.Command == "461"
			})
		}
		c.Peer.Close()
		p.t.State("login %s", p.store)
	default: // queries and ordinary traffic
		q := Pick(r, []string{"PRIVMSG BouncerServ :network status", "PRIVMSG BouncerServ :sasl status -network neta", "PRIVMSG BouncerServ :sasl status", "BOUNCER LISTNETWORKS", "PRIVMSG BouncerServ :channel status", "PRIVMSG BouncerServ :user status", "PRIVMSG BouncerServ :user run bob network status", "PRIVMSG BouncerServ :user run bob sasl status -network neta", "PRIVMSG BouncerServ :server status", "PRIVMSG BouncerServ :help network update", "CHATHISTORY LATEST NickServ * 100", "CHATHISTORY LATEST #a * 100", "CHATHISTORY TARGETS timestamp=2020-01-01T00:00:00.000Z timestamp=2040-01-01T00:00:00.000Z 50", "SEARCH text=Zq", "SEARCH in=NickServ", "WHOIS alice", "WHO #a", "PRIVMSG #a :hello", "MODE #a", "PRIVMSG BouncerServ :network update neta -realname x", "PRIVMSG BouncerServ :certfp generate -network netb -key-type ed25519", "VERSION", "PRIVMSG BouncerServ :channel update #a -detached true", "PRIVMSG BouncerServ :channel update #a -detached false"})
		cl.c.Send(q)
		if cl.c.TrySync() < 0 {
			cl.gone = true
		}
		p.t.Count("queries", 1)
	}
}

func p22Run(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db", "db"})
	w := NewWorld(t, store)
	p := &p22{t: t, w: w, r: r, store: store}
	internal := r.Intn(3) == 0
	p.internal = internal
	if internal {
		a, err := auth.New("internal", "")
		Must(err)
		w.Cfg = func(c *soju.Config) { c.Auth = a }
	}
	for i, name := range p22Users {
		u := w.AddUser(name, i == 0, func(u *database.User) {
			if internal {
				SetPassword(u, "pw-"+name)
			}
		})
		for j, nn := range p22Nets {
			up := NewUpstream(t, fmt.Sprintf("%s-%s", name, nn))
			up.Caps = append([]string{"sasl=PLAIN", "draft/account-registration"}, Pick(r, upCapSets)...)
			up.Echo = r.Intn(2) == 0
			deny := r.Intn(3) == 0
			up.OnLine = func(c *UpConn, l Line) bool {
				if v, _ := p.kill.LoadAndDelete(up); v != nil {
					if l.Command == "PRIVMSG" {
						c.Default(l) // echo, then leave
					}
					c.Peer.Close()
					return true
				}
				switch l.Command {
				case "AUTHENTICATE":
					switch l.P(0) {
					case "PLAIN":
						c.Send("AUTHENTICATE +")
					case "*":
						c.Sendf(":%s 906 %s :aborted", up.Host, nz(c.CurNick()))
					default:
						if len(l.P(0)) == 400 {
							return true
						}
						if deny {
							c.Sendf(":%s 904 %s :failed", up.Host, nz(c.CurNick()))
						} else {
							c.Sendf(":%s 900 %s %s acc :logged in", up.Host, nz(c.CurNick()), nz(c.Prefix()))
							c.Sendf(":%s 903 %s :ok", up.Host, nz(c.CurNick()))
						}
					}
					return true
				case "REGISTER":
					c.Sendf("REGISTER SUCCESS acc :ok")
					return true
				case "OPER":
					c.Sendf(":%s 464 %s :no", up.Host, c.CurNick())
					return true
				}
				return false
			}
			up.Start()
			p.ups[i][j] = up
			dn := w.AddNetwork(u, nn, up, func(n *database.Network) {
				n.AutoAway = false
				if r.Intn(2) == 0 {
					n.Pass = p.secret("stored-pass", i, []string{up.Name}, func(*p22Cl) bool { return false })
				}
				if r.Intn(2) == 0 {
					n.SASL.Mechanism = "PLAIN"
					n.SASL.Plain.Username = "acc"
					n.SASL.Plain.Password = p.secret("stored-sasl", i, []string{up.Name}, func(*p22Cl) bool { return false })
				}
				if r.Intn(3) == 0 {
					n.ConnectCommands = []string{"PRIVMSG NickServ :IDENTIFY " + p.secret("stored-command", i, []string{up.Name}, func(c *p22Cl) bool { return c.user == i && c.net == j && !c.late })}
				}
			})
			w.AddChannel(dn, "#a")
		}
	}
	w.Start()
	for i := range p.ups {
		for _, up := range p.ups[i] {
			up.Conn(0)
		}
	}
	n := 20 + r.Intn(30)
	for i := 0; i < n; i++ {
		p.step()
		if r.Intn(25) == 0 {
			for _, c := range p.cls {
				c.gone = true
			}
			w.Restart()
			t.Count("restarts", 1)
		}
	}
	for _, c := range p.cls {
		c.c.Peer.Close()
	}
	w.WaitDownstreams(0)
	for i := range p.ups {
		for _, up := range p.ups[i] {
			up.SyncLive(2)
		}
	}
	p.late = true
	// Late comers get what was kept for them, nothing secret
	for i := range p22Users {
		for j := -1; j < 2; j++ {
			c := p.connect(i, j)
			c.c.Send("BOUNCER LISTNETWORKS", "PRIVMSG BouncerServ :network status", "CHATHISTORY LATEST NickServ * 100", "SEARCH text=Zq")
			c.c.TrySync()
		}
	}
	for _, c := range p.live() {
		c.c.TrySync()
	}
	w.Stop()
	p.scan()
}

func (p *p22) match(s *p22Secret, text string) bool {
	for _, pat := range s.pats {
		if strings.Contains(text, pat) {
			return true
		}
	}
	return false
}

func (p *p22) scan() {
	t := p.t
	lines := 0
	for _, c := range p.cls {
		ls := c.c.Lines()
		var sb strings.Builder
		for _, l := range ls {
			sb.WriteString(l.Raw + "\n")
		}
		lines += len(ls)
		all := sb.String()
		for _, s := range p.secs {
			if p.match(s, all) && !s.cl(c) {
				for _, l := range ls {
					if p.match(s, l.Raw) {
						Failf("%s secret %s was shown to %s: %s", s.kind, s.text, c.c.Peer.Name, l.Raw)
					}
				}
			}
		}
	}
	for i := range p.ups {
		for _, up := range p.ups[i] {
			for k := 0; k < up.NumConns(); k++ {
				ls := up.Conn(k).Lines()
				lines += len(ls)
				for _, l := range ls {
					for _, s := range p.secs {
						if p.match(s, l.Raw) && !s.ups[up.Name] {
							Failf("%s secret %s was sent to %s: %s", s.kind, s.text, up.Name, l.Raw)
						}
					}
				}
			}
		}
	}
	t.Count("lines scanned", lines)
	log := p.w.Log.String()
	t.Count("log bytes scanned", len(log))
	for _, l := range strings.Split(log, "\n") {
		for _, s := range p.secs {
			if p.match(s, l) {
				Failf("%s secret %s was logged: %s", s.kind, s.text, l)
			}
		}
	}
	filepath.Walk(p.w.StoreDir(), func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(path)
		t.Count("log files scanned", 1)
		for _, s := range p.secs {
			if p.match(s, string(b)) || p.match(s, path) {
				Failf("%s secret %s was recorded in %s", s.kind, s.text, path)
			}
		}
		return nil
	})
	db, err := sql.Open("sqlite3", p.w.DBPath)
	Must(err)
	defer db.Close()
	users := map[int64]int{}
	for i, n := range p22Users {
		users[p.w.UserID(n)] = i
	}
	tables := p22Dump(db)
	for table, rows := range tables {
		t.Count("database rows scanned", len(rows))
		for _, row := range rows {
			for _, s := range p.secs {
				if !p.match(s, row.text) {
					continue
				}
				if table == "Network" && s.user >= 0 {
					if i, ok := users[row.user]; ok && i == s.user {
						continue
					}
				}
				Failf("%s secret %s is in the database table %s: %s", s.kind, s.text, table, row.text)
			}
		}
	}
}

type p22Row struct {
	user int64
	text string
}

// p22Dump reads all tables.
func p22Dump(db *sql.DB) map[string][]p22Row {
	out := map[string][]p22Row{}
	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'MessageFTS%'")
	Must(err)
	var names []string
	for rows.Next() {
		var n string
		Must(rows.Scan(&n))
		names = append(names, n)
	}
	rows.Close()
	for _, n := range names {
		rows, err := db.Query(`SELECT * FROM "` + n + `"`)
		if err != nil {
			continue
		}
		cols, _ := rows.Columns()
		for rows.Next() {
			vals := make([]interface{}, len(cols))
			ptrs := make([]interface{}, len(cols))
			for i := range vals {
				ptrs[i] = &vals[i]
			}
			Must(rows.Scan(ptrs...))
			var row p22Row
			for i, v := range vals {
				if b, ok := v.([]byte); ok {
					v = string(b)
				}
				if cols[i] == "user" {
					row.user, _ = v.(int64)
				}
				row.text += fmt.Sprintf("%s=%v ", cols[i], v)
			}
			out[n] = append(out[n], row)
		}
		rows.Close()
	}
	return out
}
