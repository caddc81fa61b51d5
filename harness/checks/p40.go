package checks

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P40", Level: "exploration",
		Rule:   "one execution = a user with two simulated networks, which give, change and take away the user's host, user name, real name and account in every way the protocol has for it (CHGHOST, 396 with and without user name, 900, 901, SETNAME; several at once; for other users, too; from any spelling of the own nick), and are reconnected to, while clients of both networks and unbound ones with random capabilities connect, change the real name and leave; what each client is told is compared line by line with what changed for its own network, and what it was told so far, replayed from its own transcript, with the truth; a situation is (kind of change, capabilities, whether the network is connected)",
		Assume: []string{"a client without chghost is told its host, not its user name", "a client without the setname or sasl capability is not told"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "identity", e.N(1500, 40000), p40Identity)
		},
	})
}

type p40Net struct {
	name      string
	up        *Upstream
	uc        *UpConn
	rec       *database.Network
	setname   bool // capability
	echo      bool
	up_       bool
	host      string // as the network told it on this connection
	user      string
	account   string
	real      string // of this connection
	savedReal string // "" for the user's
	confUser  string
	refuse    bool // the next SETNAME
	mu        sync.Mutex
	pre       p40Pre // sent before the welcome of the next connection
	pos       int
}

// p40Pre is what a network tells during a registration.
type p40Pre struct {
	lines               []string
	user, host, account string
}

func (p *p40) newPre(n *p40Net) {
	r := p.r
	v := p40Pre{user: n.confUser}
	if r.Intn(2) == 0 {
		for i, k := 0, 1+r.Intn(3); i < k; i++ {
			if v.host == "" || r.Intn(2) == 0 {
				v.host = p.newHost()
			}
			if r.Intn(3) == 0 {
				v.user = p.fresh("~p")
			}
			switch r.Intn(5) {
			case 0:
				v.lines = append(v.lines, fmt.Sprintf(":srv 396 user %s@%s :is now your visible host", v.user, v.host))
			case 1:
				v.account = ""
				v.lines = append(v.lines, fmt.Sprintf(":srv 901 user user!%s@%s :You are now logged out", v.user, v.host))
			default:
				v.account = p.fresh("acc")
				v.lines = append(v.lines, fmt.Sprintf(":srv 900 user user!%s@%s %s :You are now logged in", v.user, v.host, v.account))
			}
		}
		p.t.State("during registration|%d|%v", len(v.lines), v.account != "")
	}
	n.mu.Lock()
	n.pre = v
	n.mu.Unlock()
}

type p40Client struct {
	c                         *Client
	n                         *p40Net // nil when unbound
	caps                      map[string]bool
	user, host, real, account string // as the client knows it
	pos                       int
	want                      []string
	told                      map[string]string
}

type p40 struct {
	t        *T
	r        *rand.Rand
	w        *World
	nets     []*p40Net
	cls      []*p40Client
	userReal string
	seq      int
}

func (p *p40) fresh(s string) string {
	p.seq++
	return fmt.Sprintf("%s%d", s, p.seq)
}

func (p *p40) newHost() string {
	return p.fresh(Pick(p.r, []string{"cloak/user-", "host.example.", "2001:db8::", "gateway/web/x-"}))
}

func (p *p40) newReal() string {
	if p.r.Intn(6) == 0 {
		return p.userReal
	}
	return p.fresh(Pick(p.r, []string{"Real Name ", "x", "Ünï côde: ", ":", "  two  spaces "}))
}

// The following tell a client what changed; they are what the client must
// receive.
func (c *p40Client) updHost(n *p40Net) {
	if c.n != n || n == nil || !n.up_ || n.host == "" || n.host == c.host && n.user == c.user {
		return
	}
	if c.caps["chghost"] {
		c.want = append(c.want, "CHGHOST "+n.user+" "+n.host)
	} else if n.host != c.host {
		c.want = append(c.want, "396 "+n.host)
	}
	c.host, c.user = n.host, n.user
}

func (p *p40) updReal(c *p40Client) {
	if !c.caps["setname"] {
		return
	}
	real := p.userReal
	if c.n != nil {
		if real = c.n.real; !c.n.up_ {
			if real = c.n.savedReal; real == "" {
				real = p.userReal
			}
		}
	}
	if real != c.real {
		c.want = append(c.want, "SETNAME "+real)
		c.real = real
	}
}

func (c *p40Client) updAccount() {
	account := "user"
	if c.n != nil {
		if !c.n.up_ {
			return
		}
		account = c.n.account
	}
	if account == c.account || !c.caps["sasl"] {
		return
	}
	if account != "" {
		c.want = append(c.want, "900 "+account)
	} else {
		c.want = append(c.want, "901")
	}
	c.account = account
}

// read replays what the client received since the last time.
func (p *p40) read(c *p40Client, end int) (got []string, other []Line) {
	ls := c.c.Since(c.pos)
	if end >= 0 {
		ls = ls[:end+1-c.pos]
	}
	c.pos += len(ls)
	for _, l := range ls {
		own := l.Prefix != nil && l.Prefix.Name == "user"
		switch l.Command {
		case "CAP":
			switch l.P(1) {
			case "ACK":
				for _, n := range strings.Fields(l.P(2)) {
					c.caps[n] = true
				}
			case "DEL":
				for _, n := range strings.Fields(l.P(2)) {
					delete(c.caps, n)
				}
			}
			continue
		case "CHGHOST":
			if own {
				got = append(got, "CHGHOST "+l.P(0)+" "+l.P(1))
				c.told["host"], c.told["user"] = l.P(1), l.P(0)
				continue
			}
		case "396":
			got = append(got, "396 "+l.P(1))
			c.told["host"] = l.P(1)
			continue
		case "900":
			got = append(got, "900 "+l.P(2))
			c.told["account"] = l.P(2)
			if l.P(0) != "user" || !strings.HasPrefix(l.P(1), "user!") {
				Failf("%s received %q: its nick is user", c.c.Name, l.Raw)
			}
			continue
		case "901":
			got = append(got, "901")
			c.told["account"] = ""
			continue
		case "SETNAME":
			if own {
				got = append(got, "SETNAME "+l.P(0))
				c.told["real"] = l.P(0)
				continue
			}
		}
		other = append(other, l)
	}
	return
}

func p40Show(l []string) string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return strings.Join(l, " | ")
}

// compare checks one client after a step.
func (p *p40) compare(c *p40Client, step string, got []string) {
	if a, b := p40Show(got), p40Show(c.want); a != b {
		p.dump(c)
		Failf("%s (capabilities %v), after %s: it was told\n  %s\nwhat changed for it is\n  %s", c.c.Name, sortedKeys(c.caps), step, a, b)
	}
	p.t.Count("changes told", len(c.want))
	p.t.Count("client states compared", 1)
	c.want = nil
	// what it knows must be the truth
	n := c.n
	if n != nil && !n.up_ {
		return
	}
	check := func(what, truth string) {
		if v, ok := c.told[what]; ok && v != truth {
			p.dump(c)
			Failf("%s, after %s: the last it was told of its %s is %q, which is %q", c.c.Name, step, what, v, truth)
		}
	}
	if n != nil && n.host != "" {
		check("host", n.host)
		if c.caps["chghost"] {
			check("user", n.user)
		}
	}
	if c.caps["setname"] {
		if n != nil {
			check("real", n.real)
		} else {
			check("real", p.userReal)
		}
	}
}

func (p *p40) dump(c *p40Client) {
	c.c.Dump()
	for _, n := range p.nets {
		n.uc.Dump()
	}
}

func (p *p40) fence() {
	for k := 0; k < 2; k++ {
		for _, n := range p.nets {
			if n.up_ {
				n.uc.Sync()
			}
		}
	}
}

// checkAll compares every client; for a change of capabilities want is
// computed by upd after these were replayed.
func (p *p40) checkAll(step string, upd func(c *p40Client)) {
	p.fence()
	for _, c := range p.cls {
		got, _ := p.read(c, c.c.Sync())
		if upd != nil {
			upd(c)
		}
		p.compare(c, step, got)
	}
	if n := Pick(p.r, p.nets); p.r.Intn(3) == 0 && n.up_ {
		lines, ok := p.w.Admin("user run user sasl status -network " + n.name)
		out := strings.Join(lines, "\n")
		if !ok || n.account != "" && !strings.Contains(out, `"`+n.account+`"`) || n.account == "" && strings.Contains(out, "acc") {
			Failf("after %s: sasl status of %s is %q, the account is %q", step, n.name, out, n.account)
		}
		p.t.Count("sasl status compared", 1)
	}
	p.w.CheckNoPanic()
}

// reconnected waits for another connection of n.
func (p *p40) reconnected(n *p40Net, old *UpConn, step string) {
	for start := time.Now(); ; time.Sleep(time.Millisecond) {
		if c := n.up.Newest(); c != nil && c != old && !c.Closed() && c.Registered() && c.TrySync() && c.TrySync() {
			n.uc = c
			break
		}
		if time.Since(start) > Watchdog {
			panic(Stuck{"no new connection to " + n.name + " after " + step})
		}
	}
	n.up_ = true
	n.host, n.account, n.user, n.pos = n.pre.host, n.pre.account, n.pre.user, 0
	p.newPre(n)
	n.real = n.savedReal
	if n.real == "" {
		n.real = p.userReal
	}
	if n.uc.Real != n.real || n.uc.User != n.confUser {
		n.uc.Dump()
		Failf("after %s: registered at %s as %q %q, want %q %q", step, n.name, n.uc.User, n.uc.Real, n.confUser, n.real)
	}
	for _, l := range n.uc.Since(0) {
		if l.Command == "USER" {
			p.t.Count("registrations compared", 1)
		}
	}
	p.all(func(c *p40Client) { p.updConnected(c, n) })
}

func (p *p40) all(f func(c *p40Client)) {
	for _, c := range p.cls {
		f(c)
	}
}

func (p *p40) updConnected(c *p40Client, n *p40Net) {
	if c.n != n {
		return
	}
	delete(c.caps, "sasl") // withdrawn with the connection, offered again now
	delete(c.told, "account")
	c.updHost(n)
	p.updReal(c)
	c.updAccount()
}

// asked returns the names sent to the network since the last time.
func (n *p40Net) askedReal() []string {
	var l []string
	for _, m := range n.uc.Since(n.pos) {
		n.pos++
		if m.Command == "SETNAME" {
			l = append(l, m.P(0))
		}
	}
	return l
}

func (n *p40Net) state() string {
	if n.up_ {
		return "connected"
	}
	return "disconnected"
}

func p40Identity(t *T) {
	r := t.Rng
	p := &p40{t: t, r: r, userReal: "The User"}
	p.w = NewWorld(t, "db")
	u := p.w.AddUser("user", false, func(u *database.User) { u.Realname = p.userReal; u.Nick = "user" })
	for i := 0; i < 2; i++ {
		n := &p40Net{name: fmt.Sprintf("net%d", i), setname: r.Intn(3) > 0, echo: r.Intn(4) == 0, up_: true, confUser: fmt.Sprintf("conf%d", i)}
		n.up = NewUpstream(t, n.name)
		n.up.Caps = append(n.up.Caps, "sasl=PLAIN", "chghost", "account-tag", "message-tags", "extended-join")
		if n.setname {
			n.up.Caps = append(n.up.Caps, "setname")
		}
		if n.echo {
			n.up.Caps = append(n.up.Caps, "echo-message")
		}
		if r.Intn(2) == 0 {
			n.up.Caps = append(n.up.Caps, "labeled-response", "batch")
		}
		if r.Intn(2) == 0 {
			n.savedReal = p.newReal()
			if n.savedReal == p.userReal {
				n.savedReal = ""
			}
		}
		n.up.OnLine = func(c *UpConn, l Line) bool {
			if l.Command != "SETNAME" {
				return false
			}
			lab := ""
			if v := l.Tags["label"]; v != "" {
				lab = "@label=" + string(v) + " "
			}
			if n.refuse {
				c.Sendf("%s:srv FAIL SETNAME CANNOT_CHANGE_REALNAME :Realname is not valid", lab)
			} else {
				c.Sendf("%s:user!%s@some.host SETNAME :%s", lab, n.user, l.P(0))
			}
			return true
		}
		n.up.Welcome = func(c *UpConn) {
			n.mu.Lock()
			l := n.pre.lines
			n.mu.Unlock()
			c.Send(l...)
			c.SendWelcome()
		}
		p.newPre(n)
		n.up.Start()
		n.rec = p.w.AddNetwork(u, n.name, n.up, func(rec *database.Network) {
			rec.Nick, rec.Username, rec.Realname = "user", n.confUser, n.savedReal
		})
		p.w.AddChannel(n.rec, "#chan")
		p.nets = append(p.nets, n)
	}
	p.w.Start()
	for _, n := range p.nets {
		p.reconnected(n, nil, "the start")
	}
	p.fence()
	connect := func() {
		c := &p40Client{caps: map[string]bool{}, told: map[string]string{}, user: "user", host: "127.0.0.1", real: "Real user"}
		o := ClientOpts{User: "user", Caps: append([]string{"cap-notify"}, Subset(r, []string{"setname", "sasl", "message-tags", "batch"}, 0.6)...)}
		if k := r.Intn(5); k < 2 {
			c.n = p.nets[k]
		} else if k < 4 {
			c.n = p.nets[0]
		}
		if c.n != nil {
			o.Network = c.n.name
		}
		c.c = p.w.Connect(o)
		for _, n := range []string{"setname", "sasl"} {
			if c.c.Caps[n] {
				c.caps[n] = true
			}
		}
		if c.n != nil && !c.n.up_ {
			delete(c.caps, "sasl")
		}
		pre := map[string]bool{}
		for k := range c.caps {
			pre[k] = true
		}
		got, other := p.read(c, c.c.Sync())
		c.caps = pre
		c.updHost(c.n)
		p.updReal(c)
		c.updAccount()
		joined := ""
		for _, l := range other {
			if l.Command == "JOIN" {
				joined = l.Raw
				if c.n == nil || l.Prefix == nil || l.Prefix.Name != "user" || c.n.host != "" && (l.Prefix.Host != c.n.host || l.Prefix.User != c.n.user) {
					p.dump(c)
					Failf("%s received %q: user %q, host %q", c.c.Name, l.Raw, c.user, c.host)
				}
			}
		}
		if c.n != nil && c.n.up_ && joined == "" {
			p.dump(c)
			Failf("%s: not told about its channel", c.c.Name)
		}
		p.compare(c, "connecting", got)
		// these are offered with the welcome only
		if r.Intn(3) > 0 {
			c.c.Send("CAP REQ :chghost")
		}
		if r.Intn(2) == 0 {
			c.c.Send("CAP REQ :message-tags", "CAP REQ :account-tag")
		}
		if got, _ := p.read(c, c.c.Sync()); len(got) > 0 {
			Failf("%s: told %q without a change", c.c.Name, got)
		}
		p.cls = append(p.cls, c)
		s := "unbound"
		if c.n != nil {
			s = c.n.state()
		}
		t.State("connect|%s|%v", s, sortedKeys(c.caps))
	}
	for i, k := 0, 1+r.Intn(4); i < k; i++ {
		connect()
	}
	nickForms := []string{"user", "user", "User", "USER"}
	for i, k := 0, 10+r.Intn(25); i < k; i++ {
		n := Pick(r, p.nets)
		step := ""
		var upd func(c *p40Client)
		switch k := r.Intn(32); {
		case k < 12 && n.up_: // changes by the network
			for j, m := 0, 1+r.Intn(5)/2; j < m; j++ {
				host, user := n.host, n.user
				if r.Intn(4) > 0 || host == "" {
					host = p.newHost()
				}
				if r.Intn(3) == 0 {
					user = p.fresh("~u")
				}
				src := Pick(r, nickForms) + "!" + n.user + "@" + n.host
				switch r.Intn(7) {
				case 0, 1:
					step = "CHGHOST"
					n.uc.Sendf(":%s CHGHOST %s %s", src, user, host)
				case 2:
					step = "396 with user name"
					n.uc.Sendf(":srv 396 user %s@%s :is now your visible host", user, host)
				case 3:
					step = "396"
					user = n.user
					n.uc.Sendf(":srv 396 user %s :is now your visible host", host)
				case 4:
					step = "900"
					n.account = p.fresh("acc")
					n.uc.Sendf(":srv 900 user user!%s@%s %s :You are now logged in", user, host, n.account)
				case 5:
					step = "901"
					n.account = ""
					n.uc.Sendf(":srv 901 user user!%s@%s :You are now logged out", user, host)
				default:
					step = "SETNAME"
					host, user = n.host, n.user
					n.real = p.newReal()
					n.uc.Sendf(":%s SETNAME :%s", src, n.real)
				}
				n.host, n.user = host, user
				switch step {
				case "SETNAME":
					p.all(func(c *p40Client) {
						if c.n == n {
							p.updReal(c)
						}
					})
				default:
					p.all(func(c *p40Client) {
						if c.n == n {
							if step == "900" || step == "901" {
								c.updAccount()
							}
							c.updHost(n)
						}
					})
				}
				t.State("%s|%v|%v", step, host != "", m)
			}
			step = "a change by the network (" + step + ")"
		case k < 14 && n.up_: // of other users
			step = "changes of other users"
			who := Pick(r, []string{"other", "user_", "use", "userx"})
			n.uc.Sendf(":%s!u@h CHGHOST nu nh.example", who)
			n.uc.Sendf(":%s!u@h SETNAME :Somebody else", who)
			t.State("others")
		case k < 18 && len(p.cls) > 0: // by a client
			var cand []*p40Client
			for _, c := range p.cls {
				if c.caps["setname"] {
					cand = append(cand, c)
				}
			}
			if len(cand) == 0 {
				continue
			}
			c := Pick(r, cand)
			real := p.newReal()
			if r.Intn(6) == 0 {
				real = c.real
			}
			step = fmt.Sprintf("SETNAME %q by %s", real, c.c.Name)
			p.setname(c, real, step)
			continue
		case k < 21 && len(p.cls) < 7:
			connect()
			continue
		case k < 22 && len(p.cls) > 0:
			j := r.Intn(len(p.cls))
			p.cls[j].c.Disconnect()
			p.cls = append(p.cls[:j], p.cls[j+1:]...)
			continue
		case k < 25: // reconnection
			step = "a reconnection"
			if n.up_ {
				old := n.uc
				old.Peer.Close()
				p.reconnected(n, old, step)
			}
			t.State("reconnection")
		case k < 27: // a network goes away for a while
			if n.up_ {
				n.up.Mute.Store(true)
				n.uc.Peer.Close()
				for start := time.Now(); ; time.Sleep(time.Millisecond) {
					lines, _ := p.w.Admin("user run user network status")
					if strings.Contains(strings.Join(lines, "\n"), n.name+" ("+n.up.Addr+") [disconnected]") {
						break
					}
					if time.Since(start) > Watchdog {
						panic(Stuck{Msg: fmt.Sprintf("the loss of the connection is not noticed: %q", lines)})
					}
				}
				n.up_ = false
				step = "a loss"
				p.all(func(c *p40Client) {
					if c.n == n {
						delete(c.told, "account")
					}
				})
			} else {
				old := n.uc
				n.up.Mute.Store(false)
				n.up.CloseAll() // attempts which were not answered
				step = "the end of a loss"
				p.reconnected(n, old, step)
			}
			t.State(step)
		case k < 28: // sasl is offered again after a reconnection
			if len(p.cls) > 0 {
				c := Pick(r, p.cls)
				c.c.Send("CAP REQ :sasl")
				step = "CAP REQ sasl"
			}
		case k < 31 && len(p.cls) > 1 && n.up_ && !n.echo: // a message of one client is seen by the others
			var bound []*p40Client
			for _, c := range p.cls {
				if c.n == n {
					bound = append(bound, c)
				}
			}
			if len(bound) < 2 {
				continue
			}
			p.message(n, bound)
			continue
		default:
			continue
		}
		if step == "" {
			continue
		}
		p.checkAll(step, upd)
	}
	p.w.CheckNoPanic()
}

func (p *p40) message(n *p40Net, bound []*p40Client) {
	p.seq++
	text := fmt.Sprintf("msg-%d", p.seq)
	from := p.r.Intn(len(bound))
	bound[from].c.Send("PRIVMSG #chan :" + text)
	bound[from].c.Sync()
	p.fence()
	for i, c := range bound {
		if i == from {
			continue
		}
		got, other := p.read(c, c.c.Sync())
		p.compare(c, "a message", got)
		seen := 0
		for _, l := range other {
			if l.Command != "PRIVMSG" || l.P(1) != text {
				continue
			}
			seen++
			if l.Prefix == nil || l.Prefix.Name != "user" || n.host != "" && (l.Prefix.User != n.user || l.Prefix.Host != n.host) {
				p.dump(c)
				Failf("%s received %q: the sender is user!%s@%s", c.c.Name, l.Raw, n.user, n.host)
			}
			if c.caps["account-tag"] {
				if v := string(l.Tags["account"]); v != n.account {
					p.dump(c)
					Failf("%s received %q: the sender's account is %q", c.c.Name, l.Raw, n.account)
				}
				p.t.Count("account tags compared", 1)
			}
		}
		if seen != 1 {
			p.dump(c)
			Failf("%s received %d copies of %q", c.c.Name, seen, text)
		}
		p.t.Count("message sources compared", 1)
	}
}

// setname has a client change its real name.
func (p *p40) setname(c *p40Client, real, step string) {
	r := p.r
	for _, n := range p.nets {
		n.refuse = r.Intn(5) == 0
		n.askedReal()
	}
	same := real == c.real
	asked := map[*p40Net]string{}
	again := map[*p40Net]bool{}
	apply := func(n *p40Net) {
		if !n.up_ {
			return
		}
		name := n.savedReal
		if name == "" {
			name = p.userReal
		}
		if n.setname {
			asked[n] = name
			if !n.refuse {
				n.real = name
			}
		} else {
			again[n] = true
		}
	}
	if same {
		c.want = append(c.want, "SETNAME "+real)
	} else if n := c.n; n != nil {
		n.savedReal = real
		if real == p.userReal {
			n.savedReal = ""
		}
		apply(n)
	} else if real != p.userReal {
		p.userReal = real
		for _, n := range p.nets {
			if n.savedReal == "" {
				apply(n)
			}
		}
	}
	old := map[*p40Net]*UpConn{}
	for _, n := range p.nets {
		old[n] = n.uc
	}
	c.c.Send("SETNAME :" + real)
	c.c.Sync()
	for _, n := range p.nets {
		if again[n] {
			p.reconnected(n, old[n], step)
		}
	}
	p.fence()
	for _, n := range p.nets {
		if n.up_ && !again[n] {
			l := n.askedReal()
			want := []string(nil)
			if a, ok := asked[n]; ok {
				want = []string{a}
			}
			if fmt.Sprint(l) != fmt.Sprint(want) {
				n.uc.Dump()
				Failf("after %s: %s was asked for the real names %q, want %q", step, n.name, l, want)
			}
		}
		p.t.State("setname|%v|%v|%v|%v|%v|%s", c.n == n, same, n.setname, n.refuse, n.savedReal == "", n.state())
	}
	p.all(func(c *p40Client) {
		if c.n == nil || c.n.up_ {
			p.updReal(c)
		}
	})
	p.checkAll(step, nil)
	// saved
	for _, n := range p.nets {
		nets, err := p.w.DB.ListNetworks(context.Background(), p.w.UserID("user"))
		Must(err)
		for _, rec := range nets {
			if rec.ID == n.rec.ID && rec.Realname != n.savedReal {
				Failf("after %s: the saved real name of %s is %q, want %q", step, n.name, rec.Realname, n.savedReal)
			}
		}
	}
}
