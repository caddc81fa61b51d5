package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P39", Level: "exploration",
		Rule:   "one execution = two users with 1-2 networks each, then random losses (orderly, abrupt, with an ERROR), each followed by 0-6 failed attempts of random kinds (closed at any point of the registration, temporarily refused by every numeric the protocol has for it), permanent refusals, changed settings, disabling and enabling of networks and users, creation, deletion, restarts and bursts of these; after each, every network which is to be connected must have exactly one open connection, registered with the saved nick, user name, real name and password and given each connect command exactly once, in order, and the others none; connections of other networks must not be touched, and attempts must not be closer together than the configured delay; a situation is (step, failure kinds, number of failed attempts, state of the network)",
		Assume: []string{"the verif hook sets the delay between attempts to 20-60 ms instead of 1-10 minutes", "that no attempt is made is judged 120 ms after the last one"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "steps", e.N(90, 3000), p39Steps)
		},
	})
}

// p39Temp are the ways in which an attempt fails for now.
var p39Temp = []string{"accept", "cap", "nick", "end", "late", "error", "half", "437", "436", "465", "463", "FAIL", "FAIL-BUSY"}

// p39Perm are those which need another configuration.
var p39Perm = []string{"464", "432", "ACCOUNT"}

type p39Net struct {
	t       *T
	owner   int
	name    string
	up      *Upstream
	mu      sync.Mutex
	plan    []string
	kind    map[*UpConn]string
	cmds    map[*UpConn][]string
	accepts int
	last    time.Time // of the latest connection

	exists, enabled, perm  bool
	nick, user, real, pass string
	connect                []string
	gen                    int
}

func (n *p39Net) onConn(c *UpConn) {
	n.mu.Lock()
	n.accepts++
	n.last = time.Now()
	k := "ok"
	if len(n.plan) > 0 {
		k, n.plan = n.plan[0], n.plan[1:]
	}
	n.kind[c] = k
	n.mu.Unlock()
	switch k {
	case "accept":
		c.Peer.Close()
	case "late":
		time.AfterFunc(10*time.Millisecond, c.Peer.Close)
	}
}

func (n *p39Net) onLine(c *UpConn, l Line) bool {
	n.mu.Lock()
	k := n.kind[c]
	if strings.HasPrefix(l.P(1), "cc-") {
		n.cmds[c] = append(n.cmds[c], l.Command+" "+l.P(0)+" :"+l.P(1))
	}
	n.mu.Unlock()
	if c.Registered() {
		return false
	}
	end := l.Command == "CAP" && l.P(0) == "END"
	switch k {
	case "ok":
		return false
	case "late":
		return true
	case "cap":
		if l.Command == "CAP" {
			c.Peer.Close()
			return true
		}
	case "nick":
		if l.Command == "NICK" {
			c.Peer.Close()
			return true
		}
	case "error":
		if end {
			c.Send("ERROR :Closing link: try again later")
			c.Peer.Close()
			return true
		}
	case "half":
		if end {
			c.SetRegistered()
			c.Sendf(":%s 001 %s :Welcome", n.up.Host, c.CurNick())
			c.Peer.Close()
			return true
		}
	case "end":
		if end {
			c.Peer.Close()
			return true
		}
	default:
		if end {
			nick := c.CurNick()
			c.Send(map[string]string{
				"437":       ":srv 437 " + nick + " " + nick + " :Nick is temporarily unavailable",
				"436":       ":srv 436 " + nick + " " + nick + " :Nickname collision",
				"465":       ":srv 465 " + nick + " :You are banned from this server",
				"463":       ":srv 463 " + nick + " :Your host isn't among the privileged",
				"464":       ":srv 464 " + nick + " :Password incorrect",
				"432":       ":srv 432 * " + nick + " :Erroneous nickname",
				"FAIL":      ":srv FAIL * INTERNAL_ERROR :Something is wrong",
				"FAIL-BUSY": ":srv FAIL * SERVER_BUSY :Try again",
				"ACCOUNT":   ":srv FAIL * ACCOUNT_REQUIRED :You must log in",
			}[k])
			if strings.HasPrefix(k, "FAIL") || n.closes(k) {
				c.Peer.Close()
			}
			return true
		}
	}
	return false
}

// closes tells whether the server closes the connection after a refusal; it
// may also leave that to the bouncer.
func (n *p39Net) closes(k string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return k < "464" && n.accepts%2 == 0
}

func (n *p39Net) conns() []*UpConn {
	n.mu.Lock()
	defer n.mu.Unlock()
	var l []*UpConn
	for c := range n.kind {
		if !c.Closed() {
			l = append(l, c)
		}
	}
	return l
}

type p39 struct {
	t    *T
	r    *rand.Rand
	w    *World
	nets []*p39Net
	on   [2]bool
	seq  int
	svc  [2]*Client
}

var p39Users = []string{"alice", "bob"}

func (p *p39) newNet(owner int) *p39Net {
	p.seq++
	n := &p39Net{t: p.t, owner: owner, name: fmt.Sprintf("net%d", p.seq), kind: map[*UpConn]string{}, cmds: map[*UpConn][]string{}, exists: true, enabled: true}
	n.up = NewUpstream(p.t, fmt.Sprintf("%s-%s", p39Users[owner], n.name))
	n.up.OnConn = n.onConn
	n.up.OnLine = n.onLine
	n.up.Start()
	p.vary(n)
	return n
}

// vary chooses other settings.
func (p *p39) vary(n *p39Net) {
	p.seq++
	r := p.r
	n.gen++
	n.nick, n.user, n.real, n.pass = fmt.Sprintf("nick%d", p.seq), fmt.Sprintf("user%d", p.seq), fmt.Sprintf("Real %d", p.seq), ""
	if r.Intn(2) == 0 {
		n.pass = fmt.Sprintf("pass%d", p.seq)
	}
	n.connect = nil
	for i, k := 0, r.Intn(4); i < k; i++ {
		n.connect = append(n.connect, fmt.Sprintf("%s x :cc-%d-%d again", Pick(r, []string{"PRIVMSG", "NOTICE", "SQUERY"}), n.gen, i))
	}
}

func (n *p39Net) flags() string {
	s := fmt.Sprintf("-nick %s -username %s -realname %q -pass %q", n.nick, n.user, n.real, n.pass)
	if len(n.connect) == 0 {
		return s + ` -connect-command ""`
	}
	for _, c := range n.connect {
		s += fmt.Sprintf(" -connect-command %q", c)
	}
	return s
}

func (p *p39) run(owner int, cmd string) {
	lines, ok := p.w.Admin("user run " + p39Users[owner] + " " + cmd)
	if !ok {
		Failf("%q refused: %q", cmd, lines)
	}
}

func (n *p39Net) describe() string {
	var l []string
	n.mu.Lock()
	for c, k := range n.kind {
		if !c.Closed() {
			l = append(l, fmt.Sprintf("%s (%s, registered %v)", c.Name, k, c.Registered()))
		}
	}
	s := fmt.Sprintf("%d attempts so far, planned failures %q, open: %q", n.accepts, n.plan, l)
	n.mu.Unlock()
	return s
}

// settle waits until each network is as it should be.
func (p *p39) settle(what string) {
	start := time.Now()
	for _, n := range p.nets {
		want := n.exists && n.enabled && !n.perm && p.on[n.owner]
		for ; ; time.Sleep(time.Millisecond) {
			n.mu.Lock()
			plan := len(n.plan)
			n.mu.Unlock()
			l := n.conns()
			if !want && len(l) == 0 && plan == 0 {
				break
			}
			if want && plan == 0 && len(l) == 1 && l[0].Registered() && l[0].TrySync() && l[0].TrySync() {
				p.verify(what, n, l[0])
				break
			}
			if time.Since(start) > Watchdog/2 {
				for _, c := range l {
					c.Dump()
				}
				Failf("after %s: network %s of %s (to be connected: %v) does not get there: %s", what, n.name, p39Users[n.owner], want, n.describe())
			}
		}
	}
	p.w.CheckNoPanic()
}

func (p *p39) verify(what string, n *p39Net, c *UpConn) {
	if c.CurNick() != n.nick || c.User != n.user || c.Real != n.real || c.Pass != n.pass {
		c.Dump()
		Failf("after %s: registered as %q %q %q with password %q, the settings are %q %q %q %q", what, c.CurNick(), c.User, c.Real, c.Pass, n.nick, n.user, n.real, n.pass)
	}
	n.mu.Lock()
	got := strings.Join(n.cmds[c], "\n")
	n.mu.Unlock()
	if want := strings.Join(n.connect, "\n"); got != want {
		c.Dump()
		Failf("after %s: connect commands sent: %q, saved ones %q", what, got, want)
	}
	p.t.Count("connections compared with the settings", 1)
}

// quiet checks that nothing tries to connect where nothing should.
//
// An attempt under way when it was told to stop may come to nothing only after
// that, hence the second look.
func (p *p39) quiet(what string) {
	if !p.isQuiet("") && !p.isQuiet("") {
		p.isQuiet(what)
	}
	for _, n := range p.nets {
		if l := n.conns(); len(l) > 0 && !(n.exists && n.enabled && !n.perm && p.on[n.owner]) {
			time.Sleep(time.Second)
			if !l[0].Closed() {
				Failf("after %s: there is a connection to %s of %s again", what, n.name, p39Users[n.owner])
			}
		}
	}
	p.t.Count("quiet periods", 1)
}

func (p *p39) isQuiet(what string) bool {
	before := map[*p39Net]int{}
	for _, n := range p.nets {
		n.mu.Lock()
		before[n] = n.accepts
		n.mu.Unlock()
	}
	time.Sleep(120 * time.Millisecond)
	for _, n := range p.nets {
		n.mu.Lock()
		now := n.accepts
		n.mu.Unlock()
		if now != before[n] {
			if what == "" {
				return false
			}
			Failf("after %s: %d further attempts to connect to network %s of %s (exists %v, enabled %v, user enabled %v, refused for good %v)", what, now-before[n], n.name, p39Users[n.owner], n.exists, n.enabled, p.on[n.owner], n.perm)
		}
	}
	return true
}

func (p *p39) drop(n *p39Net, c *UpConn) {
	switch p.r.Intn(4) {
	case 0:
		c.Send("ERROR :Closing link: server going down")
		c.Peer.Close()
	case 1:
		c.Reset()
	case 2:
		c.Sendf(":%s KILL %s :bye", n.up.Host, c.CurNick())
		c.Send("ERROR :Killed")
		c.Peer.Close()
	default:
		c.Peer.Close()
	}
}

func (p *p39) live() []*p39Net {
	var l []*p39Net
	for _, n := range p.nets {
		if n.exists && n.enabled && !n.perm && p.on[n.owner] {
			l = append(l, n)
		}
	}
	return l
}

func (p *p39) failures() []string {
	var l []string
	for i, k := 0, p.r.Intn(7); i < k; i++ {
		l = append(l, Pick(p.r, p39Temp))
	}
	return l
}

// step does one thing; wait tells whether the network is given the time for
// all of it. It returns what was done and the networks concerned.
func (p *p39) step(wait bool) (string, map[*p39Net]bool) {
	r := p.r
	touched := map[*p39Net]bool{}
	up := p.live()
	k := r.Intn(20)
	var cand []*p39Net
	for _, n := range p.nets {
		if n.exists && p.on[n.owner] {
			cand = append(cand, n)
		}
	}
	switch {
	case k < 8 && len(up) > 0: // a loss
		n := Pick(r, up)
		touched[n] = true
		plan := p.failures()
		perm := wait && r.Intn(5) == 0
		if perm {
			plan = append(plan, Pick(r, p39Perm))
		}
		n.mu.Lock()
		var l []*UpConn
		for c := range n.kind {
			if !c.Closed() {
				l = append(l, c)
			}
		}
		if len(l) != 1 { // in the middle of something
			n.mu.Unlock()
			return "", touched
		}
		n.plan = append([]string(nil), plan...)
		base := n.accepts
		n.mu.Unlock()
		n.perm = perm
		at := time.Now()
		p.drop(n, l[0])
		if wait {
			what := fmt.Sprintf("a loss and failures %q", plan)
			p.settle(what)
			n.mu.Lock()
			tries, took := n.accepts-base, n.last.Sub(at)
			n.mu.Unlock()
			want := len(plan) + 1
			if perm {
				want--
			}
			if tries != want {
				Failf("after %s: %d attempts, want %d", what, tries, want)
			}
			least := time.Duration(0)
			for i, f := range plan {
				if f != "half" && i+1 < tries { // a complete registration is no failed attempt
					least += 20 * time.Millisecond
				}
			}
			if HaveHooks && took < least {
				Failf("after %s: %d attempts within %v, the delay between them is to be at least 20 ms", what, tries, took)
			}
			p.t.Count("failed attempts", len(plan))
			for _, f := range plan {
				p.t.State("loss, %s, %d failures", f, len(plan))
			}
		}
		return fmt.Sprintf("loss of %s, failures %q", n.name, plan), touched
	case k < 12 && len(cand) > 0: // other settings
		n := Pick(r, cand)
		touched[n] = true
		p.vary(n)
		if n.enabled {
			n.perm = false
		}
		p.t.State("update, enabled %v", n.enabled)
		p.run(n.owner, "network update "+n.name+" "+n.flags())
		return "update of " + n.name, touched
	case k < 15 && len(cand) > 0:
		n := Pick(r, cand)
		touched[n] = true
		n.enabled = !n.enabled
		if n.enabled {
			n.perm = false
		}
		n.mu.Lock()
		n.plan = nil
		n.mu.Unlock()
		p.t.State("network enabled %v", n.enabled)
		p.run(n.owner, fmt.Sprintf("network update %s -enabled %v", n.name, n.enabled))
		return fmt.Sprintf("enabled=%v for %s", n.enabled, n.name), touched
	case k < 17:
		o := r.Intn(2)
		p.on[o] = !p.on[o]
		for _, n := range p.nets {
			if n.owner == o {
				touched[n] = true
				n.mu.Lock()
				n.plan = nil
				n.mu.Unlock()
				n.perm = false
			}
		}
		p.t.State("user enabled %v", p.on[o])
		if lines, ok := p.w.Admin(fmt.Sprintf("user update %s -enabled %v", p39Users[o], p.on[o])); !ok {
			Failf("user update refused: %q", lines)
		}
		return fmt.Sprintf("enabled=%v for user %s", p.on[o], p39Users[o]), touched
	case k < 18 && len(p.nets) < 8: // another network
		o := r.Intn(2)
		if !p.on[o] {
			break
		}
		n := p.newNet(o)
		plan := p.failures()
		n.plan = plan
		p.nets = append(p.nets, n)
		touched[n] = true
		p.t.State("creation, %d failures", len(plan))
		p.run(o, fmt.Sprintf("network create -addr %s -name %s %s", n.up.Addr, n.name, n.flags()))
		return "creation of " + n.name, touched
	case k < 19 && len(cand) > 3:
		n := Pick(r, cand)
		touched[n] = true
		n.exists = false
		n.mu.Lock()
		n.plan = nil
		n.mu.Unlock()
		p.t.State("deletion")
		p.run(n.owner, "network delete "+n.name)
		return "deletion of " + n.name, touched
	case k == 19 && wait:
		for _, n := range p.nets {
			touched[n] = true
			n.perm = false
		}
		p.t.State("restart")
		p.w.Restart()
		return "a restart", touched
	}
	return "", touched
}

func p39Steps(t *T) {
	p := &p39{t: t, r: t.Rng, on: [2]bool{true, true}}
	p.w = NewWorld(t, Pick(p.r, []string{"memory", "db"}))
	for i, name := range p39Users {
		u := p.w.AddUser(name, false)
		for k := 0; k < 1+p.r.Intn(2); k++ {
			n := p.newNet(i)
			n.plan = p.failures()
			p.w.AddNetwork(u, n.name, n.up, func(rec *database.Network) {
				rec.Nick, rec.Username, rec.Realname, rec.Pass, rec.ConnectCommands = n.nick, n.user, n.real, n.pass, n.connect
			})
			p.nets = append(p.nets, n)
		}
	}
	p.w.Start()
	p.settle("the start")
	var script []string
	defer func() {
		if v := recover(); v != nil {
			t.Logf("history: %s", strings.Join(script, "; "))
			panic(v)
		}
	}()
	for i := 0; i < 14; i++ {
		burst := 1
		if p.r.Intn(4) == 0 {
			burst = 2 + p.r.Intn(5)
		}
		same := map[*p39Net]*UpConn{}
		for _, n := range p.live() {
			if l := n.conns(); len(l) == 1 {
				same[n] = l[0]
			}
		}
		what := ""
		for k := 0; k < burst; k++ {
			s, touched := p.step(burst == 1)
			if s == "" {
				continue
			}
			script = append(script, s)
			what = s
			for n := range touched {
				delete(same, n)
			}
		}
		if what == "" {
			continue
		}
		p.settle(what)
		for n, c := range same {
			if c.Closed() {
				c.Dump()
				Failf("after %s: the connection to another network, %s of %s, was lost", what, n.name, p39Users[n.owner])
			}
		}
		if p.r.Intn(3) == 0 {
			p.quiet(what)
		}
		t.Count("steps", burst)
	}
	t.Sample("%s", strings.Join(script, "; "))
	p.w.CheckNoPanic()
}
