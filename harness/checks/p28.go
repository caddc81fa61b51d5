package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P28", Level: "stress_oracle",
		Rule:   "steps: a simulated network with other users (nicks taken and freed at any time), with or without MONITOR, and several clients of two networks: nick changes by clients (free, taken, refused, case only), by the service (network and account), forced by the network, reconnections with the nick free, taken or held by a ghost, arrivals and departures, messages. The monitor replays every client's transcript (each change must start from the nick the client was told, every numeric must be addressed to it) and compares it at every quiescent point with the network; the wanted nick must be regained once it is free. race: the same with changes and arrivals at the same time. timer: regaining without MONITOR. A situation is (case, kind of step, registered nick free or fallback, monitor)",
		Assume: []string{"wanted nicks are shorter than 25 bytes"},
		Cases: func(e *Env) []Case {
			c := Repeat(e, "timer", e.N(1, 4), p28Timer)
			c = append(c, Repeat(e, "steps", e.N(110, 4000), p28Steps)...)
			return append(c, Repeat(e, "race", e.N(40, 1500), p28Race)...)
		},
	})
}

// nickNet is a network with other users, nick collisions and MONITOR.
type nickNet struct {
	t       *T
	up      *Upstream
	mu      sync.Mutex
	cm      string
	online  map[string]string             // folded nick -> spelling
	mon     map[*UpConn]map[string]string // monitor lists of the server
	monitor bool
	limit   int
	snatch  map[string]bool // nicks someone else grabs just before us, once
	perLine bool            // one presence notification per line
	cmds    int
	delay   time.Duration // before a MONITOR command is processed
}

func newNickNet(t *T, name string, monitor bool, limit int) *nickNet {
	n := &nickNet{t: t, cm: "rfc1459", online: map[string]string{}, mon: map[*UpConn]map[string]string{}, monitor: monitor, limit: limit, snatch: map[string]bool{}}
	n.up = NewUpstream(t, name)
	n.up.OnLine = n.onLine
	if monitor {
		n.up.ISupport = []string{fmt.Sprintf("MONITOR=%d", limit), "NETWORK=" + name}
	}
	n.up.Start()
	return n
}

func (n *nickNet) fold(s string) string { return foldName(n.cm, s) }

func (n *nickNet) onLine(c *UpConn, l Line) bool {
	n.mu.Lock()
	if d := n.delay; d > 0 && l.Command == "MONITOR" {
		n.mu.Unlock()
		time.Sleep(d)
		n.mu.Lock()
	}
	defer n.mu.Unlock()
	srv := ":" + n.up.Host
	switch l.Command {
	case "NICK":
		want := l.P(0)
		f := n.fold(want)
		cur := c.CurNick()
		if !c.Registered() {
			if _, taken := n.online[f]; taken {
				c.Sendf("%s 433 * %s :Nickname is already in use", srv, want)
				return true
			}
			return false
		}
		if n.snatch[f] {
			delete(n.snatch, f)
			n.setOnline(c, want)
		}
		if _, taken := n.online[f]; taken && f != n.fold(cur) {
			c.Sendf("%s 433 %s %s :Nickname is already in use", srv, cur, want)
			return true
		}
		if want != "" && want[0] >= '0' && want[0] <= '9' {
			c.Sendf("%s 432 %s %s :Erroneous nickname", srv, cur, want)
			return true
		}
		n.rename(c, want)
		return true
	case "MONITOR":
		n.cmds++
		m := n.mon[c]
		if m == nil {
			m = map[string]string{}
			n.mon[c] = m
		}
		cur := c.CurNick()
		switch strings.ToUpper(l.P(0)) {
		case "+":
			var on, off, full []string
			for _, x := range strings.Split(l.P(1), ",") {
				f := n.fold(x)
				if _, ok := m[f]; !ok && len(m) >= n.limit {
					full = append(full, x)
					continue
				}
				m[f] = x
				if sp, ok := n.online[f]; ok {
					on = append(on, sp+"!u@h.example")
				} else {
					off = append(off, x)
				}
			}
			n.presence(c, "730", on)
			n.presence(c, "731", off)
			if len(full) > 0 {
				c.Sendf("%s 734 %s %d %s :Monitor list is full.", srv, cur, n.limit, strings.Join(full, ","))
			}
		case "-":
			for _, x := range strings.Split(l.P(1), ",") {
				delete(m, n.fold(x))
			}
		case "C":
			n.mon[c] = map[string]string{}
		}
		return true
	}
	return false
}

func (n *nickNet) presence(c *UpConn, cmd string, l []string) {
	for len(l) > 0 {
		k := len(l)
		if n.perLine {
			k = 1
		}
		c.Sendf(":%s %s %s :%s", n.up.Host, cmd, c.CurNick(), strings.Join(l[:k], ","))
		l = l[k:]
	}
}

// rename changes the user's nick; called with the lock held.
func (n *nickNet) rename(c *UpConn, nick string) {
	old := c.Prefix()
	c.SetNick(nick)
	c.Sendf(":%s NICK %s", old, nick)
}

func (n *nickNet) setOnline(c *UpConn, nick string) {
	f := n.fold(nick)
	if _, ok := n.online[f]; ok {
		return
	}
	n.online[f] = nick
	if c != nil {
		if _, ok := n.mon[c][f]; ok {
			n.presence(c, "730", []string{nick + "!u@h.example"})
		}
	}
}

func (n *nickNet) setOffline(c *UpConn, nick string) {
	f := n.fold(nick)
	sp, ok := n.online[f]
	if !ok {
		return
	}
	delete(n.online, f)
	if c != nil {
		if _, ok := n.mon[c][f]; ok {
			n.presence(c, "731", []string{sp})
		}
	}
}

// nickView follows what one client is told about its nick.
type nickView struct {
	cl   *Client
	pos  int
	cur  string
	seen int
}

func (v *nickView) feed() {
	ls := v.cl.Since(v.pos)
	v.pos += len(ls)
	for _, l := range ls {
		switch {
		case l.Command == "001":
			v.cur = l.P(0)
		case v.cur == "":
		case l.Command == "NICK" && l.Prefix != nil:
			if l.Prefix.Name == v.cur {
				v.cur = l.P(0)
				v.seen++
			} else if foldName("rfc1459", l.Prefix.Name) == foldName("rfc1459", v.cur) {
				v.cl.Dump()
				Failf("%s is %q and is told of a nick change of %q", v.cl.Peer.Name, v.cur, l.Prefix.Name)
			}
		case len(l.Command) == 3 && l.Command[0] >= '0' && l.Command[0] <= '9':
			if p := l.P(0); p != v.cur && p != "*" {
				v.cl.Dump()
				Failf("%s was told its nick is %q but %q is addressed to %q", v.cl.Peer.Name, v.cur, l.Raw, p)
			}
		}
	}
}

type p28 struct {
	t      *T
	r      *rand.Rand
	w      *World
	nets   []*nickNet
	names  []string
	ids    []int64
	want   []string // network nick, "" = account's
	acct   string
	wantAt []string // wanted nick when the connection was made
	moved  [2]bool  // whether another nick was wanted since
	views  []*nickView
	of     []int // network of each view, -1 unbound
	seq    int
}

var p28Nicks = []string{"alice", "Alice", "bob", "[a]", "{a}", "zed~", "a-very-long-nick-name", "x", "ALICE", "b\\c", "Ünick"}

func newP28(t *T) *p28 {
	r := t.Rng
	p := &p28{t: t, r: r}
	p.w = NewWorld(t, "memory")
	u := p.w.AddUser("alice", false)
	p.acct = "alice"
	for i := 0; i < 2; i++ {
		monitor := r.Intn(5) > 0
		n := newNickNet(t, fmt.Sprintf("net%d", i), monitor, 1+r.Intn(20))
		n.perLine = r.Intn(2) == 0
		want := Pick(r, []string{"", "", "bob", "[a]"})
		if r.Intn(2) == 0 {
			w := want
			if w == "" {
				w = p.acct
			}
			n.online[n.fold(w)] = w
			if r.Intn(2) == 0 {
				n.online[n.fold(w+"_")] = w + "_"
			}
		}
		p.nets = append(p.nets, n)
		p.names = append(p.names, fmt.Sprintf("net%d", i))
		p.want = append(p.want, want)
		rec := p.w.AddNetwork(u, p.names[i], n.up, func(nt *database.Network) { nt.Nick = want })
		p.ids = append(p.ids, rec.ID)
		p.wantAt = append(p.wantAt, "")
	}
	for i := range p.nets {
		p.connecting(i)
	}
	p.w.Start()
	for i := range p.nets {
		p.nets[i].up.SyncLive(2)
	}
	return p
}

func (p *p28) wanted(i int) string {
	if p.want[i] != "" {
		return p.want[i]
	}
	return p.acct
}

func (p *p28) connecting(i int) { p.wantAt[i], p.moved[i] = p.wanted(i), false }

func (p *p28) join(i int) {
	o := ClientOpts{User: "alice", Nick: Pick(p.r, p28Nicks[:3])}
	if i >= 0 {
		o.Network = p.names[i]
		if p.r.Intn(4) == 0 {
			o.Network = ""
			o.NetID = fmt.Sprint(p.ids[i])
		}
	}
	if p.r.Intn(2) == 0 {
		o.Caps = Subset(p.r, []string{"echo-message", "message-tags", "server-time", "labeled-response", "batch", "extended-join", "draft/pre-away"}, 0.5)
	}
	cl := p.w.Connect(o)
	p.views = append(p.views, &nickView{cl: cl})
	p.of = append(p.of, i)
}

func (p *p28) settle() {
	for k := 0; k < 2; k++ {
		for _, v := range p.views {
			v.cl.Sync()
		}
		for _, n := range p.nets {
			n.up.SyncLive(2)
		}
	}
	for _, v := range p.views {
		v.cl.Sync()
	}
}

// own checks that a command about the client's nick is taken for one about
// itself.
func (p *p28) own(v *nickView, what string) {
	nick := v.cur
	switch p.r.Intn(3) {
	case 0:
		nick = asciiMap(nick, 'a', 'z', -32)
	case 1:
		nick = asciiMap(nick, 'A', 'Z', 32)
	}
	m := v.cl.Mark()
	v.cl.Sendf("MODE %s", nick)
	v.cl.Sync()
	for _, l := range v.cl.Since(m) {
		if l.Command == "221" {
			p.t.Count("own modes asked", 1)
			return
		}
	}
	v.cl.Dump()
	Failf("after %s: %s was told its nick is %q, but MODE %s is not answered with its modes", what, v.cl.Peer.Name, v.cur, nick)
}

func asciiMap(s string, from, to byte, d int) string {
	b := []byte(s)
	for i, c := range b {
		if c >= from && c <= to {
			b[i] = byte(int(c) + d)
		}
	}
	return string(b)
}

// check compares all clients with the networks.
func (p *p28) check(what string) {
	p.settle()
	for k, v := range p.views {
		v.feed()
		i := p.of[k]
		if i < 0 {
			continue
		}
		real := p.nets[i].up.SyncLive(1).CurNick()
		if v.cur != real {
			v.cl.Dump()
			Failf("after %s: %s (network %d) was told its nick is %q, the network uses %q", what, v.cl.Peer.Name, i, v.cur, real)
		}
		if p.r.Intn(3) == 0 {
			p.own(v, what)
		}
		p.t.Count("client nicks compared", 1)
	}
	for i, n := range p.nets {
		c := n.up.SyncLive(1)
		n.mu.Lock()
		want := p.wanted(i)
		p.moved[i] = p.moved[i] || want != p.wantAt[i]
		_, taken := n.online[n.fold(want)]
		cur := c.CurNick()
		n.mu.Unlock()
		if n.monitor && !taken && want == p.wantAt[i] && !p.moved[i] && want != "9bad" && n.fold(cur) != n.fold(want) && p.fallback(i, c) {
			c.Dump()
			Failf("after %s: network %d: the wanted nick %q is free but the user is still %q", what, i, want, cur)
		}
	}
}

// fallback: whether the connection had to register under another nick and the
// wanted nick has not been in use since.
func (p *p28) fallback(i int, c *UpConn) bool {
	first := ""
	for _, l := range c.Lines() {
		if l.Command == "NICK" {
			if first == "" {
				first = l.P(0)
			} else {
				break
			}
		}
	}
	for _, n := range p.usedNicks(c) {
		if p.nets[i].fold(n) == p.nets[i].fold(p.wantAt[i]) {
			return false
		}
	}
	return first != ""
}

func (p *p28) usedNicks(c *UpConn) []string {
	var l []string
	nickHistMu.Lock()
	l = append(l, nickHist[c]...)
	nickHistMu.Unlock()
	return l
}

var (
	nickHistMu sync.Mutex
	nickHist   = map[*UpConn][]string{}
)

func (p *p28) freeFallback(i int) string {
	n := p.nets[i]
	x := p.wanted(i)
	for {
		if _, ok := n.online[n.fold(x)]; !ok {
			return x
		}
		x += "_"
	}
}

func (p *p28) step() string {
	r := p.r
	i := r.Intn(len(p.nets))
	n := p.nets[i]
	c := n.up.SyncLive(1)
	cur := c.CurNick()
	pickView := func() (int, *nickView) {
		var l []int
		for k, x := range p.of {
			if x == i {
				l = append(l, k)
			}
		}
		if len(l) == 0 {
			p.join(i)
			return len(p.views) - 1, p.views[len(p.views)-1]
		}
		k := Pick(r, l)
		return k, p.views[k]
	}
	p.seq++
	switch r.Intn(13) {
	case 0, 1: // a client changes the nick
		_, v := pickView()
		nick := Pick(r, append([]string{fmt.Sprintf("n%d", p.seq), "9bad", respell(p.t, cur), cur}, p28Nicks...))
		n.mu.Lock()
		_, taken := n.online[n.fold(nick)]
		n.mu.Unlock()
		v.cl.Send("NICK " + nick)
		p.want[i] = nick
		what := fmt.Sprintf("NICK %s by a client", nick)
		if !taken && nick != "9bad" {
			p.settle()
			if got := n.up.SyncLive(1).CurNick(); got != nick {
				Failf("%s: the nick is free but the user is still %q", what, got)
			}
		}
		p.note(i)
		return what
	case 2: // the network forces a nick
		nick := Pick(r, []string{fmt.Sprintf("Guest%d", p.seq), respell(p.t, cur), "x"})
		n.mu.Lock()
		if _, taken := n.online[n.fold(nick)]; taken {
			n.mu.Unlock()
			return "nothing"
		}
		n.rename(c, nick)
		n.mu.Unlock()
		p.note(i)
		return "a forced change to " + nick
	case 3: // account default
		nick := Pick(r, []string{fmt.Sprintf("acct%d", p.seq), "bob", "x"})
		k := -1
		for q, x := range p.of {
			if x < 0 {
				k = q
			}
		}
		if k < 0 {
			p.join(-1)
			k = len(p.views) - 1
		}
		if lines := p.views[k].cl.Service("user update -nick " + nick); len(lines) == 0 || !strings.HasPrefix(lines[0], "updated user") {
			Failf("user update -nick %s failed: %q", nick, lines)
		}
		p.acct = nick
		p.note(0)
		p.note(1)
		return "user update -nick " + nick
	case 4: // reconnection
		return p.reconnect(i)
	case 5, 6: // somebody else takes a nick
		nick := Pick(r, []string{p.wanted(i), "bob", "x", "alice_"})
		n.mu.Lock()
		if n.fold(nick) != n.fold(cur) {
			n.setOnline(c, nick)
		}
		n.mu.Unlock()
		return nick + " taken"
	case 7, 8: // and frees it
		n.mu.Lock()
		nick := p.wanted(i)
		if r.Intn(3) == 0 {
			var l []string
			for _, sp := range n.online {
				l = append(l, sp)
			}
			sort.Strings(l)
			if len(l) > 0 {
				nick = Pick(r, l)
			}
		}
		sn := false
		if r.Intn(5) == 0 {
			// free for an instant only
			n.snatch[n.fold(nick)] = true
			sn = true
		}
		n.setOffline(c, nick)
		n.mu.Unlock()
		if sn {
			p.settle()
			n.mu.Lock()
			delete(n.snatch, n.fold(nick))
			n.mu.Unlock()
		}
		p.note(i)
		return nick + " freed"
	case 9, 10:
		p.join(Pick(r, []int{0, 1, i, -1}))
		return "a new client"
	case 11:
		if len(p.views) > 2 {
			k := r.Intn(len(p.views))
			p.views[k].feed()
			p.views[k].cl.CloseWait()
			p.views = append(p.views[:k:k], p.views[k+1:]...)
			p.of = append(p.of[:k:k], p.of[k+1:]...)
		}
		return "a client left"
	default: // messages carry the nick
		k, v := pickView()
		p.settle()
		cur = n.up.SyncLive(1).CurNick()
		tok := fmt.Sprintf("msg-%d", p.seq)
		v.cl.Send("PRIVMSG friend :" + tok)
		c.Send(":friend!f@f.example PRIVMSG " + cur + " :in-" + tok)
		p.settle()
		for q, o := range p.views {
			if p.of[q] != i {
				continue
			}
			in := 0
			for _, l := range o.cl.Lines() {
				if l.Command != "PRIVMSG" {
					continue
				}
				if l.P(1) == tok {
					if l.Prefix == nil || l.Prefix.Name != cur {
						Failf("own message is shown to %s from %q, the nick is %q", o.cl.Peer.Name, l.Raw, cur)
					}
					if q == k && o.cl.Opts.Caps == nil {
						Failf("own message echoed to a client which did not ask: %q", l.Raw)
					}
				}
				if l.P(1) == "in-"+tok {
					in++
					if l.P(0) != cur {
						Failf("a message to the user is shown to %s for %q, the nick is %q", o.cl.Peer.Name, l.P(0), cur)
					}
				}
			}
			if in != 1 {
				Failf("%s got the message to the user %d times", o.cl.Peer.Name, in)
			}
		}
		return "messages"
	}
}

// note records the nicks used on the current connection of a network.
func (p *p28) note(i int) {
	c := p.nets[i].up.SyncLive(2)
	nickHistMu.Lock()
	nickHist[c] = append(nickHist[c], c.CurNick())
	nickHistMu.Unlock()
}

func (p *p28) reconnect(i int) string {
	r := p.r
	n := p.nets[i]
	c := n.up.SyncLive(1)
	cur := c.CurNick()
	kind := Pick(r, []string{"free", "ghost", "taken"})
	n.mu.Lock()
	switch kind {
	case "ghost":
		n.online[n.fold(cur)] = cur
	case "taken":
		w := p.wanted(i)
		n.online[n.fold(w)] = w
		if r.Intn(2) == 0 {
			n.online[n.fold(w+"_")] = w + "_"
		}
	case "free":
		delete(n.online, n.fold(p.wanted(i)))
	}
	if p.wanted(i) == "9bad" {
		p.want[i] = "9bad" // accepted at registration by this server
	}
	want := p.freeFallback(i)
	num := n.up.NumConns()
	n.mu.Unlock()
	p.connecting(i)
	if r.Intn(2) == 0 {
		c.Send("ERROR :Closing link")
	}
	c.Peer.Close()
	n.up.Conn(num)
	nc := n.up.SyncLive(2)
	if got := nc.CurNick(); got != want {
		nc.Dump()
		Failf("reconnected (%s) as %q, the first free nick is %q", kind, got, want)
	}
	p.note(i)
	p.t.State("reconnect %s fallback %v monitor %v", kind, want != p.wanted(i), n.monitor)
	return "a reconnection (" + kind + ")"
}

func p28Steps(t *T) {
	p := newP28(t)
	for i := range p.nets {
		p.note(i)
		p.join(i)
	}
	p.check("the start")
	for k := 0; k < 14; k++ {
		what := p.step()
		t.Logf("%s", what)
		p.check(what)
		t.State("step %s", strings.Fields(what)[len(strings.Fields(what))-1])
		t.Count("steps", 1)
	}
	p.w.CheckNoPanic()
}

// p28Race: changes by clients and by the network while clients arrive.
func p28Race(t *T) {
	p := newP28(t)
	r := t.Rng
	p.join(0)
	p.join(0)
	for k := 0; k < 5; k++ {
		p.settle()
		n := p.nets[0]
		c := n.up.SyncLive(1)
		var fs []func()
		for _, v := range append([]*nickView(nil), p.views...) {
			v := v
			seed := r.Int63()
			fs = append(fs, func() {
				rr := rand.New(rand.NewSource(seed))
				for j := 0; j < 4; j++ {
					v.cl.Send("NICK " + Pick(rr, []string{"r1", "r2", "r3", "R1", fmt.Sprintf("s%d", rr.Intn(100))}))
				}
			})
		}
		fs = append(fs, func() {
			for j := 0; j < 3; j++ {
				n.mu.Lock()
				n.rename(c, fmt.Sprintf("forced%d-%d", k, j))
				n.mu.Unlock()
				time.Sleep(time.Duration(k) * 300 * time.Microsecond)
			}
		}, func() {
			p.join(0)
		})
		guarded(fs...)
		p.want[0] = "?" // whichever came last
		p.check("simultaneous changes")
		if len(p.views) > 5 {
			p.views[0].cl.CloseWait()
			p.views, p.of = p.views[1:], p.of[1:]
		}
		t.State("race round %d clients %d", k, len(p.views))
		t.Count("racing rounds", 1)
	}
	p.w.CheckNoPanic()
}

// p28Timer: a network without MONITOR.
func p28Timer(t *T) {
	w := NewWorld(t, "memory")
	u := w.AddUser("alice", false)
	n := newNickNet(t, "net", false, 0)
	n.online["alice"] = "alice"
	w.AddNetwork(u, "net", n.up)
	w.Start()
	c := n.up.SyncLive(2)
	cl := w.Connect(ClientOpts{User: "alice", Network: "net"})
	v := &nickView{cl: cl}
	v.feed()
	if c.CurNick() != "alice_" || v.cur != "alice_" {
		Failf("registered as %q, the client was told %q", c.CurNick(), v.cur)
	}
	n.mu.Lock()
	n.setOffline(c, "alice")
	n.mu.Unlock()
	start := time.Now()
	for c.CurNick() != "alice" {
		if time.Since(start) > 45*time.Second {
			Failf("the wanted nick is free for 45 seconds and was not regained")
		}
		time.Sleep(50 * time.Millisecond)
	}
	c.Sync()
	cl.Sync()
	v.feed()
	if v.cur != "alice" {
		Failf("the client was told its nick is %q after it was regained", v.cur)
	}
	t.State("regained by timer")
	t.Count("regained by timer", 1)
	_ = irc.Message{}
}
