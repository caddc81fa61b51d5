package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P29", Level: "stress_oracle",
		Rule:   "steps: two users with two networks each (automatic away on or off, the network with or without draft/pre-away): clients arrive (attached to a network by name or id, or to none; present or already away before registration), leave politely or not, send AWAY with and without a message, networks reconnect, are disabled and enabled again, automatic away is switched. After every step the AWAY lines received on every live network connection are compared with the model (told exactly once per change, told again on every new connection, never told when automatic away is off). race: the same operations at the same time; the lines must alternate and the last one must match. A situation is (kind of step, present clients, away clients, automatic away, state)",
		Assume: []string{"a step is over when every client and network has answered a fence"},
		Cases: func(e *Env) []Case {
			c := Repeat(e, "steps", e.N(500, 10000), p29Steps)
			return append(c, Repeat(e, "race", e.N(200, 6000), p29Race)...)
		},
	})
}

type awayClient struct {
	cl    *Client
	net   int // -1: attached to none
	away  bool
	want  []string // expected replies to its AWAY commands
	start int
}

type p29 struct {
	t    *T
	r    *rand.Rand
	w    *World
	nets []*awayNet
	cls  []*awayClient
	seq  int
}

type awayNet struct {
	up       *Upstream
	user     string
	name     string
	id       int64
	auto     bool
	disabled bool
	conn     *UpConn // the connection being followed
	state    bool
	expect   []bool // AWAY (true) or back (false), on conn
	reason   string
}

func newP29(t *T) *p29 {
	p := &p29{t: t, r: t.Rng}
	p.w = NewWorld(t, "memory")
	for _, user := range []string{"alice", "bob"} {
		u := p.w.AddUser(user, false)
		for i := 0; i < 2; i++ {
			up := NewUpstream(t, fmt.Sprintf("%s%d", user, i))
			n := &awayNet{up: up, user: user, name: fmt.Sprintf("net%d", i), auto: p.r.Intn(4) > 0, reason: "Auto away"}
			if p.r.Intn(2) == 0 {
				up.Caps = append(append([]string(nil), up.Caps...), "draft/pre-away")
				n.reason = "*"
			}
			up.Start()
			rec := p.w.AddNetwork(u, n.name, up, func(nt *database.Network) { nt.AutoAway = n.auto })
			n.id = rec.ID
			p.nets = append(p.nets, n)
		}
		if user == "alice" && p.r.Intn(2) == 0 {
			break
		}
	}
	p.w.Start()
	for i := range p.nets {
		p.follow(i)
	}
	return p
}

// present: whether a client attached to the network is present.
func (p *p29) present(i int) bool {
	for _, c := range p.cls {
		if c.net == i && !c.away {
			return true
		}
	}
	return false
}

// follow starts following the newest connection of a network.
func (p *p29) follow(i int) {
	n := p.nets[i]
	n.conn = n.up.SyncLive(2)
	n.state, n.expect = false, nil
	p.update(i)
}

func (p *p29) update(i int) {
	n := p.nets[i]
	if n.disabled || !n.auto {
		return
	}
	if away := !p.present(i); away != n.state {
		n.state = away
		n.expect = append(n.expect, away)
	}
}

func (p *p29) awayLines(i int) []bool {
	var l []bool
	n := p.nets[i]
	for _, m := range n.conn.Lines() {
		if m.Command != "AWAY" {
			continue
		}
		a := len(m.Params) > 0 && m.P(0) != ""
		if a && m.P(0) != n.reason {
			Failf("network %s/%s is told the away message %q, want %q", n.user, n.name, m.P(0), n.reason)
		}
		l = append(l, a)
	}
	return l
}

func (p *p29) settle() {
	p.w.WaitDownstreams(int64(len(p.cls)))
	for k := 0; k < 2; k++ {
		for _, c := range p.cls {
			c.cl.Sync()
		}
		for _, n := range p.nets {
			if !n.disabled {
				n.conn.Sync()
			}
		}
	}
	for _, c := range p.cls {
		c.cl.Sync()
	}
}

func (p *p29) check(what string, exact bool) {
	p.settle()
	for i, n := range p.nets {
		if n.disabled {
			continue
		}
		got := p.awayLines(i)
		if !exact {
			last := false
			for k, a := range got {
				if a == last {
					n.conn.Dump()
					Failf("after %s: network %s/%s was told the same away state twice (%v, line %d)", what, n.user, n.name, got, k)
				}
				last = a
			}
			want := n.auto && !p.present(i)
			if last != want {
				n.conn.Dump()
				Failf("after %s: network %s/%s believes away=%v, want %v (present=%v, auto-away=%v)", what, n.user, n.name, last, want, p.present(i), n.auto)
			}
			n.state, n.expect = last, got
		} else if fmt.Sprint(got) != fmt.Sprint(n.expect) {
			n.conn.Dump()
			Failf("after %s: network %s/%s was told away states %v, want %v (auto-away=%v)", what, n.user, n.name, got, n.expect, n.auto)
		}
		p.t.Count("away states compared", 1)
		if n.up.NumConns() > 0 && n.up.Newest() != n.conn {
			Failf("after %s: network %s/%s was reconnected", what, n.user, n.name)
		}
		p.t.State("%v present %d auto %v state %v", exact, sizeClass(len(p.cls)), n.auto, n.state)
	}
	for _, c := range p.cls {
		var got []string
		for _, l := range c.cl.Since(c.start) {
			if l.Command == "305" || l.Command == "306" {
				got = append(got, l.Command)
			}
		}
		if strings.Join(got, " ") != strings.Join(c.want, " ") {
			c.cl.Dump()
			Failf("after %s: %s got away replies %v, want %v", what, c.cl.Peer.Name, got, c.want)
		}
	}
}

func awayLine(r *rand.Rand) (string, bool) {
	switch r.Intn(5) {
	case 0:
		return "AWAY", false
	case 1:
		return "AWAY :", false
	case 2:
		return "AWAY *", true
	case 3:
		return "AWAY :gone for lunch", true
	}
	return "away gone", true
}

func awayReply(a bool) string {
	if a {
		return "306"
	}
	return "305"
}

// arrive dials a client; the caller adds it to the list.
func (p *p29) arrive(r *rand.Rand, k int) *awayClient {
	c := &awayClient{net: -1}
	user := "alice"
	if r.Intn(8) > 0 {
		c.net = r.Intn(len(p.nets))
		user = p.nets[c.net].user
	}
	o := ClientOpts{User: user}
	if c.net >= 0 {
		if r.Intn(3) == 0 {
			o.NetID = fmt.Sprint(p.nets[c.net].id)
		} else {
			o.Network = p.nets[c.net].name
		}
	}
	if r.Intn(3) == 0 {
		o.Caps = append(o.Caps, "draft/pre-away")
	}
	c.cl = p.w.Dial(fmt.Sprintf("%s-%d", user, k))
	for r.Intn(3) == 0 {
		line, a := awayLine(r)
		c.cl.Send(line)
		c.away = a
		c.want = append(c.want, awayReply(a))
	}
	c.cl.Register(o)
	return c
}

func (p *p29) leave(r *rand.Rand, c *awayClient) {
	switch r.Intn(3) {
	case 0:
		c.cl.Send("QUIT :bye")
		c.cl.WaitClosed("end of connection")
	default:
		c.cl.CloseWait()
	}
}

func (p *p29) step() string {
	r := p.r
	p.seq++
	k := r.Intn(13)
	switch {
	case k < 3 || len(p.cls) == 0 && k < 9:
		c := p.arrive(r, p.seq)
		p.cls = append(p.cls, c)
		if c.net >= 0 {
			p.update(c.net)
		}
		return fmt.Sprintf("arrival on network %d away %v", c.net, c.away)
	case k < 6:
		i := r.Intn(len(p.cls))
		c := p.cls[i]
		p.cls = append(p.cls[:i:i], p.cls[i+1:]...)
		p.leave(r, c)
		if c.net >= 0 {
			p.update(c.net)
		}
		return fmt.Sprintf("departure from network %d away %v", c.net, c.away)
	case k < 9:
		c := Pick(r, p.cls)
		line, a := awayLine(r)
		c.cl.Send(line)
		c.away = a
		c.want = append(c.want, awayReply(a))
		if c.net >= 0 {
			p.update(c.net)
		}
		return fmt.Sprintf("%q on network %d", line, c.net)
	case k == 9:
		i := r.Intn(len(p.nets))
		n := p.nets[i]
		if n.disabled {
			return "nothing"
		}
		num := n.up.NumConns()
		n.conn.Peer.Close()
		var c *awayClient
		if r.Intn(3) == 0 { // a change while disconnected
			if len(p.cls) > 0 && r.Intn(2) == 0 {
				c = Pick(r, p.cls)
				line, a := awayLine(r)
				c.cl.Send(line)
				c.away = a
				c.want = append(c.want, awayReply(a))
				if c.net >= 0 && c.net != i {
					p.update(c.net)
				}
			}
		}
		n.up.Conn(num)
		if c != nil {
			// the change may fall just before or after the registration
			p.settleLoose(i)
			return "a reconnection during an AWAY"
		}
		p.follow(i)
		return "a reconnection"
	case k == 10:
		i := r.Intn(len(p.nets))
		n := p.nets[i]
		u := p.unbound(n.user)
		num := n.up.NumConns()
		old := n.conn
		lines := u.cl.Service(fmt.Sprintf("network update %s -enabled %v", n.name, n.disabled))
		if len(lines) == 0 || !strings.HasPrefix(lines[0], "updated") {
			Failf("network update failed: %q", lines)
		}
		n.disabled = !n.disabled
		if n.disabled {
			old.WaitClosed("end of the disabled network's connection")
		} else {
			n.up.Conn(num)
			p.follow(i)
		}
		return "network enabled or disabled"
	case k == 11:
		i := r.Intn(len(p.nets))
		n := p.nets[i]
		if n.disabled {
			return "nothing"
		}
		u := p.unbound(n.user)
		num := n.up.NumConns()
		n.auto = !n.auto
		lines := u.cl.Service(fmt.Sprintf("network update %s -auto-away %v", n.name, n.auto))
		if len(lines) == 0 || !strings.HasPrefix(lines[0], "updated") {
			Failf("network update failed: %q", lines)
		}
		n.up.Conn(num)
		p.follow(i)
		return "automatic away switched"
	}
	// traffic which does not concern presence
	for _, c := range p.cls {
		c.cl.Send("PRIVMSG friend :hello")
	}
	return "traffic"
}

// settleLoose adopts the new connection after a step with a permitted race.
func (p *p29) settleLoose(i int) {
	n := p.nets[i]
	n.conn = n.up.SyncLive(2)
	p.settle()
	p.check("a reconnection during an AWAY", false)
}

func (p *p29) unbound(user string) *awayClient {
	for _, c := range p.cls {
		if c.net == -1 && c.cl.Opts.User == user {
			return c
		}
	}
	c := &awayClient{net: -1, cl: p.w.Connect(ClientOpts{User: user})}
	p.cls = append(p.cls, c)
	return c
}

func p29Steps(t *T) {
	p := newP29(t)
	p.check("the start", true)
	for k := 0; k < 16; k++ {
		what := p.step()
		t.Logf("%s", what)
		p.check(what, true)
		t.State("step %s", what)
		t.Count("steps", 1)
	}
	p.w.CheckNoPanic()
}

func p29Race(t *T) {
	p := newP29(t)
	r := t.Rng
	for k := 0; k < 4; k++ {
		var fs []func()
		arrivals := make([]*awayClient, 3)
		for j := range arrivals {
			j := j
			rr := rand.New(rand.NewSource(r.Int63()))
			fs = append(fs, func() { arrivals[j] = p.arrive(rr, 100*k+j) })
		}
		var stay []*awayClient
		for _, c := range p.cls {
			c := c
			rr := rand.New(rand.NewSource(r.Int63()))
			if rr.Intn(3) == 0 {
				fs = append(fs, func() { p.leave(rr, c) })
				continue
			}
			stay = append(stay, c)
			fs = append(fs, func() {
				for j := 0; j < 4; j++ {
					line, a := awayLine(rr)
					c.cl.Send(line)
					c.away = a
					c.want = append(c.want, awayReply(a))
					time.Sleep(time.Duration(rr.Intn(400)) * time.Microsecond)
				}
			})
		}
		i := r.Intn(len(p.nets))
		num := -1
		if r.Intn(2) == 0 {
			num = p.nets[i].up.NumConns()
			fs = append(fs, p.nets[i].conn.Peer.Close)
		}
		guarded(fs...)
		p.cls = append(stay, arrivals...)
		if num >= 0 {
			p.nets[i].up.Conn(num)
			p.nets[i].conn = p.nets[i].up.SyncLive(2)
		}
		p.check("simultaneous changes", false)
		t.Count("racing rounds", 1)
	}
	p.w.CheckNoPanic()
}
