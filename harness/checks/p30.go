package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P30", Level: "stress_oracle",
		Rule:   "steps: clients of two networks with the same nicks add, remove, clear, list and query monitored nicks under varying spellings, arrive and leave; nicks come and go on the networks, which have list limits and reconnect. After every step the list held by each simulated network must be the union of its clients' lists (its full capacity of that union when the union is larger), every client must have been told the current presence of each of its nicks which is on the list, once per change, and nothing about other nicks, and LIST and STATUS replies must be its own list. race: the same operations at the same time against a network which answers late. full: the bouncer's own per-client limit. A situation is (kind of step, list size class against the limit, spelling)",
		Assume: []string{"the simulated server answers an addition of a nick already on its list again", "clients do not monitor the user's own nicks"},
		Cases: func(e *Env) []Case {
			c := Repeat(e, "full", e.N(1, 6), p30Full)
			c = append(c, Repeat(e, "steps", e.N(400, 8000), p30Steps)...)
			return append(c, Repeat(e, "race", e.N(200, 5000), p30Race)...)
		},
	})
}

type monClient struct {
	cl   *Client
	net  int
	set  map[string]bool // folded
	told map[string]bool // folded -> online
	pos  int
	ev   map[string]int // notifications received in the current step
	full int            // 734 replies in the current step
}

type p30 struct {
	t    *T
	r    *rand.Rand
	w    *World
	nets []*nickNet
	cls  []*monClient
	pool []string
	seq  int
}

func newP30(t *T, limit int) *p30 {
	p := &p30{t: t, r: t.Rng}
	r := t.Rng
	p.w = NewWorld(t, "memory")
	u := p.w.AddUser("alice", false)
	for i := 0; i < 2; i++ {
		l := limit
		if l == 0 {
			l = Pick(r, []int{3, 8, 100})
		}
		n := newNickNet(t, fmt.Sprintf("net%d", i), true, l)
		n.perLine = r.Intn(2) == 0
		n.cm = Pick(r, []string{"rfc1459", "ascii", "rfc1459-strict"})
		n.up.ISupport = append(n.up.ISupport, "CASEMAPPING="+n.cm)
		p.nets = append(p.nets, n)
		p.w.AddNetwork(u, fmt.Sprintf("net%d", i), n.up)
	}
	p.pool = []string{"bob", "[carl]", "dave^", "BouncerServ", "e\\f", "Gus", "h|i"}
	for i := 0; i < 8; i++ {
		p.pool = append(p.pool, fmt.Sprintf("Nick%d%s", i, strings.Repeat("x", r.Intn(20))))
	}
	for _, n := range p.nets {
		for _, x := range p.pool {
			if r.Intn(2) == 0 && x != "BouncerServ" {
				n.online[n.fold(x)] = x
			}
		}
	}
	p.w.Start()
	for _, n := range p.nets {
		n.up.SyncLive(2)
	}
	return p
}

func (p *p30) arrive(i int) *monClient {
	p.seq++
	c := &monClient{net: i, set: map[string]bool{}, told: map[string]bool{}, ev: map[string]int{}}
	c.cl = p.w.Connect(ClientOpts{User: "alice", Network: fmt.Sprintf("net%d", i)})
	tok := ""
	for _, l := range c.cl.Lines() {
		if l.Command == "005" {
			for _, x := range l.Params {
				if strings.HasPrefix(x, "MONITOR") {
					tok += x
				}
			}
		}
	}
	if want := fmt.Sprintf("MONITOR=%d", p.nets[i].limit); tok != want {
		Failf("the client was told of %q, the network announced %q", tok, want)
	}
	c.pos = len(c.cl.Lines())
	return c
}

func (p *p30) settle() {
	p.w.WaitDownstreams(int64(len(p.cls)))
	for k := 0; k < 2; k++ {
		for _, c := range p.cls {
			c.cl.Sync()
		}
		for _, n := range p.nets {
			n.up.SyncLive(2)
		}
	}
	for _, c := range p.cls {
		c.cl.Sync()
	}
}

// feed reads the notifications of a client; foreign ones are violations when
// strict.
func (p *p30) feed(c *monClient, strict bool) {
	n := p.nets[c.net]
	ls := c.cl.Since(c.pos)
	c.pos += len(ls)
	c.ev, c.full = map[string]int{}, 0
	for _, l := range ls {
		switch l.Command {
		case "730", "731":
			for _, x := range strings.Split(l.P(1), ",") {
				f := n.fold(strings.SplitN(x, "!", 2)[0])
				if strict && !c.set[f] {
					c.cl.Dump()
					Failf("%s is told of %q which it does not monitor: %q", c.cl.Peer.Name, x, l.Raw)
				}
				c.told[f] = l.Command == "730"
				c.ev[f]++
			}
		case "734":
			c.full++
			if strict && !c.set[n.fold(l.P(2))] {
				c.cl.Dump()
				Failf("%s is told that the list is full for %q which it does not monitor: %q", c.cl.Peer.Name, l.P(2), l.Raw)
			}
		case "421":
			c.cl.Dump()
			Failf("%s: %q", c.cl.Peer.Name, l.Raw)
		}
	}
}

func (p *p30) union(i int) map[string]bool {
	u := map[string]bool{}
	for _, c := range p.cls {
		if c.net == i {
			for f := range c.set {
				if f != "bouncerserv" {
					u[f] = true
				}
			}
		}
	}
	return u
}

func keysOf[V any](m map[string]V) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (p *p30) check(what string, strict bool) {
	p.settle()
	for _, c := range p.cls {
		p.feed(c, strict)
	}
	for i, n := range p.nets {
		conn := n.up.SyncLive(1)
		u := p.union(i)
		n.mu.Lock()
		mon := map[string]string{}
		for k, v := range n.mon[conn] {
			mon[k] = v
		}
		online := map[string]bool{}
		for k := range n.online {
			online[k] = true
		}
		n.mu.Unlock()
		for f := range mon {
			if !u[f] {
				conn.Dump()
				Failf("after %s: network %d monitors %q which no client monitors (want %s)", what, i, f, keysOf(u))
			}
		}
		want := len(u)
		if want > n.limit {
			want = n.limit
		}
		if len(mon) != want {
			conn.Dump()
			Failf("after %s: network %d (limit %d) monitors %d nicks [%s], the clients want %d [%s]", what, i, n.limit, len(mon), keysOf(mon), len(u), keysOf(u))
		}
		p.t.State("%s size %s over %v cm %s", strings.Fields(what)[0], sizeClass(len(u)), len(u) > n.limit, n.cm)
		for _, c := range p.cls {
			if c.net != i {
				continue
			}
			for f := range c.set {
				if f == "bouncerserv" {
					if !c.told[f] {
						Failf("after %s: %s was not told that BouncerServ is online", what, c.cl.Peer.Name)
					}
					continue
				}
				if _, ok := mon[f]; !ok {
					continue
				}
				got, ok := c.told[f]
				if !ok || got != online[f] {
					c.cl.Dump()
					conn.Dump()
					Failf("after %s: %s monitors %q: told %v/%v, online %v", what, c.cl.Peer.Name, f, ok, got, online[f])
				}
				p.t.Count("presence states compared", 1)
			}
			if c.full > 0 && len(u) <= n.limit && strict {
				Failf("after %s: %s was told that the list is full, it has %d of %d", what, c.cl.Peer.Name, len(u), n.limit)
			}
		}
		for _, l := range conn.Lines() {
			if l.Command == "MONITOR" && len(l.Raw) > 510 {
				Failf("MONITOR line of %d bytes sent", len(l.Raw))
			}
		}
	}
}

func (p *p30) names(r *rand.Rand, k int) []string {
	var l []string
	seen := map[string]bool{}
	for len(l) < k {
		x := Pick(r, p.pool)
		if !seen[x] {
			seen[x] = true
			if r.Intn(3) == 0 {
				x = strings.ToUpper(x)
			}
			l = append(l, x)
		}
	}
	return l
}

// cmd sends a change of the list of a client.
func (p *p30) cmd(r *rand.Rand, c *monClient) string {
	n := p.nets[c.net]
	switch r.Intn(8) {
	case 0:
		c.cl.Send(Pick(r, []string{"MONITOR C", "MONITOR c", "monitor C"}))
		c.set = map[string]bool{}
		return "clear"
	case 1, 2:
		l := p.names(r, 1+r.Intn(4))
		c.cl.Send("MONITOR - " + strings.Join(l, ","))
		for _, x := range l {
			delete(c.set, n.fold(x))
		}
		return "removal"
	default:
		k := 1 + r.Intn(4)
		if r.Intn(6) == 0 {
			k = len(p.pool)
		}
		l := p.names(r, k)
		c.cl.Send("MONITOR + " + strings.Join(l, ","))
		for _, x := range l {
			c.set[n.fold(x)] = true
		}
		return "addition " + strings.Join(l, ",")
	}
}

func (p *p30) step() string {
	r := p.r
	for len(p.cls) < 2 {
		p.cls = append(p.cls, p.arrive(len(p.cls)%2))
	}
	switch k := r.Intn(16); {
	case k < 6:
		c := Pick(r, p.cls)
		return p.cmd(r, c)
	case k < 10: // presence
		i := r.Intn(2)
		n := p.nets[i]
		c := n.up.SyncLive(1)
		x := Pick(r, p.pool)
		if x == "BouncerServ" {
			return "nothing"
		}
		n.mu.Lock()
		_, on := n.online[n.fold(x)]
		_, mon := n.mon[c][n.fold(x)]
		if on {
			n.setOffline(c, x)
		} else {
			n.setOnline(c, x)
		}
		n.mu.Unlock()
		p.check("a presence change", true)
		for _, c := range p.cls {
			want := 0
			if c.net == i && mon && c.set[n.fold(x)] {
				want = 1
			}
			for f, k := range c.ev {
				if f != n.fold(x) || k != want {
					c.cl.Dump()
					Failf("%s came or went on network %d: %s was told of %s %d times, want %d", x, i, c.cl.Peer.Name, f, k, want)
				}
			}
			if c.ev[n.fold(x)] != want {
				Failf("%s came or went on network %d: %s was told %d times, want %d", x, i, c.cl.Peer.Name, c.ev[n.fold(x)], want)
			}
		}
		return "presence"
	case k < 12: // list and status
		c := Pick(r, p.cls)
		n := p.nets[c.net]
		conn := n.up.SyncLive(1)
		m := c.cl.Mark()
		c.cl.Send("MONITOR L")
		c.cl.Sync()
		got := map[string]bool{}
		ends := 0
		for _, l := range c.cl.Since(m) {
			switch l.Command {
			case "732":
				for _, x := range strings.Split(l.P(1), ",") {
					f := n.fold(x)
					if got[f] {
						Failf("%q listed twice", x)
					}
					got[f] = true
				}
			case "733":
				ends++
			}
		}
		if keysOf(got) != keysOf(c.set) || ends != 1 {
			c.cl.Dump()
			Failf("MONITOR L of %s gives [%s] (%d ends), want [%s]", c.cl.Peer.Name, keysOf(got), ends, keysOf(c.set))
		}
		m = c.cl.Mark()
		c.cl.Send("MONITOR S")
		c.cl.Sync()
		st := map[string]bool{}
		for _, l := range c.cl.Since(m) {
			if l.Command != "730" && l.Command != "731" {
				continue
			}
			for _, x := range strings.Split(l.P(1), ",") {
				f := n.fold(strings.SplitN(x, "!", 2)[0])
				if _, dup := st[f]; dup || !c.set[f] {
					c.cl.Dump()
					Failf("MONITOR S of %s: %q", c.cl.Peer.Name, l.Raw)
				}
				st[f] = l.Command == "730"
				n.mu.Lock()
				_, on := n.online[f]
				_, mon := n.mon[conn][f]
				n.mu.Unlock()
				if f == "bouncerserv" {
					on, mon = true, true
				}
				if mon && on != st[f] {
					Failf("MONITOR S of %s: %s is shown online=%v, it is %v", c.cl.Peer.Name, x, st[f], on)
				}
			}
		}
		if len(st) != len(c.set) {
			Failf("MONITOR S of %s shows [%s], the list is [%s]", c.cl.Peer.Name, keysOf(st), keysOf(c.set))
		}
		p.t.Count("list and status queries", 1)
		return "query"
	case k < 13:
		p.cls = append(p.cls, p.arrive(r.Intn(2)))
		return "arrival"
	case k < 14:
		i := r.Intn(len(p.cls))
		p.cls[i].cl.CloseWait()
		p.cls = append(p.cls[:i:i], p.cls[i+1:]...)
		return "departure"
	default:
		i := r.Intn(2)
		n := p.nets[i]
		c := n.up.SyncLive(1)
		num := n.up.NumConns()
		// the new connection reads n under the lock: it sees the changes
		n.mu.Lock()
		c.Peer.Close()
		for _, x := range p.pool {
			if x != "BouncerServ" && r.Intn(3) == 0 {
				if _, on := n.online[n.fold(x)]; on {
					n.setOffline(nil, x)
				} else {
					n.setOnline(nil, x)
				}
			}
		}
		n.mu.Unlock()
		n.up.Conn(num)
		return "reconnection"
	}
}

func p30Steps(t *T) {
	p := newP30(t, 0)
	for k := 0; k < 18; k++ {
		what := p.step()
		t.Logf("%s", what)
		p.check(what, true)
		t.Count("steps", 1)
	}
	p.w.CheckNoPanic()
}

func p30Race(t *T) {
	p := newP30(t, 100)
	r := t.Rng
	for k := 0; k < 4; k++ {
		p.cls = append(p.cls, p.arrive(k%2))
	}
	for k := 0; k < 4; k++ {
		for _, n := range p.nets {
			n.mu.Lock()
			n.delay = time.Duration(r.Intn(3000)) * time.Microsecond
			n.mu.Unlock()
		}
		var fs []func()
		var stay []*monClient
		for q, c := range p.cls {
			c := c
			rr := rand.New(rand.NewSource(r.Int63()))
			leave := q > 1 && r.Intn(4) == 0
			if !leave {
				stay = append(stay, c)
			}
			fs = append(fs, func() {
				for j := 0; j < 1+rr.Intn(6); j++ {
					p.cmd(rr, c)
					time.Sleep(time.Duration(rr.Intn(1500)) * time.Microsecond)
				}
				if leave {
					c.cl.CloseWait()
				}
			})
		}
		for _, n := range p.nets {
			n := n
			rr := rand.New(rand.NewSource(r.Int63()))
			fs = append(fs, func() {
				for j := 0; j < 4; j++ {
					c := n.up.Newest()
					x := Pick(rr, p.pool)
					if x == "BouncerServ" {
						continue
					}
					n.mu.Lock()
					if _, on := n.online[n.fold(x)]; on {
						n.setOffline(c, x)
					} else {
						n.setOnline(c, x)
					}
					n.mu.Unlock()
					time.Sleep(time.Duration(rr.Intn(1500)) * time.Microsecond)
				}
			})
		}
		guarded(fs...)
		p.cls = stay
		p.check("simultaneous changes", false)
		p.cls = append(p.cls, p.arrive(k%2))
		t.Count("racing rounds", 1)
	}
	p.w.CheckNoPanic()
}

func p30Full(t *T) {
	p := newP30(t, 5000)
	n := p.nets[0]
	c, o := p.arrive(0), p.arrive(0)
	p.cls = []*monClient{c, o}
	total := 1001 + t.Rng.Intn(20)
	var l []string
	for i := 0; i < total; i++ {
		x := fmt.Sprintf("m%d", i)
		l = append(l, x)
		if i < 1000 {
			c.set[n.fold(x)] = true
		}
		if len(l) == 40 || i == total-1 {
			c.cl.Send("MONITOR + " + strings.Join(l, ","))
			l = nil
		}
	}
	m := 0
	p.settle()
	for _, x := range c.cl.Lines() {
		if x.Command == "734" {
			m++
			if x.P(1) != "1000" {
				Failf("limit reply %q", x.Raw)
			}
		}
	}
	if m != total-1000 {
		Failf("%d nicks requested: %d refused, want %d", total, m, total-1000)
	}
	o.cl.Send("MONITOR + other1,other2")
	o.set["other1"], o.set["other2"] = true, true
	p.check("filling a list", false)
	if o.full > 0 {
		Failf("another client was told that the list is full")
	}
	t.Count("bouncer limit reached", 1)
	p.w.CheckNoPanic()
}
