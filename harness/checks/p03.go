package checks

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P03", Level: "exploration",
		Rule:   "one execution = a random history of connects, disconnects, partial acknowledgements, messages (incoming and sent by clients) and, with persistent stores, restarts, for up to 4 client names and several conversations; every registration burst is compared with the model's unacknowledged suffix; a situation is (store, client, conversation kind, number of missed messages, after restart)",
		Assume: []string{"a client name is entitled to a conversation's messages from the moment it has acknowledged any message on that network; messages replayed to a client count as acknowledged", "clients acknowledge in order"},
		Cases: func(e *Env) []Case {
			var l []Case
			l = append(l, Repeat(e, "hist", e.N(500, 10000), p03Hist)...)
			l = append(l, Repeat(e, "flow", e.N(120, 3000), p03Flow)...)
			l = append(l, Repeat(e, "days", e.N(120, 2000), p03Days)...)
			return l
		},
	})
}

type p03Model struct {
	msgs map[string][]string       // target -> texts
	pos  map[string]map[string]int // client -> target -> next index due
}

func (m *p03Model) known(client string) bool { return len(m.pos[client]) > 0 }

func (m *p03Model) add(target, text string) int {
	for _, p := range m.pos {
		if len(p) == 0 {
			continue
		}
		if _, ok := p[target]; !ok {
			p[target] = len(m.msgs[target])
		}
	}
	m.msgs[target] = append(m.msgs[target], text)
	return len(m.msgs[target]) - 1
}

func (m *p03Model) ack(client, target string, idx int) {
	if m.pos[client] == nil {
		m.pos[client] = map[string]int{}
	}
	m.pos[client][target] = idx + 1
}

// due returns what a returning client must be given, per target.
func (m *p03Model) due(client string) map[string][]string {
	out := map[string][]string{}
	for tg, p := range m.pos[client] {
		if l := m.msgs[tg][p:]; len(l) > 0 {
			out[tg] = l
		}
	}
	return out
}

type p03Pend struct {
	target string
	idx    int
}

type p03Client struct {
	name string
	c    *Client
	pend []p03Pend
}

// conversation of a message as seen by a client
func convOf(l Line, nick string) string {
	if l.P(0) == nick && l.Prefix != nil {
		return strings.ToLower(l.Prefix.Name)
	}
	return strings.ToLower(l.P(0))
}

func checkBacklog(t *T, who string, ls []Line, nick, uid string, due map[string][]string) {
	got := map[string][]string{}
	for _, l := range ls {
		if (l.Command == "PRIVMSG" || l.Command == "NOTICE") && strings.Contains(l.P(1), "<"+uid+":") {
			cv := convOf(l, nick)
			got[cv] = append(got[cv], l.Command+" "+l.P(1))
		}
	}
	var tgs []string
	for tg := range due {
		tgs = append(tgs, tg)
	}
	for tg := range got {
		if _, ok := due[tg]; !ok {
			tgs = append(tgs, tg)
		}
	}
	sort.Strings(tgs)
	for _, tg := range tgs {
		if strings.Join(due[tg], "\n") != strings.Join(got[tg], "\n") {
			d := diffAt(due[tg], got[tg])
			Failf("%s: missed messages of %s: %d due, %d replayed; first difference: due %q, got %q", who, tg, len(due[tg]), len(got[tg]), d[0], d[1])
		}
		t.Count("replayed messages checked", len(due[tg]))
	}
}

func p03Hist(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db"})
	w := NewWorld(t, store)
	up := NewUpstream(t, "net")
	up.Caps = Pick(r, upCapSets)
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	chans := []string{"#one", "#two"}
	for _, ch := range chans {
		w.AddChannel(n, ch)
	}
	// another network, whose clients are other clients even under the same name
	side := NewUpstream(t, "side")
	side.Start()
	w.AddNetwork(u, "side", side)
	asides := map[string]*Client{}
	w.Start()
	side.Ready(0)
	var uc *UpConn
	conn := func() {
		uc = up.Ready(up.NumConns() - 1)
		uc.Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
		uc.Sync()
	}
	up.Conn(0)
	conn()
	uid := fmt.Sprintf("b%d", t.Case.Seed%10000)
	m := &p03Model{msgs: map[string][]string{}, pos: map[string]map[string]int{}}
	names := []string{"", "desk", "phone", "old"}
	live := map[string]*p03Client{}
	seq := 0
	steps := 25 + r.Intn(30)
	var script []string
	restarted, nr := 0, 0
	down := false // the network accepts connections but never completes them
	sync := func() {
		if !down {
			uc.Sync()
		}
	}
	connect := func(name string) {
		caps := Subset(r, []string{"message-tags", "server-time", "batch", "echo-message", "account-tag", "labeled-response"}, Pick(r, []float64{0, 0.5, 1}))
		due := m.due(name)
		c := w.Connect(ClientOpts{User: "user", Network: "net", Client: name, Caps: caps})
		script = append(script, fmt.Sprintf("connect %q", name))
		defer func() {
			if v := recover(); v != nil {
				t.Logf("history: %s", strings.Join(script, "; "))
				c.Dump()
				panic(v)
			}
		}()
		checkBacklog(t, fmt.Sprintf("client %q (%s store)", name, store), c.Lines(), uc.CurNick(), uid, due)
		missed := 0
		for tg := range m.pos[name] {
			missed += len(m.msgs[tg]) - m.pos[name][tg]
			m.pos[name][tg] = len(m.msgs[tg])
		}
		t.State("%s|%q|%d targets|%d missed|%d|%v", store, name, len(due), missed, restarted, caps)
		t.Count("registrations checked", 1)
		live[name] = &p03Client{name: name, c: c}
	}
	stored := func(target, cmd, text string) {
		idx := m.add(target, cmd+" "+text)
		for _, lc := range live {
			lc.pend = append(lc.pend, p03Pend{target, idx})
		}
	}
	for s := 0; s < steps; s++ {
		k := r.Intn(25)
		if down && (k >= 8 && k < 16 || k == 20 || k == 21) {
			k = 22
			if r.Intn(2) == 0 {
				k = r.Intn(8)
			}
		}
		switch {
		case k < 5: // connect someone
			name := Pick(r, names)
			if live[name] == nil {
				connect(name)
			}
		case k < 8: // disconnect someone
			for _, name := range names {
				if lc := live[name]; lc != nil && r.Intn(2) == 0 {
					script = append(script, fmt.Sprintf("close %q", name))
					if r.Intn(2) == 0 {
						lc.c.Send("QUIT :bye")
						lc.c.WaitClosed("QUIT")
					}
					lc.c.CloseWait()
					delete(live, name)
					w.WaitDownstreams(int64(len(live) + len(asides)))
					sync()
					if down {
						// no fence is possible through the network
						if _, ok := w.Admin("user run user network status"); !ok {
							panic(Inconclusive{"network status refused"})
						}
					}
					break
				}
			}
		case k < 14: // traffic
			for i, cnt := 0, 1+r.Intn(6); i < cnt; i++ {
				text := fmt.Sprintf("<%s:%d> x", uid, seq)
				seq++
				cmd := Pick(r, []string{"PRIVMSG", "PRIVMSG", "NOTICE"})
				if r.Intn(2) == 0 {
					tg := Pick(r, chans)
					uc.Sendf(":alice!a@h %s %s :%s", cmd, tg, text)
					script = append(script, fmt.Sprintf("%s %d", tg, seq-1))
					stored(tg, cmd, text)
				} else {
					from := Pick(r, []string{"alice", "bob", "zoe"})
					uc.Sendf(":%s!a@h %s %s :%s", from, cmd, uc.CurNick(), text)
					script = append(script, fmt.Sprintf("%s %d", from, seq-1))
					stored(from, cmd, text)
				}
			}
			uc.Sync()
		case k < 16: // a client speaks
			for _, name := range names {
				if lc := live[name]; lc != nil && r.Intn(2) == 0 {
					text := fmt.Sprintf("<%s:%d> self", uid, seq)
					seq++
					tg := Pick(r, []string{"#one", "#two", "alice", "bob"})
					lc.c.Sendf("PRIVMSG %s :%s", tg, text)
					lc.c.Sync()
					uc.Sync()
					uc.Sync()
					script = append(script, fmt.Sprintf("self %q->%s %d", name, tg, seq-1))
					stored(tg, "PRIVMSG", text)
					break
				}
			}
		case k < 19: // acknowledgements
			for _, name := range names {
				lc := live[name]
				if lc == nil || r.Intn(2) == 0 {
					continue
				}
				lc.c.Sync()
				toks := lc.c.Pending()
				if len(toks) != len(lc.pend) {
					t.Logf("history: %s", strings.Join(script, "; "))
					lc.c.Dump()
					Failf("client %q: %d messages are unacknowledged but the bouncer asked to acknowledge %d", name, len(lc.pend), len(toks))
				}
				cnt := r.Intn(len(toks) + 1)
				script = append(script, fmt.Sprintf("ack %q %d", name, cnt))
				lc.c.AckSome(toks[:cnt])
				for _, p := range lc.pend[:cnt] {
					m.ack(name, p.target, p.idx)
				}
				lc.pend = lc.pend[cnt:]
				lc.c.Sync()
			}
		case k == 20: // the network connection is lost
			nconn := up.NumConns()
			uc.Close()
			up.Conn(nconn)
			conn()
			script = append(script, "reconnect")
		case k == 21: // the network's settings are changed
			nconn := up.NumConns()
			nr++
			if _, ok := w.Admin(fmt.Sprintf("user run user network update net -realname 'Real %d'", nr)); !ok {
				panic(Inconclusive{"network update refused"})
			}
			up.Conn(nconn)
			conn()
			script = append(script, "network update")
		case k >= 23: // a client of the other network, or of none
			key := Pick(r, names) + Pick(r, []string{"@side", "@"})
			name, net, _ := strings.Cut(key, "@")
			if c := asides[key]; c != nil {
				c.CloseWait()
				delete(asides, key)
				w.WaitDownstreams(int64(len(live) + len(asides)))
			} else if c := w.Connect(ClientOpts{User: "user", Network: net, Client: name}); true {
				asides[key] = c
			}
			script = append(script, fmt.Sprintf("toggle %q", key))
		case k == 22: // the network goes away, or comes back
			nconn := up.NumConns()
			down = !down
			up.Mute.Store(down)
			script = append(script, fmt.Sprintf("down %v", down))
			if down {
				uc.Close()
				up.Conn(nconn)
				nconn++
			} else {
				up.CloseAll()
				up.Conn(nconn)
				conn()
			}
		default:
			if store == "memory" {
				continue
			}
			script = append(script, "restart")
			nconn := up.NumConns()
			w.Restart()
			for _, lc := range live {
				lc.c.WaitClosed("restart")
			}
			live = map[string]*p03Client{}
			for name, c := range asides {
				c.WaitClosed("restart")
				delete(asides, name)
			}
			up.Conn(nconn)
			if !down {
				conn()
			}
			restarted++
		}
	}
	for _, name := range names {
		if live[name] == nil {
			connect(name)
		}
	}
	if len(script) > 12 {
		t.Sample("%s store: %s ...", store, strings.Join(script[:12], "; "))
	}
	w.CheckNoPanic()
}

// p03Flow: clients come and go while messages flow; what a client name sees
// over all its sessions must be gap-free.
func p03Flow(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db"})
	w := NewWorld(t, store)
	up := NewUpstream(t, "net")
	up.Caps = Pick(r, upCapSets)
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#one")
	w.Start()
	uc := up.Ready(0)
	uc.Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
	uc.Sync()
	uid := fmt.Sprintf("f%d", t.Case.Seed%1000)
	var seq int64
	send := func(k int) {
		var lines []string
		for i := 0; i < k; i++ {
			s := atomic.AddInt64(&seq, 1) - 1
			lines = append(lines, fmt.Sprintf(":alice!a@h PRIVMSG #one :<%s:%d>", uid, s))
		}
		uc.Send(lines...)
	}
	// make every client name known first
	nclients := 1
	var fs []func()
	for i := 0; i < nclients; i++ {
		c := w.Connect(ClientOpts{User: "user", Network: "net", Client: fmt.Sprintf("c%d", i), Ack: true})
		send(1)
		uc.Sync()
		c.Sync()
		c.Sync()
		_, seqs := payloadLines(c.Lines(), uid)
		last := seqs[len(seqs)-1]
		c.CloseWait()
		seed := r.Int63()
		i := i
		fs = append(fs, func() {
			acked := last // confirmed
			seen := last
			for it := 0; it < 12; it++ {
				caps := []string{}
				if (seed>>uint(it))&1 == 1 {
					caps = []string{"batch", "server-time", "message-tags"}
				}
				c := w.Connect(ClientOpts{User: "user", Network: "net", Client: fmt.Sprintf("c%d", i), Ack: true, Caps: caps})
				for j := 0; j < int(seed>>uint(it))&3; j++ {
					c.Sync()
				}
				confirmed := -1
				if (seed>>uint(it+5))&1 == 1 {
					c.SetAck(false)
					m := c.Mark() // what arrives from here on may stay unacknowledged
					c.AckAll()
					c.Sync()
					_, sq := payloadLines(c.Since(0)[:m], uid)
					if len(sq) > 0 {
						confirmed = sq[len(sq)-1]
						// the ping of the last message may not have arrived before m
						confirmed--
					}
				}
				c.CloseWait()
				// the bouncer must have noticed the departure before the next arrival
				w.WaitDownstreams(1)
				_, seqs := payloadLines(c.Lines(), uid)
				for k := range seqs {
					if k > 0 && seqs[k] != seqs[k-1]+1 {
						c.Dump()
						Failf("%s: message %d follows message %d in one session", c.Name, seqs[k], seqs[k-1])
					}
				}
				if len(seqs) > 0 {
					if seqs[0] > seen+1 {
						c.Dump()
						Failf("%s: messages %d..%d were never delivered: last session ended at %d, this one starts at %d", c.Name, seen+1, seqs[0]-1, seen, seqs[0])
					}
					if seqs[0] <= acked {
						c.Dump()
						Failf("%s: message %d was delivered again although messages up to %d were acknowledged", c.Name, seqs[0], acked)
					}
					if l := seqs[len(seqs)-1]; l > seen {
						seen = l
					}
				}
				if confirmed > acked {
					acked = confirmed
				}
				t.Count("flow sessions checked", 1)
				t.Count("replayed messages checked", len(seqs))
				t.State("flow|%s|%d|%v", store, len(seqs), caps)
			}
		})
	}
	w.WaitDownstreams(0)
	w.Connect(ClientOpts{User: "user", Network: "net", Client: "desk", Ack: true, Caps: Subset(r, []string{"batch", "server-time", "message-tags", "echo-message"}, 0.6)})
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
			}
			send(3)
			if !uc.TrySync() {
				return
			}
		}
	}()
	func() {
		defer func() { close(stop); <-done }()
		guarded(fs...)
	}()
	w.CheckNoPanic()
}

// p03Days: messages spread over several days; the network supplies their time.
func p03Days(t *T) {
	r := t.Rng
	store := Pick(r, []string{"fs", "db"})
	w := NewWorld(t, store)
	up := NewUpstream(t, "net")
	up.Caps = []string{"server-time", "message-tags"}
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#one")
	w.Start()
	uc := up.Ready(0)
	uc.Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
	uc.Sync()
	uid := fmt.Sprintf("d%d", t.Case.Seed%1000)
	m := &p03Model{msgs: map[string][]string{}, pos: map[string]map[string]int{}}
	c := w.Connect(ClientOpts{User: "user", Network: "net", Client: "c"})
	when := time.Now().Add(-time.Duration(r.Intn(20*24)) * time.Hour)
	var pend []p03Pend
	seq := 0
	send := func(k int) {
		for i := 0; i < k; i++ {
			seq++
			when = when.Add(time.Duration(r.Intn(18*3600)) * time.Second)
			if when.After(time.Now()) {
				when = time.Now()
			}
			text := fmt.Sprintf("<%s:%d> x", uid, seq)
			tg, from := "#one", "alice"
			if seq == 2 || r.Intn(3) == 0 && seq != 1 {
				tg, from = uc.CurNick(), "bob"
			}
			uc.Sendf("@time=%s :%s!a@h PRIVMSG %s :%s", when.UTC().Format("2006-01-02T15:04:05.000Z"), from, tg, text)
			if tg != "#one" {
				tg = from
			}
			pend = append(pend, p03Pend{tg, m.add(tg, "PRIVMSG "+text)})
		}
		uc.Sync()
	}
	// The position in each conversation is set by an acknowledgement: with
	// times supplied by the network, "the present" is not a position.
	send(2 + r.Intn(12))
	c.Sync()
	toks := c.Pending()
	if len(toks) != len(pend) {
		Failf("%d messages are unacknowledged but the bouncer asked to acknowledge %d", len(pend), len(toks))
	}
	cnt := 2 + r.Intn(len(toks)-1)
	c.AckSome(toks[:cnt])
	for _, p := range pend[:cnt] {
		m.ack("c", p.target, p.idx)
	}
	c.Sync()
	if r.Intn(2) == 0 {
		send(r.Intn(5))
	}
	if r.Intn(2) == 0 {
		c.CloseWait()
		w.WaitDownstreams(0)
		send(r.Intn(15))
	}
	if r.Intn(2) == 0 {
		k := up.NumConns()
		w.Restart()
		uc = up.Ready(k)
		uc.Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
		uc.Sync()
		send(r.Intn(6))
	}
	c.CloseWait()
	w.WaitDownstreams(0)
	due := m.due("c")
	c = w.Connect(ClientOpts{User: "user", Network: "net", Client: "c", Caps: Subset(r, []string{"batch", "server-time"}, 0.5)})
	defer func() {
		if v := recover(); v != nil {
			c.Dump()
			uc.Dump()
			panic(v)
		}
	}()
	checkBacklog(t, store+" store", c.Lines(), uc.CurNick(), uid, due)
	t.State("days|%s|%d|%d", store, len(due["#one"]), len(due["bob"]))
	t.Count("registrations checked", 1)
	w.CheckNoPanic()
}
