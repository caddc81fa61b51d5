package checks

import (
	"fmt"
	"strings"
	"sync"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P02", Level: "exploration",
		Rule: "one execution = one bouncer, 2-4 clients of one user sending uniquely numbered PRIVMSG/NOTICE lines concurrently to channels, nicks and target lists, with a random upstream capability set (with/without echo, labels, tags) and random client capability sets; a situation is (upstream caps, message kind, sender echo, receiver caps)",
		Cases: func(e *Env) []Case {
			return Repeat(e, "send", e.N(1600, 20000), p02Send)
		},
	})
}

// guarded runs functions concurrently and re-panics the first panic.
func guarded(fs ...func()) {
	var wg sync.WaitGroup
	errs := make(chan interface{}, len(fs))
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					errs <- v
				}
			}()
			f()
		}()
	}
	wg.Wait()
	select {
	case v := <-errs:
		panic(v)
	default:
	}
}

type outMsg struct {
	cmd     string
	targets []string
	text    string
	label   string
	tags    string
}

func (m outMsg) line() string {
	s := m.cmd + " " + strings.Join(m.targets, ",") + " :" + m.text
	var tags []string
	if m.tags != "" {
		tags = append(tags, m.tags)
	}
	if m.label != "" {
		tags = append(tags, "label="+m.label)
	}
	if len(tags) > 0 {
		s = "@" + strings.Join(tags, ";") + " " + s
	}
	return s
}

// histKey identifies a message in history, where the store may have folded the
// case of the target.
func histKey(l Line) string { return l.Command + " " + strings.ToLower(l.P(0)) + " " + l.P(1) }

func key(l Line) string { return l.Command + " " + l.P(0) + " " + l.P(1) }

func p02Send(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db"})
	w := NewWorld(t, store)
	up := NewUpstream(t, "net")
	capSets := [][]string{
		nil,
		{"message-tags", "server-time"},
		{"echo-message"},
		{"echo-message", "message-tags"},
		{"message-tags", "batch", "labeled-response"},
		{"message-tags", "batch", "labeled-response", "echo-message", "server-time"},
		{"batch", "labeled-response", "echo-message", "message-tags"},
	}
	up.Caps = Pick(r, capSets)
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	chans := []string{"#one", "#Two"}
	for _, ch := range chans {
		w.AddChannel(n, ch)
	}
	w.Start()
	uc := up.Ready(0)
	uc.Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
	uc.Sync()

	nc := 2 + r.Intn(3)
	var cls []*Client
	plans := make([][]outMsg, nc)
	for i := 0; i < nc; i++ {
		caps := Subset(r, []string{"message-tags", "server-time", "batch", "echo-message", "labeled-response", "account-tag", "draft/chathistory"}, Pick(r, []float64{0, 0.5, 0.9}))
		cls = append(cls, w.Connect(ClientOpts{User: "user", Network: "net", Client: fmt.Sprintf("c%d", i), Caps: caps, Ack: true}))
	}
	uid := fmt.Sprintf("o%d", t.Case.Seed%1000)
	for i := range cls {
		for j, m := 0, r.Intn(30); j < m; j++ {
			o := outMsg{cmd: "PRIVMSG", text: fmt.Sprintf("<%s-%d:%d> %s", uid, i, j, RandText(r))}
			if r.Intn(4) == 0 {
				o.cmd = "NOTICE"
			}
			if r.Intn(6) == 0 {
				o.text = fmt.Sprintf("\x01ACTION <%s-%d:%d>\x01", uid, i, j)
			}
			pool := []string{"#one", "#Two", "alice", "Bob", "#unjoined", "@#one", "$srv.example"}
			o.targets = []string{Pick(r, pool)}
			if r.Intn(5) == 0 {
				o.targets = append(o.targets, Pick(r, []string{"carol", "dave"}))
				if r.Intn(2) == 0 {
					o.targets = append(o.targets, "erin")
				}
			}
			if cls[i].Caps["message-tags"] && r.Intn(3) == 0 {
				o.tags = fmt.Sprintf("+x=v%d", j)
			}
			if cls[i].Caps["labeled-response"] && r.Intn(3) == 0 {
				o.label = fmt.Sprintf("L%d", j)
			}
			plans[i] = append(plans[i], o)
		}
	}
	upFrom := uc.Mark()
	froms := make([]int, nc)
	var fs []func()
	for i, c := range cls {
		i, c := i, c
		froms[i] = c.Mark()
		chunk := 1 + r.Intn(6)
		fs = append(fs, func() {
			for j := 0; j < len(plans[i]); j += chunk {
				var lines []string
				for k := j; k < j+chunk && k < len(plans[i]); k++ {
					lines = append(lines, plans[i][k].line())
				}
				c.Send(lines...)
				if j%4 == 0 {
					c.Sync()
				}
			}
			c.Sync()
		})
	}
	guarded(fs...)
	Settle([]*UpConn{uc}, cls)

	// 1. what the network received
	var order []Line
	owner := []int{}
	perClient := make([][]string, nc)
	for _, l := range uc.Since(upFrom) {
		if l.Command != "PRIVMSG" && l.Command != "NOTICE" {
			continue
		}
		who := -1
		for i := range cls {
			if uidSeq(l.P(1), fmt.Sprintf("%s-%d", uid, i)) >= 0 {
				who = i
			}
		}
		if who < 0 {
			Failf("the network received a message nobody sent: %q", l.Raw)
		}
		order = append(order, l)
		owner = append(owner, who)
		perClient[who] = append(perClient[who], key(l))
		if !uc.HasCap("message-tags") && len(l.Tags) > 0 {
			Failf("tags sent to a network without message-tags: %q", l.Raw)
		}
		if l.Prefix != nil && l.Prefix.Name != "" {
			Failf("the bouncer sent a prefixed message to the network: %q", l.Raw)
		}
	}
	for i := range cls {
		var want []string
		for _, o := range plans[i] {
			for _, tg := range o.targets {
				want = append(want, o.cmd+" "+tg+" "+o.text)
			}
		}
		if strings.Join(want, "\n") != strings.Join(perClient[i], "\n") {
			cls[i].Dump()
			uc.Dump()
			for k := 0; k < len(want) || k < len(perClient[i]); k++ {
				if k >= len(want) || k >= len(perClient[i]) || want[k] != perClient[i][k] {
					Failf("message stream of %s at the network differs at %d: sent %d, got %d: want %q", cls[i].Name, k, len(want), len(perClient[i]), at(want, k)+" | got "+at(perClient[i], k))
				}
			}
		}
		t.Count("messages checked at the network", len(want))
	}

	// 2. what the clients received
	nick := uc.CurNick()
	for i, c := range cls {
		var want, got []string
		for k, l := range order {
			if owner[k] != i || c.Caps["echo-message"] {
				want = append(want, key(l))
			}
		}
		for _, l := range c.Since(froms[i]) {
			if l.Command != "PRIVMSG" && l.Command != "NOTICE" || !strings.Contains(l.P(1), "<"+uid+"-") {
				continue
			}
			if l.Prefix == nil || l.Prefix.Name != nick {
				Failf("%s received a copy that is not attributed to the user: %q", c.Name, l.Raw)
			}
			got = append(got, key(l))
		}
		// A server-mask target is not a conversation; with upstream echo the
		// copy comes from the network like any other.
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			c.Dump()
			for k := 0; k < len(want) || k < len(got); k++ {
				if at(want, k) != at(got, k) {
					Failf("%s (echo-message=%v, upstream caps %v) received %d copies, want %d; first difference at %d: want %q got %q", c.Name, c.Caps["echo-message"], up.Caps, len(got), len(want), k, at(want, k), at(got, k))
				}
			}
		}
		t.Count("copies checked at clients", len(want))
		t.State("%v|%v|%v|%d", up.Caps, c.Caps, store, len(plans[i]))
	}

	// 3. history has each message once (fs and db support history queries)
	if store != "memory" {
		hc := w.Connect(ClientOpts{User: "user", Network: "net", Client: "hist", Caps: []string{"draft/chathistory", "batch", "server-time", "message-tags"}})
		for _, tg := range []string{"#one", "#Two", "alice", "Bob", "carol", "dave", "erin", "#unjoined"} {
			var want, got []string
			for _, l := range order {
				if strings.TrimLeft(l.P(0), "@") == tg && (l.P(0) == tg || uc.HasCap("echo-message")) {
					want = append(want, histKey(l))
				}
			}
			from := hc.Mark()
			hc.Send("CHATHISTORY LATEST " + tg + " * 1000")
			end := hc.Sync()
			for _, l := range hc.Since(from)[:end-from] {
				if l.Command == "PRIVMSG" || l.Command == "NOTICE" {
					got = append(got, histKey(l))
				}
			}
			if tg == "#one" {
				// status-prefixed messages may be recorded under either name
				want, got = dropStatus(want), dropStatus(got)
			}
			if strings.Join(want, "\n") != strings.Join(got, "\n") {
				hc.Dump()
				Failf("history of %s has %d entries, want %d (upstream caps %v, store %s): first want %q got %q", tg, len(got), len(want), up.Caps, store, at(diffAt(want, got), 0), at(diffAt(want, got), 1))
			}
			t.Count("history entries checked", len(want))
		}
	}
	t.Sample("upstream caps %v, store %s, %d clients, %d messages at the network", up.Caps, store, nc, len(order))
	w.CheckNoPanic()
}

func dropStatus(l []string) []string {
	var out []string
	for _, s := range l {
		if f := strings.SplitN(s, " ", 3); len(f) > 1 && strings.HasPrefix(f[1], "@") {
			continue
		}
		out = append(out, s)
	}
	return out
}

func diffAt(a, b []string) []string {
	for k := 0; k < len(a) || k < len(b); k++ {
		if at(a, k) != at(b, k) {
			return []string{at(a, k), at(b, k)}
		}
	}
	return nil
}

func at(l []string, i int) string {
	if i < len(l) {
		return l[i]
	}
	return "(none)"
}
