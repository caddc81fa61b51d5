package checks

import (
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P08", Level: "exploration",
		Rule:   "one execution = a random history of marker updates (older, newer, equal, future, invalid) and queries by up to 4 clients with different capabilities on two networks and several conversations, with joins, attaches and restarts; every reply, broadcast and join burst is compared with a max-register; plus unfenced concurrent updates whose transcripts must be monotone and agree at the end; plus markers set and asked for while the network is away; a situation is (step, relation of the timestamp, capabilities)",
		Assume: []string{"the bouncer and the harness share the clock"},
		Cases: func(e *Env) []Case {
			var l []Case
			l = append(l, Repeat(e, "seq", e.N(500, 10000), p08Seq)...)
			l = append(l, Repeat(e, "conc", e.N(250, 5000), p08Conc)...)
			l = append(l, Repeat(e, "outage", e.N(200, 4000), p08Outage)...)
			return l
		},
	})
}

type marker struct{ target, val string }

func markersOf(t *T, c *Client, ls []Line) []marker {
	var out []marker
	rm, rd := c.Caps["draft/read-marker"], c.Caps["soju.im/read"]
	for _, l := range ls {
		if l.Command != "MARKREAD" && l.Command != "READ" {
			continue
		}
		if l.Command == "MARKREAD" && !rm || l.Command == "READ" && (rm || !rd) {
			Failf("%s: got %q without the capability for it", c.Name, l.Raw)
		}
		out = append(out, marker{strings.ToLower(l.P(0)), strings.TrimPrefix(l.P(1), "timestamp=")})
	}
	return out
}

type p08Client struct {
	c    *Client
	net  int
	mark int
	want []marker
	can  bool
}

func p08Seq(t *T) {
	r := t.Rng
	w := NewWorld(t, Pick(r, []string{"memory", "db"}))
	u := w.AddUser("user", false)
	var ups []*Upstream
	for i := 0; i < 2; i++ {
		up := NewUpstream(t, fmt.Sprintf("net%d", i))
		up.ISupport = []string{"CASEMAPPING=ascii"}
		up.Start()
		ups = append(ups, up)
		n := w.AddNetwork(u, up.Name, up)
		w.AddChannel(n, "#one")
		w.AddChannel(n, "#Two")
	}
	w.Start()
	ready := func() {
		for _, up := range ups {
			uc := up.Ready(up.NumConns() - 1)
			for _, ch := range []string{"#one", "#Two"} {
				uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" && l.P(0) == ch })
			}
			uc.Sync()
		}
	}
	for _, up := range ups {
		up.Conn(0)
	}
	ready()
	model := []map[string]string{{}, {}} // network -> target -> value
	get := func(net int, tg string) string {
		if v, ok := model[net][tg]; ok {
			return v
		}
		return "*"
	}
	detached := []map[string]bool{{}, {}}
	var live []*p08Client
	connect := func() {
		net := r.Intn(2)
		caps := Pick(r, [][]string{{"draft/read-marker"}, {"soju.im/read"}, {"draft/read-marker", "soju.im/read", "server-time", "message-tags"}, {}, {"draft/read-marker", "draft/chathistory", "batch"}})
		pc := &p08Client{net: net, c: w.Connect(ClientOpts{User: "user", Network: ups[net].Name, Client: fmt.Sprintf("c%d", r.Intn(3)), Caps: caps, Ack: true})}
		pc.can = pc.c.Caps["draft/read-marker"] || pc.c.Caps["soju.im/read"]
		got := map[string]string{}
		for _, m := range markersOf(t, pc.c, pc.c.Lines()) {
			if _, ok := got[m.target]; ok {
				Failf("%s: marker of %s announced twice", pc.c.Name, m.target)
			}
			got[m.target] = m.val
		}
		for _, tg := range []string{"#one", "#two"} {
			want, ok := get(net, tg), pc.can && !detached[net][tg]
			if g, has := got[tg]; has != ok || ok && g != want {
				pc.c.Dump()
				Failf("%s: a joining client was given marker %q (announced %v) for %s, want %q (%v)", pc.c.Name, g, has, tg, want, ok)
			}
			delete(got, tg)
		}
		if len(got) > 0 {
			Failf("%s: unexpected markers %v", pc.c.Name, got)
		}
		pc.mark = pc.c.Mark()
		live = append(live, pc)
		t.State("connect|%v|%v", caps, model[net]["#one"] != "")
	}
	connect()
	connect()
	var script []string
	check := func(step string) {
		for _, pc := range live {
			pc.c.Sync()
			pc.c.Sync()
		}
		for _, pc := range live {
			ls := pc.c.Since(pc.mark)
			pc.mark += len(ls)
			got := markersOf(t, pc.c, ls)
			want := pc.want
			pc.want = nil
			if !pc.can {
				want = nil
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				pc.c.Dump()
				t.Logf("history: %s", strings.Join(script, "; "))
				Failf("%s after %s: markers %v, want %v", pc.c.Name, step, got, want)
			}
			t.Count("marker messages compared", len(want))
		}
	}
	targets := []string{"#one", "#two", "alice", "bob", "#unjoined"}
	base := time.Now().Add(-48 * time.Hour).Truncate(time.Millisecond)
	for s, steps := 0, 30+r.Intn(30); s < steps; s++ {
		k := r.Intn(24)
		step := ""
		var pc *p08Client
		if len(live) > 0 {
			pc = Pick(r, live)
		}
		tg := Pick(r, targets)
		cmd := Pick(r, []string{"MARKREAD", "MARKREAD", "READ"})
		tgs := respell(t, tg)
		switch {
		case k < 3 && len(live) < 5:
			connect()
			step = "connect"
		case k < 4 && len(live) > 1:
			i := r.Intn(len(live))
			live[i].c.CloseWait()
			live = append(live[:i], live[i+1:]...)
			w.WaitDownstreams(int64(len(live)))
			step = "leave"
		case k < 15 && pc != nil:
			cur := get(pc.net, tg)
			var ts time.Time
			rel := ""
			ct, cerr := time.Parse(isoMs, cur)
			switch j := r.Intn(6); {
			case j == 0 && cerr == nil:
				ts, rel = ct, "equal"
			case j == 1 && cerr == nil:
				ts, rel = ct.Add(-time.Duration(1+r.Intn(100000))*time.Millisecond), "older"
			case j == 2 && cerr == nil:
				ts, rel = ct.Add(time.Millisecond), "newer by 1 ms"
			case j == 3:
				ts, rel = time.Now().Add(time.Duration(1+r.Intn(1000000))*time.Second), "future"
			default:
				ts, rel = base.Add(time.Duration(r.Intn(24*3600*1000))*time.Millisecond), "random"
			}
			if ts.After(time.Now().Add(-time.Second)) && rel != "future" {
				continue // too close to the present to know whether it is capped
			}
			step = fmt.Sprintf("%s %s %s", cmd, tgs, rel)
			if rel == "future" {
				time.Sleep(2 * time.Millisecond) // not in the millisecond of the current value
			}
			before := time.Now()
			pc.c.Sendf("%s %s timestamp=%s", cmd, tgs, iso(ts))
			pc.c.Sync()
			after := time.Now()
			if rel == "future" {
				// the accepted value is the time it was set
				found := ""
				for _, q := range live {
					if q.net != pc.net || !q.can {
						continue
					}
					q.c.Sync()
					for _, m := range markersOf(t, q.c, q.c.Since(q.mark)) {
						if m.target == tg {
							found = m.val
						}
					}
				}
				if found == "" {
					// nobody was told; ask through a new client
					c := w.Connect(ClientOpts{User: "user", Network: ups[pc.net].Name, Client: "asker", Caps: []string{"draft/read-marker"}})
					mk := c.Mark()
					c.Send("MARKREAD " + tg)
					c.Sync()
					ms := markersOf(t, c, c.Since(mk))
					if len(ms) != 1 {
						Failf("query for %s answered %v", tg, ms)
					}
					found = ms[0].val
					c.CloseWait()
					w.WaitDownstreams(int64(len(live)))
				}
				ft, err := time.Parse(isoMs, found)
				if err != nil || ft.After(after) || ft.Before(before.Truncate(time.Millisecond)) && found != cur {
					Failf("%s: marker set in the future at %s..%s became %q", pc.c.Name, iso(before), iso(after), found)
				}
				if found != cur {
					ts = ft
				} else {
					ts = ct
				}
			}
			if cerr != nil || ts.After(ct) {
				model[pc.net][tg] = iso(ts)
				for _, q := range live {
					if q.net == pc.net {
						q.want = append(q.want, marker{tg, iso(ts)})
					}
				}
			} else {
				pc.want = append(pc.want, marker{tg, cur})
			}
			t.State("set|%s|%v|%s", rel, cerr == nil, cmd)
		case k < 18 && pc != nil:
			step = "query " + tgs
			pc.c.Sendf("%s %s", cmd, tgs)
			pc.want = append(pc.want, marker{tg, get(pc.net, tg)})
		case k < 19 && pc != nil:
			bad := Pick(r, []string{"timestamp=", "timestamp=now", "msgid=1", "*", "2024-01-01T00:00:00.000Z", "timestamp=2024-13-01T00:00:00.000Z", "timestamp"})
			step = "invalid " + bad
			mk := pc.c.Mark()
			pc.c.Sendf("MARKREAD %s %s", tgs, bad)
			pc.c.Sync()
			if len(pc.c.Got(mk, "FAIL")) != 1 {
				pc.c.Dump()
				Failf("%s: invalid marker %q was not refused", pc.c.Name, bad)
			}
		case k < 21 && pc != nil:
			ch := Pick(r, []string{"#one", "#two"})
			if detached[pc.net][ch] {
				step = "attach " + ch
				pc.c.Send("JOIN " + ch)
				delete(detached[pc.net], ch)
				for _, q := range live {
					if q.net == pc.net {
						q.want = append(q.want, marker{ch, get(pc.net, ch)})
					}
				}
			} else {
				step = "detach " + ch
				pc.c.Sendf("PART %s :detach", ch)
				detached[pc.net][ch] = true
			}
			pc.c.Sync()
		case k == 22:
			step = "restart"
			var ns []int
			for _, up := range ups {
				ns = append(ns, up.NumConns())
			}
			w.Restart()
			live = nil
			for i, up := range ups {
				up.Conn(ns[i])
			}
			ready()
			connect()
		default:
			continue
		}
		script = append(script, step)
		check(step)
		t.Count("steps checked", 1)
	}
	t.Sample("%s", strings.Join(script[:min(len(script), 12)], "; "))
	w.CheckNoPanic()
}

// p08Conc: unfenced updates by several clients at once.
func p08Conc(t *T) {
	r := t.Rng
	w := NewWorld(t, "memory")
	up := NewUpstream(t, "net")
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#one")
	w.Start()
	uc := up.Ready(0)
	uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" })
	uc.Sync()
	var cs []*Client
	for i, k := 0, 2+r.Intn(3); i < k; i++ {
		cs = append(cs, w.Connect(ClientOpts{User: "user", Network: "net", Client: fmt.Sprint(i), Caps: Pick(r, [][]string{{"draft/read-marker"}, {"soju.im/read"}})}))
	}
	base := time.Now().Add(-24 * time.Hour).Truncate(time.Millisecond)
	sent := map[string]bool{}
	max := ""
	var fs []func()
	for _, c := range cs {
		c := c
		var lines []string
		for i := 0; i < 25; i++ {
			v := iso(base.Add(time.Duration(r.Intn(3600000)) * time.Millisecond))
			sent[v] = true
			if v > max {
				max = v
			}
			lines = append(lines, "MARKREAD #one timestamp="+v)
			if r.Intn(4) == 0 {
				lines = append(lines, "MARKREAD #one")
			}
		}
		chunk := 1 + r.Intn(8)
		fs = append(fs, func() {
			for i := 0; i < len(lines); i += chunk {
				c.Send(lines[i:min(i+chunk, len(lines))]...)
				if chunk%2 == 0 {
					c.Sync()
				}
			}
			c.Sync()
		})
	}
	guarded(fs...)
	for _, c := range cs {
		c.Sync()
	}
	var final string
	for i, c := range cs {
		prev := ""
		for _, m := range markersOf(t, c, c.Since(c.RegMark)) {
			if m.val != "*" && !sent[m.val] {
				Failf("%s: marker %q was never set", c.Name, m.val)
			}
			if m.val == "*" && prev != "" || m.val != "*" && m.val < prev {
				c.Dump()
				Failf("%s: marker went from %q to %q", c.Name, prev, m.val)
			}
			if m.val != "*" {
				prev = m.val
			}
			t.Count("marker messages compared", 1)
		}
		if i > 0 && prev != final || prev != max {
			c.Dump()
			Failf("%s: final marker %q, want %q", c.Name, prev, max)
		}
		final = prev
	}
	t.State("conc|%d", len(cs))
	w.CheckNoPanic()
}

// p08Outage: markers while the network is away, and before it was ever there.
func p08Outage(t *T) {
	r := t.Rng
	w := NewWorld(t, Pick(r, []string{"memory", "db", "fs"}))
	up := NewUpstream(t, "net")
	up.ISupport = []string{"CASEMAPPING=ascii"}
	var away atomic.Bool
	up.OnConn = func(c *UpConn) {
		if away.Load() {
			c.Peer.Close()
		}
	}
	away.Store(r.Intn(3) == 0)
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#one")
	w.Start()
	joined := func() {
		c := up.SyncLive(1)
		c.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" && l.P(0) == "#one" })
		c.Sync()
	}
	if !away.Load() {
		joined()
	}
	var cs []*Client
	for i := 0; i < 2; i++ {
		cs = append(cs, w.Connect(ClientOpts{User: "user", Network: "net", Client: fmt.Sprint(i), Caps: []string{"draft/read-marker"}}))
	}
	model := map[string]time.Time{}
	base := time.Now().Add(-48 * time.Hour).Truncate(time.Millisecond)
	for s := 0; s < 25; s++ {
		switch k := r.Intn(8); k {
		case 0:
			if away.Load() {
				away.Store(false)
				joined()
			} else {
				away.Store(true)
				c := up.SyncLive(1)
				from := cs[0].Mark()
				c.Peer.Close()
				cs[0].Wait(from, "notice of the loss", func(l Line) bool {
					return l.Command == "NOTICE" && strings.Contains(l.P(1), "disconnected")
				})
			}
			for _, c := range cs {
				c.Sync()
			}
			continue
		}
		c := Pick(r, cs)
		tg := Pick(r, []string{"#one", "alice", "#other"})
		cur, has := model[tg]
		want := "*"
		others := false
		if has {
			want = iso(cur)
		}
		cmd := "MARKREAD " + tg
		if r.Intn(4) != 0 {
			ts := base.Add(time.Duration(r.Intn(24*3600*1000)) * time.Millisecond)
			if has && r.Intn(3) == 0 {
				ts = cur.Add(time.Duration(r.Intn(3)-1) * time.Millisecond)
			}
			cmd += " timestamp=" + iso(ts)
			if !has || ts.After(cur) {
				model[tg], want, others = ts, iso(ts), true
			}
		}
		var from []int
		for _, x := range cs {
			from = append(from, x.Mark())
		}
		c.Send(cmd)
		c.Sync()
		for i, x := range cs {
			x.Sync()
			got := fmt.Sprint(markersOf(t, x, x.Since(from[i])))
			exp := fmt.Sprint([]marker{{tg, want}})
			if x != c && !others {
				exp = "[]"
			}
			if got != exp {
				x.Dump()
				Failf("%s: after %q by %s (network away: %v): markers %s, want %s", x.Name, cmd, c.Name, away.Load(), got, exp)
			}
		}
		t.Count("markers set or asked for around outages", 1)
		t.State("outage|%v|%v|%v", away.Load(), has, others)
	}
	w.CheckNoPanic()
}
