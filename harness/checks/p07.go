package checks

import (
	"fmt"
	"strings"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P07", Level: "exploration",
		Rule:   "one execution = a random history of detach (PART with reason, service, inactivity), attach (JOIN, service, rule), messages (plain, highlight, own), membership and topic events, rule changes, client arrivals and departures, network reconnections and restarts on two channels; after every step every client's new lines about the channels are compared with a state machine; a situation is (store, detached, relay rule, re-attach rule, step, client kind, missed count)",
		Assume: []string{"own messages in a detached channel may or may not be relayed by the message rule", "clients acknowledge every message before they leave"},
		Cases: func(e *Env) []Case {
			var l []Case
			l = append(l, Repeat(e, "rules", e.N(400, 8000), p07Rules)...)
			l = append(l, Repeat(e, "timer", e.N(32, 800), p07Timer)...)
			l = append(l, Repeat(e, "forced", e.N(20, 200), p07Forced)...)
			l = append(l, Repeat(e, "partial", e.N(40, 600), p07Partial)...)
			return l
		},
	})
}

type p07Msg struct {
	cmd, nick, text string
	hl, self        bool
}

type p07Chan struct {
	name            string
	detached        bool
	msgs            []p07Msg // all recorded
	detachedAt      int      // len(msgs) when detached
	relay, reattach string
	topic           string
}

func (ch *p07Chan) needsRelay(m p07Msg) bool {
	switch ch.relay {
	case "message":
		return true
	case "default", "highlight":
		return m.hl
	}
	return false
}

type p07Client struct {
	name string
	c    *Client
	hist bool // negotiated chathistory
	mark int
	seen bool // a message arrived while connected
	// expectation accumulated for the current step, per channel
	want map[string][]string
}

func (ch *p07Chan) direct(m p07Msg) string {
	return fmt.Sprintf("%s <%s> %s", m.cmd, m.nick, m.text)
}

func (ch *p07Chan) relayed(m p07Msg) string {
	s := fmt.Sprintf("relay <%s> %s", m.nick, m.text)
	if m.self {
		s = "?" + s
	}
	return s
}

// observe extracts what a client learnt about a channel.
func p07Observe(ls []Line, name, uid string) []string {
	var out []string
	for _, l := range ls {
		who := ""
		if l.Prefix != nil {
			who = l.Prefix.Name
		}
		switch l.Command {
		case "NOTICE", "PRIVMSG":
			if who == "BouncerServ" && strings.Contains(l.P(1), uid) && strings.Contains(l.P(1), name) {
				i := strings.Index(l.P(1), "<")
				out = append(out, "relay "+l.P(1)[i:])
			} else if strings.EqualFold(l.P(0), name) {
				out = append(out, fmt.Sprintf("%s <%s> %s", l.Command, who, l.P(1)))
			}
		case "JOIN", "PART", "TOPIC", "MODE", "KICK", "TAGMSG":
			if strings.EqualFold(l.P(0), name) {
				out = append(out, fmt.Sprintf("%s %s %s", l.Command, who, strings.Join(l.Params[1:], " ")))
			}
		case "332", "366", "324", "403", "442":
			if strings.EqualFold(l.P(1), name) {
				s := l.Command
				if l.Command == "332" {
					s += " " + l.P(2)
				}
				out = append(out, s)
			}
		case "353":
			if strings.EqualFold(l.P(2), name) {
				out = append(out, l.Command)
			}
		}
	}
	return out
}

func p07Rules(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db"})
	w := NewWorld(t, store)
	up := NewUpstream(t, "net")
	up.Caps = Pick(r, upCapSets)
	up.Members = func(string) []string { return []string{"alice", "+bob"} }
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	chans := []*p07Chan{{name: "#one", relay: "default", reattach: "default"}, {name: "#two", relay: "default", reattach: "default"}}
	for _, ch := range chans {
		w.AddChannel(n, ch.name)
	}
	w.Start()
	var uc *UpConn
	conn := func() {
		uc = up.Ready(up.NumConns() - 1)
		uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" && l.P(0) == "#two" })
		uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" && l.P(0) == "#one" })
		uc.Sync()
	}
	up.Conn(0)
	conn()
	uid := fmt.Sprintf("d%d", t.Case.Seed%10000)
	live := map[string]*p07Client{}
	left := map[string]map[string]int{} // client -> channel -> position
	kinds := []string{"plain", "desk", "hist"}
	var script []string
	say := func(format string, a ...interface{}) { script = append(script, fmt.Sprintf(format, a...)) }
	seq := 0

	detach := func(ch *p07Chan) {
		if ch.detached {
			return
		}
		ch.detached = true
		ch.detachedAt = len(ch.msgs)
		for _, lc := range live {
			lc.want[ch.name] = append(lc.want[ch.name], "PART user Detach")
		}
	}
	attach := func(ch *p07Chan) {
		if !ch.detached {
			return
		}
		ch.detached = false
		for _, lc := range live {
			wl := append(lc.want[ch.name], "JOIN user ")
			if ch.topic != "" {
				wl = append(wl, "332 "+ch.topic)
			}
			wl = append(wl, "353", "366")
			if !lc.hist {
				for _, m := range ch.msgs[ch.detachedAt:] {
					wl = append(wl, ch.direct(m))
				}
			}
			lc.want[ch.name] = wl
			t.State("attach|%s|%v|%s", store, lc.hist, sizeClass(len(ch.msgs)-ch.detachedAt))
		}
	}
	check := func(step string) {
		for _, c := range live {
			if c.hist {
				c.c.Sync()
			} else {
				c.c.SyncAck()
			}
		}
		for _, lc := range live {
			ls := lc.c.Since(lc.mark)
			lc.mark += len(ls)
			for _, ch := range chans {
				got := p07Observe(ls, ch.name, uid)
				want := lc.want[ch.name]
				delete(lc.want, ch.name)
				i := 0
				bad := ""
				for _, wn := range want {
					if strings.HasPrefix(wn, "?") {
						if i < len(got) && got[i] == wn[1:] {
							i++
						}
						continue
					}
					if i >= len(got) || got[i] != wn {
						bad = "missing " + wn
						break
					}
					i++
				}
				if bad == "" && i < len(got) {
					bad = "unexpected " + got[i]
				}
				if bad != "" {
					t.Logf("history: %s", strings.Join(script, "; "))
					lc.c.Dump()
					Failf("client %q after %s (%s store, %s detached=%v relay=%s reattach=%s): %q; got %q, want %q", lc.name, step, store, ch.name, ch.detached, ch.relay, ch.reattach, bad, got, want)
				}
				t.Count("channel events compared", len(want))
				t.State("%s|%v|%s|%s|%s|%v|%s", store, ch.detached, ch.relay, ch.reattach, strings.Fields(step)[0], lc.hist, sizeClass(len(want)))
			}
		}
		t.Count("steps checked", 1)
	}
	message := func(ch *p07Chan, m p07Msg) {
		if ch.detached && !m.self {
			if ch.needsRelay(m) {
				for _, lc := range live {
					lc.want[ch.name] = append(lc.want[ch.name], ch.relayed(m))
				}
			}
			if ch.reattach == "message" || ch.reattach == "highlight" && m.hl {
				attach(ch)
			}
		}
		ch.msgs = append(ch.msgs, m)
		for _, lc := range live {
			lc.seen = true
		}
		if !ch.detached {
			for _, lc := range live {
				lc.want[ch.name] = append(lc.want[ch.name], ch.direct(m))
			}
		}
	}
	connect := func(name string) {
		hist := name == "hist" && store != "memory"
		caps := []string{}
		if hist {
			caps = []string{"draft/chathistory", "batch", "message-tags", "server-time"}
		} else if r.Intn(2) == 0 {
			caps = []string{"batch", "server-time"}
		}
		lc := &p07Client{name: name, hist: hist, want: map[string][]string{}}
		lc.c = w.Connect(ClientOpts{User: "user", Network: "net", Client: name, Caps: caps})
		live[name] = lc
		for _, ch := range chans {
			var wl []string
			if !ch.detached {
				wl = append(wl, "JOIN user ")
				if ch.topic != "" {
					wl = append(wl, "332 "+ch.topic)
				}
				wl = append(wl, "353", "366")
			}
			if pos, ok := left[name][ch.name]; ok && !hist {
				for _, m := range ch.msgs[pos:] {
					if !ch.detached {
						wl = append(wl, ch.direct(m))
					} else if ch.needsRelay(m) {
						wl = append(wl, ch.relayed(m))
					}
				}
			}
			lc.want[ch.name] = wl
		}
	}
	depart := func(name string) {
		lc := live[name]
		if !lc.hist {
			lc.c.SyncAck()
		}
		lc.c.CloseWait()
		delete(live, name)
		w.WaitDownstreams(int64(len(live)))
		uc.Sync()
		if left[name] == nil && !lc.seen {
			return
		}
		if left[name] == nil {
			left[name] = map[string]int{}
		}
		for _, ch := range chans {
			left[name][ch.name] = len(ch.msgs)
		}
	}
	// every conversation has a message every client has acknowledged
	connect("plain")
	connect("desk")
	check("connect")
	for _, ch := range chans {
		m := p07Msg{cmd: "PRIVMSG", nick: "alice", text: uid + " first"}
		uc.Sendf(":alice!a@h PRIVMSG %s :%s", ch.name, m.text)
		message(ch, m)
	}
	uc.Sync()
	check("first messages")

	steps := 20 + r.Intn(25)
	for s := 0; s < steps; s++ {
		ch := Pick(r, chans)
		step := ""
		anyone := func() *p07Client {
			for _, k := range r.Perm(len(kinds)) {
				if lc := live[kinds[k]]; lc != nil {
					return lc
				}
			}
			return nil
		}
		lc := anyone()
		switch k := r.Intn(20); {
		case k < 2:
			name := Pick(r, kinds)
			if live[name] != nil {
				continue
			}
			step = "connect " + name
			connect(name)
		case k < 4:
			name := Pick(r, kinds)
			if live[name] == nil {
				continue
			}
			step = "leave " + name
			depart(name)
		case k < 6 && lc != nil:
			step = "detach " + ch.name
			if r.Intn(2) == 0 {
				lc.c.Sendf("PART %s :%s", ch.name, Pick(r, []string{"detach", "Detach", "DETACH"}))
			} else {
				rep := lc.c.Service("channel update " + ch.name + " -detached true")
				if len(rep) != 1 || !strings.Contains(rep[0], "updated channel") {
					Failf("channel update -detached refused: %q", rep)
				}
			}
			lc.c.Sync()
			detach(ch)
		case k < 8 && lc != nil:
			step = "attach " + ch.name
			if r.Intn(2) == 0 {
				lc.c.Send("JOIN " + ch.name)
			} else {
				lc.c.Service("channel update " + ch.name + " -detached false")
			}
			lc.c.Sync()
			attach(ch)
		case k < 15:
			step = "messages " + ch.name
			var lines []string
			for i, cnt := 0, 1+r.Intn(5); i < cnt; i++ {
				m := p07Msg{cmd: Pick(r, []string{"PRIVMSG", "PRIVMSG", "NOTICE"}), nick: Pick(r, []string{"alice", "bob"}), text: fmt.Sprintf("%s %d", uid, seq)}
				seq++
				switch r.Intn(5) {
				case 0:
					m.hl = true
					m.text = Pick(r, []string{"user: ", "hey user, ", "(user) "}) + m.text
				case 1:
					m.text = "superuser users " + m.text
				case 2:
					if r.Intn(2) == 0 {
						m.self, m.nick = true, "user"
						m.text = "user: " + m.text
					}
				}
				step += fmt.Sprintf(" %s/hl=%v/self=%v", m.cmd, m.hl, m.self)
				lines = append(lines, fmt.Sprintf(":%s!a@h %s %s :%s", m.nick, m.cmd, ch.name, m.text))
				message(ch, m)
			}
			uc.Send(lines...)
			uc.Sync()
		case k < 16:
			step = "events " + ch.name
			who := fmt.Sprintf("x%d", seq)
			seq++
			ch.topic = "topic " + who
			uc.Send(fmt.Sprintf(":%s!a@h JOIN %s", who, ch.name), fmt.Sprintf(":%s!a@h TOPIC %s :%s", who, ch.name, ch.topic), fmt.Sprintf(":alice!a@h MODE %s +v %s", ch.name, who), fmt.Sprintf(":%s!a@h PART %s :bye", who, ch.name))
			uc.Sync()
			if !ch.detached {
				for _, lc := range live {
					lc.want[ch.name] = append(lc.want[ch.name], "JOIN "+who+" ", "TOPIC "+who+" "+ch.topic, "MODE alice +v "+who, "PART "+who+" bye")
				}
			}
		case k < 18 && lc != nil:
			step = "rules " + ch.name
			relay := Pick(r, []string{"default", "none", "highlight", "message"})
			re := Pick(r, []string{"default", "none", "highlight", "message"})
			rep := lc.c.Service(fmt.Sprintf("channel update %s -relay-detached %s -reattach-on %s", ch.name, relay, re))
			if len(rep) != 1 || !strings.Contains(rep[0], "updated channel") {
				Failf("channel update refused: %q", rep)
			}
			ch.relay, ch.reattach = relay, re
		case k == 18 && store != "memory":
			step = "restart"
			for _, lc := range live {
				if !lc.hist {
					lc.c.SyncAck()
				}
			}
			for name := range live {
				depart(name)
			}
			nconn := up.NumConns()
			w.Restart()
			up.Conn(nconn)
			conn()
			for _, c := range chans {
				c.topic = ""
			}
		case k == 19:
			step = "reconnect"
			if len(live) > 0 {
				continue // clients see the disconnection of the network
			}
			nconn := up.NumConns()
			uc.Close()
			up.Conn(nconn)
			conn()
			for _, c := range chans {
				c.topic = ""
			}
		default:
			continue
		}
		say("%s", step)
		check(step)
	}
	for i := 0; i < up.NumConns(); i++ {
		if l := up.Conn(i).Got(0, "PART"); len(l) > 0 {
			t.Logf("history: %s", strings.Join(script, "; "))
			Failf("the bouncer left a channel although clients only detached: %q", l[0].Raw)
		}
	}
	if store != "memory" {
		c := w.Connect(ClientOpts{User: "user", Network: "net", Client: "final", Caps: []string{"draft/chathistory", "batch", "message-tags", "server-time"}})
		for _, ch := range chans {
			got, _, _ := queryBatch(c, fmt.Sprintf("CHATHISTORY LATEST %s * 1000", ch.name), "chathistory")
			var gs, ws []string
			for _, l := range got {
				gs = append(gs, fmt.Sprintf("%s <%s> %s", l.Command, l.Prefix.Name, l.P(1)))
			}
			for _, m := range ch.msgs {
				ws = append(ws, ch.direct(m))
			}
			if strings.Join(gs, "\n") != strings.Join(ws, "\n") {
				d := diffAt(ws, gs)
				t.Logf("history: %s", strings.Join(script, "; "))
				Failf("history of %s (%s store) differs: want %q, got %q", ch.name, store, d[0], d[1])
			}
		}
	}
	if len(script) > 10 {
		t.Sample("%s: %s ...", store, strings.Join(script[:10], "; "))
	}
	w.CheckNoPanic()
}

// p07Timer: detaching after inactivity.
func p07Timer(t *T) {
	r := t.Rng
	w := NewWorld(t, Pick(r, []string{"memory", "db"}))
	up := NewUpstream(t, "net")
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#one")
	w.Start()
	uc := up.Ready(0)
	uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" })
	uc.Sync()
	c := w.Connect(ClientOpts{User: "user", Network: "net", Ack: true})
	on := Pick(r, []string{"default", "none", "highlight", "message"})
	hl := r.Intn(2) == 0
	resets := on == "default" || on == "message" || on == "highlight" && hl
	text := "plain"
	if hl {
		text = "user: hi"
	}
	isDetach := func(l Line) bool { return l.Command == "PART" && l.P(0) == "#one" && l.P(1) == "Detach" }
	after := 1500 * time.Millisecond
	mark := c.Mark()
	start := time.Now()
	rep := c.Service(fmt.Sprintf("channel update #one -detach-on %s -detach-after %s", on, after))
	if len(rep) != 1 || !strings.Contains(rep[0], "updated") {
		Failf("channel update refused: %q", rep)
	}
	set := time.Now()
	if resets {
		// activity keeps the channel attached
		last := start
		ok := true
		for time.Since(start) < 2*after {
			uc.Sendf(":alice!a@h PRIVMSG #one :%s", text)
			uc.Sync()
			c.Sync()
			now := time.Now()
			if now.Sub(last) > after*3/4 {
				ok = false // the machine was too slow for a judgement
				break
			}
			for _, l := range c.Since(mark) {
				if isDetach(l) {
					Failf("the channel was detached after %v although there was activity (detach-on %s) within the last %v", now.Sub(start), on, now.Sub(last))
				}
			}
			last = now
			time.Sleep(after / 30)
		}
		if ok {
			t.Count("kept attached by activity", 1)
		} else {
			t.Count("too slow for a judgement", 1)
		}
	} else {
		// other messages do not: it is detached while they keep coming
		for {
			done := false
			for _, l := range c.Since(mark) {
				done = done || isDetach(l)
			}
			if done {
				break
			}
			if time.Since(set) > Watchdog/2 {
				c.Dump()
				Failf("the channel is still attached %v after the last activity (detach-on %s, detach-after %s), messages that do not count keep arriving", time.Since(set), on, after)
			}
			uc.Sendf(":alice!a@h PRIVMSG #one :%s", text)
			uc.Sync()
			c.Sync()
			time.Sleep(after / 30)
		}
	}
	// without activity the channel is detached
	i := c.Wait(mark, "detach", isDetach)
	if i < 0 {
		Failf("client closed")
	}
	if d := time.Since(set); d < after && !resets {
		Failf("detached %v after the rule was set, which says %v", d, after)
	}
	c.Sync()
	mark = c.Mark()
	uc.Sendf(":alice!a@h PRIVMSG #one :after detach")
	uc.Sync()
	c.Sync()
	for _, l := range c.Since(mark) {
		if l.P(0) == "#one" {
			Failf("message of the detached channel was delivered: %q", l.Raw)
		}
	}
	// stays detached after a restart; re-attaching works
	nconn := up.NumConns()
	w.Restart()
	uc = up.Ready(nconn)
	uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" })
	uc.Sync()
	c = w.Connect(ClientOpts{User: "user", Network: "net", Ack: true})
	for _, l := range c.Lines() {
		if l.Command == "JOIN" {
			Failf("the channel is attached again after a restart: %q", l.Raw)
		}
	}
	mark = c.Mark()
	c.Send("JOIN #one")
	c.Sync()
	joined := false
	for _, l := range c.Since(mark) {
		joined = joined || l.Command == "JOIN" && l.P(0) == "#one"
	}
	if !joined {
		Failf("the channel is not attached by a JOIN")
	}
	t.State("timer|%s|%v|%s", on, hl, w.Store)
	t.Count("detached by inactivity", 1)
	w.CheckNoPanic()
}

// p07Partial: attaching while the network has not completed the join yet.
func p07Partial(t *T) {
	r := t.Rng
	w := NewWorld(t, Pick(r, []string{"memory", "db", "fs"}))
	up := NewUpstream(t, "net")
	up.AutoJoin = false
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#one")
	w.Start()
	uc := up.Ready(0)
	uc.Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
	c := w.Connect(ClientOpts{User: "user", Network: "net", Ack: true})
	stage := r.Intn(4)
	stages := []string{
		fmt.Sprintf(":%s JOIN #one", uc.Prefix()),
		fmt.Sprintf(":net.example 353 %s = #one :@%s alice", uc.CurNick(), uc.CurNick()),
		fmt.Sprintf(":net.example 366 %s #one :end", uc.CurNick()),
	}
	detachFirst := r.Intn(2) == 0
	if detachFirst {
		c.Service("channel update #one -detached true")
	}
	uc.Send(append([]string{"PING x"}, stages[:stage]...)...)
	uc.Sync()
	if !detachFirst {
		c.Service("channel update #one -detached true")
	}
	how := r.Intn(3)
	mark := c.Mark()
	switch how {
	case 0:
		c.Send("JOIN #one")
	case 1:
		c.Service("channel update #one -detached false")
	case 2:
		c.Service("channel update #one -reattach-on message")
		uc.Send(":alice!a@h PRIVMSG #one :hi")
		uc.Sync()
	}
	c.Sync()
	if stage < 3 {
		uc.Send(stages[stage:]...)
		uc.Sync()
	}
	w.CheckNoPanic()
	c.Sync()
	names, joins := 0, 0
	for _, l := range c.Since(mark) {
		if l.Command == "366" {
			names++
		}
		if l.Command == "JOIN" && l.P(0) == "#one" {
			joins++
		}
	}
	if joins == 0 || names == 0 {
		c.Dump()
		Failf("after attaching (way %d, stage %d, detached before the join: %v) the client got %d JOIN and %d member lists", how, stage, detachFirst, joins, names)
	}
	t.State("partial|%d|%d|%v", how, stage, detachFirst)
	t.Count("partial attaches", 1)
}

// p07Forced: detaching a channel the network made the user join.
func p07Forced(t *T) {
	r := t.Rng
	w := NewWorld(t, Pick(r, []string{"memory", "db", "fs"}))
	up := NewUpstream(t, "net")
	up.Start()
	u := w.AddUser("user", false)
	w.AddNetwork(u, "net", up)
	w.Start()
	uc := up.Ready(0)
	uc.Sync()
	c := w.Connect(ClientOpts{User: "user", Network: "net", Ack: true})
	uc.DoJoin("#forced", "")
	uc.Sync()
	if r.Intn(2) == 0 {
		uc.Sendf(":alice!a@h PRIVMSG #forced :before")
	}
	uc.Sync()
	c.SyncAck()
	mark := c.Mark()
	c.Send("PART #forced :detach")
	c.Sync()
	got := p07Observe(c.Since(mark), "#forced", "mark")
	if len(got) != 1 || got[0] != "PART user Detach" {
		Failf("detaching a joined channel that was not saved showed %q", got)
	}
	mark = c.Mark()
	uc.Sendf(":alice!a@h PRIVMSG #forced :mark 1")
	uc.Sendf(":alice!a@h PRIVMSG #forced :user: mark 2")
	uc.Sync()
	c.SyncAck()
	got = p07Observe(c.Since(mark), "#forced", "mark")
	if len(got) != 1 || got[0] != "relay <alice> user: mark 2" {
		Failf("a detached channel that was not saved showed %q", got)
	}
	if r.Intn(2) == 0 && w.Store != "memory" {
		k := up.NumConns()
		w.Restart()
		uc = up.Ready(k)
		uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" })
		uc.Sync()
		c = w.Connect(ClientOpts{User: "user", Network: "net", Ack: true})
	}
	mark = c.Mark()
	c.Send("JOIN #forced")
	c.Sync()
	got = p07Observe(c.Since(mark), "#forced", "mark")
	want := []string{"JOIN user ", "353", "366", "PRIVMSG <alice> mark 1", "PRIVMSG <alice> user: mark 2"}
	if strings.Join(got, "|") != strings.Join(want, "|") {
		c.Dump()
		Failf("re-attaching the channel showed %q, want %q", got, want)
	}
	t.State("forced|%s", w.Store)
	t.Count("forced channels", 1)
	w.CheckNoPanic()
}
