package checks

import (
	"fmt"
	"strings"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P09", Level: "exploration",
		Rule:   "one execution = a simulated network (random PREFIX, CHANMODES, CASEMAPPING, multi-prefix) sends a random history of joins, parts, kicks, quits, nick changes, rank and channel modes, topics, own joins/parts/kicks/nick changes and reconnections, while up to three connected clients rebuild the state from what they receive and late clients connect at random points (also in the middle of a join); after every few events every client's state, its connection burst and its NAMES/TOPIC/MODE replies are compared with the simulated network; a situation is (event, configuration, member-count class, client kind)",
		Assume: []string{"without multi-prefix towards the network, a member has at most one rank at a time (the bouncer cannot know more)"},
		Cases: func(e *Env) []Case {
			var l []Case
			l = append(l, Repeat(e, "state", e.N(700, 14000), p09State)...)
			l = append(l, Repeat(e, "big", e.N(24, 300), p09Big)...)
			return l
		},
	})
}

type p09World struct {
	t     *T
	w     *World
	up    *Upstream
	s     *netSim
	pool  []string
	conns int
}

func newP09(t *T, members int) *p09World {
	r := t.Rng
	s := &netSim{cm: Pick(r, []string{"ascii", "rfc1459", "rfc1459-strict"}), chans: map[string]*simChan{}, nick: "user", umodes: map[byte]bool{}, cut: map[string]bool{}}
	pf := Pick(r, [][2]string{{"ov", "@+"}, {"ohv", "@%+"}, {"qaohv", "~&@%+"}, {"Yqaohv", "!~&@%+"}})
	s.prefixes, s.symbols = pf[0], pf[1]
	s.chanModes = Pick(r, [][4]string{{"beI", "k", "l", "imnst"}, {"bq", "k", "flj", "CFLMPQScgimnprstuz"}, {"IXbeg", "Kk", "FHJL", "ACims" + "nt"}})
	s.multi = r.Intn(3) > 0
	w := NewWorld(t, Pick(r, []string{"memory", "db"}))
	up := NewUpstream(t, "net")
	up.ISupport = s.isupport()
	up.Caps = append([]string(nil), Pick(r, upCapSets)...)
	var caps []string
	for _, c := range up.Caps {
		if c != "multi-prefix" {
			caps = append(caps, c)
		}
	}
	if s.multi {
		caps = append(caps, "multi-prefix")
	}
	up.Caps = caps
	up.OnLine = func(c *UpConn, l Line) bool { return s.onLine(t, c, l) }
	pw := &p09World{t: t, w: w, up: up, s: s}
	cand := []string{"alice", "Bob", "c[x]", "d{y}", "e\\f", "g^h", "zoe", "Nick-7", "_under_", "q|w", "user2", "ali"}
	seen := map[string]bool{"user": true}
	for _, n := range cand {
		if !seen[s.fold(n)] {
			seen[s.fold(n)] = true
			pw.pool = append(pw.pool, n)
		}
	}
	for i := len(pw.pool); i < members; i++ {
		pw.pool = append(pw.pool, fmt.Sprintf("%s%d", strings.Repeat(Pick(r, []string{"m", "Long", "x-"}), 1+r.Intn(6)), i))
	}
	names := []string{"#one", "#Two[x]", "#three", "#four{Y}"}
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	for i, name := range names {
		ch := &simChan{name: name, modes: map[byte]string{'n': "", 't': ""}, members: map[string]*simMember{}, created: fmt.Sprint(1600000000 + i)}
		s.chans[s.fold(name)] = ch
		if i < 2 {
			w.AddChannel(n, name)
		}
		for _, nick := range pw.pool {
			if r.Intn(3) > 0 || members > 50 {
				ch.members[s.fold(nick)] = &simMember{nick, pw.randRanks()}
			}
		}
		if r.Intn(2) == 0 {
			ch.topic, ch.topicWho, ch.topicAt = "initial topic of "+name, Pick(r, []string{"alice!a@b", "ChanServ"}), "1700000001"
		}
		for i, n := 0, r.Intn(4); i < n; i++ {
			if m, arg := pw.randMode(true); s.modeType(m) > 0 {
				ch.modes[m] = arg
			}
		}
	}
	up.Start()
	w.Start()
	up.Conn(0)
	pw.ready()
	return pw
}

func (pw *p09World) randRanks() map[byte]bool {
	r := pw.t.Rng
	ranks := map[byte]bool{}
	for i, n := 0, r.Intn(3); i < n; i++ {
		ranks[pw.s.prefixes[r.Intn(len(pw.s.prefixes))]] = true
		if !pw.s.multi {
			break
		}
	}
	return ranks
}

// randMode returns a channel mode and its argument if set.
func (pw *p09World) randMode(on bool) (byte, string) {
	r := pw.t.Rng
	ty := r.Intn(4)
	l := pw.s.chanModes[ty]
	m := l[r.Intn(len(l))]
	arg := ""
	switch {
	case ty == 0:
		arg = Pick(r, []string{"*!*@spam", "$a:bob", "alice!*@*"})
	case ty == 1:
		arg = Pick(r, []string{"key", "o", "+x"})
	case ty == 2 && on:
		arg = Pick(r, []string{"10", "5:3", "0"})
	}
	return m, arg
}

// ready waits until the bouncer has joined its channels on the newest
// connection.
func (pw *p09World) ready() {
	uc := pw.up.Last()
	pw.conns = pw.up.NumConns()
	uc.Sync()
	pw.s.await("initial joins", func() bool {
		n := 0
		for _, ch := range pw.s.chans {
			if ch.in && ch.known {
				n++
			}
		}
		return pw.s.uc == uc && n >= 2
	})
	uc.Sync()
}

type p09Client struct {
	c     *Client
	v     *view
	multi bool
	late  bool
}

func (pw *p09World) connect(multi bool) *p09Client {
	caps := Subset(pw.t.Rng, []string{"server-time", "message-tags", "extended-join", "away-notify", "echo-message", "account-notify", "setname", "chghost", "batch", "cap-notify"}, 0.3)
	if multi {
		caps = append(caps, "multi-prefix")
	}
	if caps == nil {
		caps = []string{}
	}
	c := pw.w.Connect(ClientOpts{User: "user", Network: "net", Caps: caps, Nick: Pick(pw.t.Rng, []string{"user", "user", "other"})})
	pc := &p09Client{c: c, multi: multi}
	pc.v = newView(pw.s, c.Name, "user", multi)
	return pc
}

func (pc *p09Client) catchUp() {
	end := pc.c.Sync()
	ls := pc.c.Lines()
	pc.v.feed(ls[pc.v.pos:end])
	pc.v.pos = end + 1
}

// check compares a client's accumulated view with the network.
func (pc *p09Client) check(what string, fresh bool) {
	pc.catchUp()
	// Without multi-prefix only the highest rank is sent, and only right
	// after the burst it is complete.
	pc.v.compare(what, !pc.multi, pc.multi || fresh)
}

// query asks the bouncer for everything about all channels.
func (pc *p09Client) query(pw *p09World) {
	pw.s.mu.Lock()
	var names []string
	for _, ch := range pw.s.chans {
		if ch.in && !ch.det {
			names = append(names, ch.name)
		}
	}
	nick := pw.s.nick
	pw.s.mu.Unlock()
	pc.c.Send("MODE " + nick)
	for _, n := range names {
		sp := respellCM(pw.t, pw.s.cm, n)
		pc.c.Send("NAMES "+sp, "TOPIC "+n, "MODE "+sp)
	}
	for _, ch := range pc.v.chans {
		ch.topic, ch.topicWho, ch.hasModes = "(not answered)", "", false
		ch.members = map[string]*simMember{}
		ch.namesDone = false
	}
	pc.catchUp()
	for _, n := range names {
		c := pc.v.chans[pw.s.fold(n)]
		if c == nil {
			Failf("%s: was not told that it is in %s", pc.c.Name, n)
		}
		if !c.namesDone {
			Failf("%s: NAMES %s was not answered", pc.c.Name, n)
		}
		if !c.hasModes {
			Failf("%s: MODE %s was not answered", pc.c.Name, n)
		}
		if c.created == "" {
			Failf("%s: no creation time for %s", pc.c.Name, n)
		}
	}
	pc.v.compare("after NAMES/TOPIC/MODE", !pc.multi, true)
	pw.t.Count("query_rounds", 1)
}

func p09State(t *T) {
	r := t.Rng
	pw := newP09(t, 0)
	s := pw.s
	var cls []*p09Client
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		cls = append(cls, pw.connect(r.Intn(3) > 0))
	}
	cfg := fmt.Sprintf("%s/%s/%v", s.cm, s.prefixes, s.multi)
	var script []string
	say := func(f string, a ...interface{}) { script = append(script, fmt.Sprintf(f, a...)) }
	defer func() {
		t.Logf("configuration %s modes %v, script:\n  %s", cfg, s.chanModes, strings.Join(script, "\n  "))
		for _, pc := range cls {
			pc.c.Dump()
		}
	}()
	for _, pc := range cls {
		pc.check("after connecting", true)
	}
	settle := func() {
		uc := s.uc
		for i := 0; i < 3; i++ {
			uc.Sync()
		}
		// every mode request was answered
		s.mu.Lock()
		var wait []*simChan
		for _, ch := range s.chans {
			if ch.in && !ch.known && !s.noModes && !s.cut[s.fold(ch.name)] {
				wait = append(wait, ch)
			}
		}
		s.mu.Unlock()
		for _, ch := range wait {
			s.await("MODE "+ch.name, func() bool { return ch.known })
		}
		uc.Sync()
	}
	anyChan := func(in bool) *simChan {
		var l []*simChan
		for _, k := range sortedKeys(s.chans) {
			if s.chans[k].in == in {
				l = append(l, s.chans[k])
			}
		}
		if len(l) == 0 {
			return nil
		}
		return Pick(r, l)
	}
	others := func(ch *simChan, in bool) []string {
		var l []string
		for _, n := range pw.pool {
			if (ch.members[s.fold(n)] != nil) == in {
				l = append(l, n)
			}
		}
		return l
	}
	spell := func(n string) string {
		if r.Intn(4) == 0 {
			return respellCM(t, s.cm, n)
		}
		return n
	}
	steps := 12 + r.Intn(14)
	renames := 0
	for step := 0; step < steps; step++ {
		kind := ""
		fence := true
		func() {
			s.mu.Lock()
			defer s.mu.Unlock()
			ch := anyChan(true)
			if ch == nil {
				kind = "join"
				return
			}
			x := r.Intn(28)
			if ch.det && x >= 20 && x < 22 {
				x = 26
			}
			switch {
			case x < 3: // others join
				if l := others(ch, false); len(l) > 0 {
					n := Pick(r, l)
					kind = "other-join"
					ch.members[s.fold(n)] = &simMember{n, map[byte]bool{}}
					ext := ""
					if s.uc.HasCap("extended-join") {
						ext = " * :Real Name"
					}
					if ch2 := anyChan(true); ext == "" && ch2 != ch && ch2.members[s.fold(n)] == nil && r.Intn(3) == 0 {
						ch2.members[s.fold(n)] = &simMember{n, map[byte]bool{}}
						s.send(":%s!u@h JOIN %s,%s", n, ch.name, ch2.name)
						kind = "other-join-two"
						break
					}
					s.send(":%s!u@h JOIN %s%s", n, ch.name, ext)
				}
			case x < 5: // others part
				if l := others(ch, true); len(l) > 0 {
					n := Pick(r, l)
					kind = "other-part"
					delete(ch.members, s.fold(n))
					s.send(":%s!u@h PART %s :bye", n, spell(ch.name))
				}
			case x < 7: // others kicked
				if l := others(ch, true); len(l) > 0 {
					n := Pick(r, l)
					kind = "other-kick"
					delete(ch.members, s.fold(n))
					s.send(":op!u@h KICK %s %s :out", spell(ch.name), n)
				}
			case x < 9: // others quit
				n := Pick(r, pw.pool)
				visible := false
				for _, c := range s.chans {
					if c.in && c.members[s.fold(n)] != nil {
						visible = true
					}
				}
				for _, c := range s.chans {
					delete(c.members, s.fold(n))
				}
				if visible {
					kind = "other-quit"
					s.send(":%s!u@h QUIT :gone", n)
				}
			case x < 12: // others change nick
				i := r.Intn(len(pw.pool))
				old := pw.pool[i]
				visible := false
				for _, c := range s.chans {
					if c.in && c.members[s.fold(old)] != nil {
						visible = true
					}
				}
				if !visible {
					break
				}
				nn := ""
				renames++
				switch r.Intn(3) {
				case 0: // only the spelling changes
					nn = respellCM(t, s.cm, old)
				case 1:
					nn = fmt.Sprintf("new[%d]", renames)
				default:
					nn = fmt.Sprintf("%s%d", old, renames)
				}
				if nn == old {
					break
				}
				kind = "other-nick"
				pw.pool[i] = nn
				s.rename(old, nn, "u@h")
			case x < 16: // modes
				kind = "mode"
				str, last := "", byte(0)
				var args []string
				for i, n := 0, 1+r.Intn(4); i < n; i++ {
					on := r.Intn(2) == 0
					sign := byte('-')
					if on {
						sign = '+'
					}
					if r.Intn(2) == 0 {
						var mem []*simMember
						for _, k := range sortedKeys(ch.members) {
							mem = append(mem, ch.members[k])
						}
						if len(mem) == 0 {
							continue
						}
						m := Pick(r, mem)
						rank := s.prefixes[r.Intn(len(s.prefixes))]
						if !s.multi && on && len(m.ranks) > 0 && !m.ranks[rank] {
							continue
						}
						if on {
							m.ranks[rank] = true
						} else {
							delete(m.ranks, rank)
						}
						if sign != last {
							str += string(sign)
							last = sign
						}
						str += string(rank)
						args = append(args, spell(m.nick))
						kind += "-rank"
						continue
					}
					m, arg := pw.randMode(on)
					if sign != last {
						str += string(sign)
						last = sign
					}
					str += string(m)
					ty := s.modeType(m)
					if arg != "" {
						args = append(args, arg)
					}
					if ty > 0 {
						if on {
							ch.modes[m] = arg
						} else {
							delete(ch.modes, m)
						}
					}
					kind += fmt.Sprintf("-%d%v", ty, on)
				}
				if str == "" {
					kind = ""
					break
				}
				line := ":op!u@h MODE " + spell(ch.name) + " " + str
				if len(args) > 0 {
					line += " " + strings.Join(args, " ")
				}
				s.send("%s", line)
			case x < 18: // topic
				who := Pick(r, []string{"alice!a@b", "irc.server"})
				ch.topicWho, ch.topicAt = who, ""
				switch r.Intn(4) {
				case 0:
					kind = "topic-clear"
					ch.topic = ""
					s.send(":%s TOPIC %s :", who, ch.name)
				default:
					kind = "topic"
					ch.topic = fmt.Sprintf("topic %d %s", step, RandText(r))
					s.send(":%s TOPIC %s :%s", who, spell(ch.name), ch.topic)
				}
			case x < 20:
				kind = "join"
			case x < 21: // own part by a client or forced
				kind = "own-part"
				if r.Intn(2) == 0 {
					kind = "own-part-forced"
					ch.in = false
					delete(ch.members, s.fold(s.nick))
					s.send(":%s!user@host.example PART %s :forced", s.nick, spell(ch.name))
				} else {
					Pick(r, cls).c.Send("PART " + spell(ch.name))
				}
			case x < 22:
				kind = "own-kick"
				ch.in = false
				delete(ch.members, s.fold(s.nick))
				s.send(":op!u@h KICK %s %s :out", spell(ch.name), s.nick)
			case x < 23:
				kind = "own-nick"
				nn := Pick(r, []string{"user", "User", "me[x]", "guest99"})
				if nn != s.nick {
					if r.Intn(2) == 0 {
						Pick(r, cls).c.Send("NICK " + nn)
					} else {
						s.rename(s.nick, nn, "user@host.example")
					}
				}
			case x < 24:
				kind = "umode"
				m := Pick(r, []byte("iwx"))
				if s.umodes[m] {
					delete(s.umodes, m)
					s.send(":%s!user@host.example MODE %s -%c", s.nick, s.nick, m)
				} else {
					s.umodes[m] = true
					s.send(":%s!user@host.example MODE %s +%c", s.nick, s.nick, m)
				}
			case x < 25:
				kind = "reconnect"
			case x < 26:
				kind = "late"
			case ch.det:
				kind = "attach"
				Pick(r, cls).c.Send("JOIN " + spell(ch.name))
				ch.det = false
			case ch.known:
				kind = "detach"
				Pick(r, cls).c.Send("PART " + spell(ch.name) + " detach")
				ch.det = true
			}
		}()
		if kind == "" {
			continue
		}
		if kind == "attach" || kind == "detach" {
			for _, pc := range cls {
				pc.c.Sync()
			}
		}
		say("%s", kind)
		switch kind {
		case "join":
			s.uc.Sync() // the bouncer knows about earlier departures
			s.mu.Lock()
			ch := anyChan(false)
			if ch == nil {
				s.mu.Unlock()
				break
			}
			name := ch.name
			cut := r.Intn(3) == 0
			if cut {
				s.cut[s.fold(name)] = true
				kind = "join-cut"
			}
			forced := r.Intn(4) == 0
			if forced {
				s.join(t, name)
			}
			s.mu.Unlock()
			if !forced {
				Pick(r, cls).c.Send("JOIN " + name)
				cls[0].c.Sync()
				s.await("join", func() bool { return ch.in })
			}
			if cut {
				s.uc.Sync()
				// a client arrives in the middle of the join
				late := pw.connect(r.Intn(2) == 0)
				cls = append(cls, late)
				late.c.Sync()
				s.mu.Lock()
				delete(s.cut, s.fold(name))
				s.finishJoin(t, ch)
				s.mu.Unlock()
			}
		case "reconnect":
			s.mu.Lock()
			for _, ch := range s.chans {
				if ch.in {
					ch.in = false
					delete(ch.members, s.fold(s.nick))
				}
			}
			s.umodes = map[byte]bool{}
			old := s.uc
			s.mu.Unlock()
			// clients which stay connected keep what they know until they
			// are told otherwise; only new ones are compared from scratch
			keep := r.Intn(2) == 0
			if !keep {
				for _, pc := range cls {
					pc.c.CloseWait()
				}
				pw.w.WaitDownstreams(0)
				cls = nil
			}
			old.Close()
			pw.up.Conn(pw.conns)
			uc := pw.up.Last()
			pw.conns = pw.up.NumConns()
			uc.Sync()
			s.mu.Lock()
			s.switchTo(uc)
			s.mu.Unlock()
			// wait for the rejoins
			probe := pw.w.Connect(ClientOpts{User: "user", Network: "net"})
			ls := strings.Join(probe.Service("channel status -network net"), "\n")
			probe.CloseWait()
			s.mu.Lock()
			var want []*simChan
			for _, ch := range s.chans {
				if strings.Contains(ls, ch.name+" ") || strings.Contains(ls, ch.name+"\n") {
					want = append(want, ch)
				}
			}
			s.mu.Unlock()
			for _, ch := range want {
				ch := ch
				s.await("rejoin "+ch.name, func() bool { return ch.in && ch.known })
			}
			say("rejoined %d; %s", len(want), ls)
			if len(cls) == 0 {
				cls = append(cls, pw.connect(true))
			}
			settle()
			for _, pc := range cls {
				// channels which were only joined by force are forgotten by
				// the bouncer; the client learns it from the disconnection
				pc.catchUp()
				for k := range pc.v.chans {
					if sc := s.chans[k]; sc == nil || !sc.in {
						delete(pc.v.chans, k)
					}
				}
				pc.v.um = map[byte]bool{}
			}
		case "late":
			settle()
			late := pw.connect(r.Intn(2) == 0)
			late.check("after connecting", true)
			late.query(pw)
			if len(cls) < 4 && r.Intn(2) == 0 {
				cls = append(cls, late)
			} else {
				late.c.CloseWait()
			}
			t.Count("late_clients", 1)
		}
		t.Count("events", 1)
		t.State("%s|%s|%d", kind, cfg, len(cls))
		if r.Intn(3) == 0 {
			fence = false
		}
		if kind == "attach" || kind == "detach" {
			fence = true
		}
		if kind == "own-part" || kind == "own-nick" || fence || step == steps-1 {
			for _, pc := range cls {
				pc.c.Sync()
			}
			settle()
			for _, pc := range cls {
				pc.check("after "+kind, false)
				t.Count("comparisons", 1)
			}
		}
	}
	settle()
	for _, pc := range cls {
		pc.check("at the end", false)
	}
	for _, pc := range cls {
		pc.query(pw)
	}
	late := pw.connect(r.Intn(2) == 0)
	late.check("connecting at the end", true)
	late.query(pw)
	pw.w.CheckNoPanic()
	if t.Case.Name == "state-0" {
		t.Sample("%s: %s", cfg, strings.Join(script, ", "))
	}
}

// p09Big checks channels with many members.
func p09Big(t *T) {
	r := t.Rng
	pw := newP09(t, 100+r.Intn(900))
	s := pw.s
	for i := 0; i < 2; i++ {
		pc := pw.connect(i == 0)
		pc.check("after connecting", true)
		pc.query(pw)
		t.State("big|%s|%d|%v", s.prefixes, len(pw.pool)/100, i)
	}
	t.Count("members", 2*len(pw.pool))
	pw.w.CheckNoPanic()
}
