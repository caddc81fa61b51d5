package checks

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"sync"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P10", Level: "exploration",
		Rule:   "route: 2-4 clients concurrently send bursts of WHO, WHOIS and LIST queries (with a labelling network also JOIN, MODE, NAMES, TOPIC, STATS, VERSION, WHOWAS and others), a simulated server answers each with a unique multi-line reply, an empty reply or one of the usual error forms, with delays, labels or label batches, while clients leave and connections are cut; every client transcript must hold exactly its own replies, complete and in order. cache: WHO answers, from the network or from the bouncer's cache, are compared with the simulated users after random away, account, host, name, nick and membership changes. A situation is (query kind, outcome, labels, pending depth class)",
		Assume: []string{"a server answers the queries of one connection in order", "without labels only WHO, WHOIS and LIST can be attributed to a client"},
		Cases: func(e *Env) []Case {
			var l []Case
			l = append(l, Repeat(e, "stale", 2, p10Stale)...)
			l = append(l, Repeat(e, "route", e.N(500, 10000), p10Route)...)
			l = append(l, Repeat(e, "cache", e.N(400, 8000), p10Cache)...)
			return l
		},
	})
}

var qidRe = regexp.MustCompile(`q\d+x\d+x\d+`)

func p10Class(n int) string {
	switch {
	case n <= 1:
		return fmt.Sprint(n)
	case n < 5:
		return "few"
	}
	return "many"
}

type p10Server struct {
	mu      sync.Mutex
	rng     *rand.Rand
	t       *T
	work    chan func()
	want    map[string][]string // qid -> lines the asker must get
	done    map[string]bool
	order   map[string][]string // kind -> qids in order of arrival
	hold    bool
	held    map[string]string // qid -> kind, not answered
	partial int
	batch   int
	dup     bool // WHOIS/WHO targets may repeat
	depth   int
}

func canon(cmd string, params []string) string { return cmd + " " + strings.Join(params, "|") }

// reply sends the lines as the answer to one query.
func (s *p10Server) reply(c *UpConn, l Line, qid string, lines [][]string, end bool) {
	label, has := l.Tags["label"]
	labels := has && c.HasCap("labeled-response")
	srv := ":" + c.Up.Host
	useBatch := labels && (len(lines) != 1)
	tag := ""
	if labels {
		tag = "@label=" + label + " "
	}
	ref := ""
	if useBatch {
		s.batch++
		ref = fmt.Sprintf("b%d", s.batch)
		c.Sendf("@label=%s %s BATCH +%s labeled-response", label, srv, ref)
		tag = "@batch=" + ref + " "
	}
	for i, ln := range lines {
		cmd, params := ln[0], ln[1:]
		s.mu.Lock()
		s.want[qid] = append(s.want[qid], canon(cmd, params))
		s.mu.Unlock()
		p := append([]string(nil), params...)
		last := p[len(p)-1]
		out := fmt.Sprintf("%s%s %s %s", tag, srv, cmd, c.CurNick())
		if len(p) > 1 {
			out += " " + strings.Join(p[:len(p)-1], " ")
		}
		c.Sendf("%s :%s", out, last)
		if s.rng.Intn(6) == 0 {
			time.Sleep(time.Duration(s.rng.Intn(300)) * time.Microsecond)
		}
		_ = i
	}
	if useBatch {
		c.Sendf("%s BATCH -%s", srv, ref)
	}
	if end {
		s.mu.Lock()
		s.done[qid] = true
		s.mu.Unlock()
	}
}

func (s *p10Server) answer(c *UpConn, l Line) bool {
	qid := qidRe.FindString(l.Raw)
	if qid == "" || l.Command == "PRIVMSG" {
		return false
	}
	if _, ok := l.Tags["label"]; l.Command == "JOIN" && !ok {
		return true // the bouncer joining its saved channels, not a client's query
	}
	s.mu.Lock()
	s.order[l.Command] = append(s.order[l.Command], qid)
	s.mu.Unlock()
	s.work <- func() {
		r := s.rng
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(800)) * time.Microsecond)
		}
		s.mu.Lock()
		hold := s.hold
		if hold {
			s.held[qid] = l.Command
		}
		s.mu.Unlock()
		var lines [][]string
		kind := ""
		n := r.Intn(5)
		tgt := l.P(0)
		switch l.Command {
		case "WHO":
			for i := 0; i < n; i++ {
				if strings.Contains(l.P(1), "%") {
					lines = append(lines, []string{"354", "5", "nick" + fmt.Sprint(i), "real " + qid + " " + fmt.Sprint(i)})
				} else {
					lines = append(lines, []string{"352", "*", "user", "host", "srv", "nick" + fmt.Sprint(i), "H", "0 real " + qid + " " + fmt.Sprint(i)})
				}
			}
			kind = fmt.Sprint("rows", n)
			switch r.Intn(8) {
			case 0:
				kind, lines = "421", [][]string{{"421", "WHO", "Unknown command " + qid}}
			case 1:
				kind, lines = "263", [][]string{{"263", "WHO", "Try again " + qid}}
			case 2:
				kind, lines = "263+315", [][]string{{"263", "WHO", "Try again " + qid}, {"315", tgt, "End"}}
			default:
				lines = append(lines, []string{"315", tgt, "End of WHO"})
			}
		case "WHOIS":
			tgt = l.P(len(l.Params) - 1)
			switch r.Intn(6) {
			case 0:
				kind, lines = "401", [][]string{{"401", tgt, "No such nick"}}
			case 1:
				kind, lines = "401+318", [][]string{{"401", tgt, "No such nick"}, {"318", tgt, "End"}}
			case 2:
				kind, lines = "461", [][]string{{"461", "WHOIS", "Nope " + qid}}
			case 3:
				kind, lines = "402", [][]string{{"402", tgt, "No such server"}}
			default:
				kind = "full"
				lines = [][]string{{"311", tgt, "user", "host", "*", "Real " + qid}}
				opt := [][]string{{"319", tgt, "@#a #b"}, {"312", tgt, "srv", "info"}, {"313", tgt, "is an oper"}, {"317", tgt, "3", "1600000000", "seconds"}, {"330", tgt, "acc", "is logged in as"}, {"338", tgt, "1.2.3.4", "actually"}, {"671", tgt, "secure"}, {"276", tgt, "certfp"}, {"378", tgt, "from"}, {"379", tgt, "modes"}, {"320", tgt, "special"}, {"307", tgt, "reg"}}
				lines = append(lines, Subset(r, opt, 0.3)...)
				lines = append(lines, []string{"318", tgt, "End of WHOIS"})
			}
		case "LIST":
			kind = fmt.Sprint("rows", n)
			if r.Intn(8) == 0 {
				kind, lines = "263", [][]string{{"263", "LIST", "Try again " + qid}}
				break
			}
			if r.Intn(2) == 0 {
				lines = append(lines, []string{"321", "Channel", "Users Name " + qid})
			}
			for i := 0; i < n; i++ {
				lines = append(lines, []string{"322", "#c" + fmt.Sprint(i), "5", "topic " + qid})
			}
			lines = append(lines, []string{"323", "End of LIST " + qid})
		case "VERSION":
			lines = [][]string{{"351", "v1", "srv", "x " + qid}}
		case "WHOWAS":
			lines = [][]string{{"314", tgt, "u", "h", "*", "real"}, {"312", tgt, "srv", "date"}, {"369", tgt, "End"}}
			lines = append(lines[:1], lines[2:]...)
		case "STATS":
			lines = [][]string{{"242", "up " + qid}, {"219", "u", "End " + qid}}
		case "NAMES":
			lines = [][]string{{"353", "=", tgt, "a b c"}, {"366", tgt, "End"}}
			if r.Intn(3) == 0 {
				lines = lines[1:]
			}
		case "TOPIC":
			lines = [][]string{{"332", tgt, "the topic"}, {"333", tgt, "who", "123"}}
			if len(l.Params) > 1 {
				lines = [][]string{{"482", tgt, "no"}}
			} else if r.Intn(3) == 0 {
				lines = [][]string{{"403", tgt, "No such channel"}}
			}
		case "MODE":
			lines = [][]string{{"324", tgt, "+nt"}, {"329", tgt, "12345"}}
			if l.P(1) == "b" || l.P(1) == "+b" {
				lines = [][]string{{"367", tgt, "*!*@x", "op", "1"}, {"368", tgt, "End"}}
			}
		case "JOIN":
			lines = [][]string{{Pick(r, []string{"471", "473", "474", "475", "405"}), tgt, "Cannot join"}}
		case "PART":
			lines = [][]string{{"442", tgt, "not on it"}}
		case "KICK":
			lines = [][]string{{"482", tgt, "not an op"}}
		case "INVITE":
			lines = [][]string{{Pick(r, []string{"443", "482", "401"}), l.P(1), "no " + qid}}
			lines[0][1] = l.P(1)
		default:
			lines = [][]string{{"421", l.Command, "Unknown command " + qid}}
		}
		_, labels := l.Tags["label"]
		s.mu.Lock()
		d := s.depth
		s.mu.Unlock()
		s.t.State("%s|%s|%v|%v|%s", l.Command, kind, labels, hold, p10Class(d))
		s.t.Count("answers_"+l.Command, 1)
		if hold {
			// the first of them may be answered partly
			if k := len(lines) - 1; s.partial == 0 && k > 0 && !labels && (l.Command == "LIST" || kind == "full" || strings.HasPrefix(kind, "rows")) {
				s.partial = r.Intn(k + 1)
				s.reply(c, l, qid, lines[:s.partial], false)
			}
			return
		}
		s.reply(c, l, qid, lines, true)
	}
	return true
}

type p10Client struct {
	c    *Client
	id   int
	sent []string // qids in order
	kind map[string]string
	n    int
	dead bool
}

func p10Route(t *T) {
	r := t.Rng
	w := NewWorld(t, "memory")
	up := NewUpstream(t, "net")
	labels := r.Intn(2) == 0
	up.Caps = []string{"batch", "message-tags"}
	if labels {
		up.Caps = append(up.Caps, "labeled-response")
	}
	s := &p10Server{rng: rand.New(rand.NewSource(r.Int63())), t: t, work: make(chan func(), 10000), want: map[string][]string{}, done: map[string]bool{}, order: map[string][]string{}, held: map[string]string{}}
	quit := make(chan struct{})
	go func() {
		for {
			select {
			case f := <-s.work:
				f()
			case <-quit:
				return
			}
		}
	}()
	t.Cleanup(func() { close(quit) })
	up.OnLine = func(c *UpConn, l Line) bool { return s.answer(c, l) }
	up.Start()
	u := w.AddUser("user", false)
	w.AddNetwork(u, "net", up)
	w.Start()
	up.Conn(0)
	uc := up.Ready(0)
	base := int(t.Case.Seed % 9973)
	cid := 0
	var cls []*p10Client
	connect := func() *p10Client {
		cid++
		c := w.Connect(ClientOpts{User: "user", Network: "net", Caps: Subset(r, []string{"message-tags", "batch", "server-time", "echo-message"}, 0.4)})
		pc := &p10Client{c: c, id: cid, kind: map[string]string{}}
		cls = append(cls, pc)
		return pc
	}
	for i, n := 0, 2+r.Intn(3); i < n; i++ {
		connect()
	}
	defer func() {
		for _, pc := range cls {
			if !pc.dead {
				pc.c.Dump()
			}
		}
		uc.Dump()
	}()
	// gen builds a burst of query lines.
	gen := func(pc *p10Client, r *rand.Rand, only bool) (lines []string) {
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			pc.n++
			q := fmt.Sprintf("q%dx%dx%d", base, pc.id, pc.n)
			k, ln := "", ""
			x := r.Intn(10)
			if labels && !only && x >= 7 {
				k, ln = "other", Pick(r, []string{"VERSION " + q, "WHOWAS " + q, "STATS u " + q, "NAMES #" + q, "TOPIC #" + q, "TOPIC #" + q + " :new", "MODE #" + q, "MODE #" + q + " b", "JOIN #" + q, "PART #" + q, "KICK #" + q + " bob", "INVITE bob #" + q, "FOO " + q})
			} else {
				switch x % 3 {
				case 0:
					k, ln = "WHO", "WHO "+q
					if r.Intn(3) == 0 {
						ln = "WHO " + q + " %tnr,5"
					}
				case 1:
					k, ln = "WHOIS", "WHOIS "+q
					if r.Intn(3) == 0 {
						ln = "WHOIS srv " + q
					}
				case 2:
					k, ln = "LIST", "LIST "+q
				}
			}
			pc.sent = append(pc.sent, q)
			pc.kind[q] = k
			lines = append(lines, ln)
		}
		s.mu.Lock()
		s.depth += len(lines)
		s.mu.Unlock()
		return lines
	}
	check := func(pc *p10Client, cut map[string]bool) {
		end := pc.c.Sync()
		got := map[string][]string{}
		abortList := 0
		mine := fmt.Sprintf("q%dx%dx", base, pc.id)
		for _, l := range pc.c.Lines()[:end] {
			if !(len(l.Command) == 3 && l.Command >= "200") {
				continue
			}
			q := qidRe.FindString(strings.Join(l.Params[1:], " "))
			if q == "" {
				if l.Command == "323" {
					abortList++
				}
				continue
			}
			if !strings.HasPrefix(q, mine) {
				Failf("%s received a reply to another client's query: %q", pc.c.Name, l.Raw)
			}
			got[q] = append(got[q], canon(l.Command, l.Params[1:]))
		}
		// order of the completed queries of each kind
		s.mu.Lock()
		defer s.mu.Unlock()
		wantAborts := 0
		for _, q := range pc.sent {
			want := append([]string(nil), s.want[q]...)
			if cut[q] {
				switch pc.kind[q] {
				case "WHO":
					want = append(want, canon("315", []string{q, "Command aborted"}))
				case "WHOIS":
					want = append(want, canon("318", []string{q, "Command aborted"}))
				case "LIST":
					wantAborts++
				default:
					continue
				}
			} else if !s.done[q] {
				Failf("%s: query %s (%s) was never passed to the network", pc.c.Name, q, pc.kind[q])
			}
			if strings.Join(got[q], "\n") != strings.Join(want, "\n") {
				Failf("%s: the reply to %s (%s) is\n  %s\nwant\n  %s", pc.c.Name, q, pc.kind[q], strings.Join(got[q], "\n  "), strings.Join(want, "\n  "))
			}
			t.Count("replies_checked", 1)
		}
		if abortList != wantAborts {
			Failf("%s: got %d aborted LIST replies, want %d", pc.c.Name, abortList, wantAborts)
		}
		var ends []string
		for _, l := range pc.c.Lines()[:end] {
			if q := qidRe.FindString(l.Raw); q != "" && got[q] != nil {
				if len(ends) == 0 || ends[len(ends)-1] != q {
					ends = append(ends, q)
				}
			}
		}
		pos := map[string]int{}
		for i, q := range ends {
			pos[q] = i
		}
		last := map[string]string{}
		for _, q := range pc.sent {
			k := pc.kind[q]
			if k == "other" {
				continue
			}
			if p, ok := pos[q]; ok {
				if lq := last[k]; lq != "" && pos[lq] > p {
					Failf("%s: the reply to %s came before the one to the earlier %s query %s", pc.c.Name, q, k, lq)
				}
				last[k] = q
			}
		}
	}
	rounds := 1 + r.Intn(3)
	for round := 0; round < rounds; round++ {
		var fs []func()
		for _, pc := range cls {
			if pc.dead {
				continue
			}
			pc := pc
			rr := rand.New(rand.NewSource(r.Int63()))
			leave := len(cls) > 2 && rr.Intn(5) == 0
			fs = append(fs, func() {
				for i, n := 0, 1+rr.Intn(3); i < n; i++ {
					lines := gen(pc, rr, false)
					pc.c.Send(lines...)
					if rr.Intn(3) == 0 {
						time.Sleep(time.Duration(rr.Intn(500)) * time.Microsecond)
					}
				}
				if leave {
					pc.dead = true
					pc.c.Close()
				}
			})
		}
		guarded(fs...)
		alive := 0
		for _, pc := range cls {
			if !pc.dead {
				alive++
			} else {
				t.Count("clients_left_midway", 1)
			}
		}
		for alive < 2 {
			connect()
			alive++
		}
		waitAll := func() {
			start := time.Now()
			for {
				missing := ""
				s.mu.Lock()
				for _, pc := range cls {
					for _, q := range pc.sent {
						if !pc.dead && !s.done[q] && s.held[q] == "" {
							missing = q + " (" + pc.kind[q] + ")"
						}
					}
				}
				s.mu.Unlock()
				if missing == "" {
					break
				}
				if time.Since(start) > Watchdog {
					panic(Stuck{"query " + missing + " was never passed to the network"})
				}
				time.Sleep(200 * time.Microsecond)
			}
			uc.Sync()
		}
		waitAll()
		for _, pc := range cls {
			if !pc.dead {
				check(pc, nil)
			}
		}
		s.mu.Lock()
		s.depth = 0
		s.mu.Unlock()
	}
	// cut the connection with queries pending
	if r.Intn(2) == 0 {
		s.mu.Lock()
		s.hold = true
		s.mu.Unlock()
		cut := map[string]bool{}
		for _, pc := range cls {
			if pc.dead {
				continue
			}
			k := len(pc.sent)
			pc.c.Send(gen(pc, r, true)...)
			for _, q := range pc.sent[k:] {
				cut[q] = true
			}
		}
		for _, pc := range cls {
			if !pc.dead {
				pc.c.Sync()
			}
		}
		uc.Sync()
		done := make(chan bool)
		s.work <- func() { close(done) }
		<-done
		uc.Sync()
		marks := map[*p10Client]int{}
		for _, pc := range cls {
			if !pc.dead {
				marks[pc] = pc.c.Mark()
			}
		}
		s.mu.Lock()
		s.hold = false
		s.mu.Unlock()
		uc.Close()
		for _, pc := range cls {
			if !pc.dead {
				pc.c.Wait(marks[pc], "disconnection notice", func(l Line) bool { return l.Command == "NOTICE" && strings.Contains(l.P(1), "disconnected") })
			}
		}
		for _, pc := range cls {
			if !pc.dead {
				check(pc, cut)
			}
		}
		t.Count("cuts", 1)
		t.State("cut|%v", labels)
		// the next connection starts afresh
		up.Conn(1)
		uc = up.Ready(1)
		for _, pc := range cls {
			if pc.dead {
				continue
			}
			k := len(pc.sent)
			from := pc.c.Mark()
			pc.c.Wait(from-1, "reconnection", func(l Line) bool { return true })
			for i := 0; ; i++ { // wait until the network is connected again
				m := pc.c.Mark()
				pc.c.Send("WHO nobody-here-" + fmt.Sprint(i))
				e := pc.c.Sync()
				ok := true
				for _, l := range pc.c.Lines()[m:e] {
					if l.Command == "421" || strings.Contains(l.Raw, "isconnected") {
						ok = false
					}
				}
				if ok {
					break
				}
				if i > 2000 {
					panic(Stuck{"the network never became usable again"})
				}
				time.Sleep(2 * time.Millisecond)
			}
			_ = k
		}
	}
	w.CheckNoPanic()
}

// p10Stale checks that a query the network never answers does not block later
// ones for good.
func p10Stale(t *T) {
	r := t.Rng
	w := NewWorld(t, "memory")
	up := NewUpstream(t, "net")
	cmd := Pick(r, []string{"WHO", "WHOIS", "LIST"})
	up.OnLine = func(c *UpConn, l Line) bool {
		if l.Command != cmd {
			return false
		}
		n := l.P(0)
		if n == "lost" {
			return true
		}
		switch cmd {
		case "WHO":
			c.Sendf(":srv 315 %s %s :End", c.CurNick(), n)
		case "WHOIS":
			c.Sendf(":srv 318 %s %s :End", c.CurNick(), n)
		case "LIST":
			c.Sendf(":srv 323 %s :End %s", c.CurNick(), n)
		}
		return true
	}
	up.Start()
	u := w.AddUser("user", false)
	w.AddNetwork(u, "net", up)
	w.Start()
	up.Conn(0)
	uc := up.Ready(0)
	a := w.Connect(ClientOpts{User: "user", Network: "net"})
	b := w.Connect(ClientOpts{User: "user", Network: "net"})
	a.Send(cmd + " lost")
	a.Sync()
	time.Sleep(31 * time.Second)
	for i := 0; i < 3; i++ {
		c := []*Client{a, b}[i%2]
		from := c.Mark()
		c.Sendf("%s later%d", cmd, i)
		c.Sync()
		uc.Sync()
		c.Sync()
		ok := false
		for _, l := range c.Since(from) {
			if strings.Contains(l.Raw, fmt.Sprintf("later%d", i)) {
				ok = true
			}
		}
		if !ok {
			a.Dump()
			b.Dump()
			uc.Dump()
			Failf("%s: the network never answered one %s, and 31 s later %s queries are still not answered (query %d)", c.Name, cmd, cmd, i)
		}
	}
	t.State("stale|%s", cmd)
	t.Count("stale_recovered", 1)
}

// --- WHO answers against the real users ---

type p10User struct {
	nick, user, host, real, account string
	away                            bool
}

func p10Cache(t *T) {
	r := t.Rng
	s := &netSim{cm: Pick(r, []string{"ascii", "rfc1459"}), prefixes: "ohv", symbols: "@%+", chanModes: [4]string{"b", "k", "l", "imnst"}, multi: true, chans: map[string]*simChan{}, nick: "user", umodes: map[byte]bool{}, cut: map[string]bool{}}
	all := []string{"away-notify", "account-notify", "extended-join", "chghost", "setname"}
	caps := all
	if r.Intn(3) == 0 {
		caps = Subset(r, all, 0.6)
	}
	has := map[string]bool{}
	for _, c := range caps {
		has[c] = true
	}
	users := map[string]*p10User{}
	var pool []string
	for i, n := range []string{"alice", "Bob", "c[x]", "zoe"} {
		pool = append(pool, n)
		users[s.fold(n)] = &p10User{nick: n, user: fmt.Sprintf("u%d", i), host: fmt.Sprintf("h%d.example", i), real: fmt.Sprintf("Real %d :x", i), account: Pick(r, []string{"", "acc" + fmt.Sprint(i)}), away: r.Intn(3) == 0}
	}
	users["user"] = &p10User{nick: "user", user: "user", host: "host.example", real: "user"}
	for i, name := range []string{"#one", "#two"} {
		ch := &simChan{name: name, modes: map[byte]string{'n': ""}, members: map[string]*simMember{}, created: fmt.Sprint(1600000000 + i)}
		s.chans[name] = ch
		for _, n := range pool {
			if r.Intn(2) == 0 {
				rk := map[byte]bool{}
				if r.Intn(2) == 0 {
					rk[Pick(r, []byte("ohv"))] = true
				}
				ch.members[s.fold(n)] = &simMember{n, rk}
			}
		}
	}
	whoLine := func(u *p10User, chn string, ch *simChan, opts string) string {
		flags := "H"
		if u.away {
			flags = "G"
		}
		if ch != nil {
			flags += s.rankStr(ch.members[s.fold(u.nick)].ranks, true)
		}
		acc := u.account
		if acc == "" {
			acc = "0"
		}
		if strings.Contains(opts, "%") {
			return fmt.Sprintf("354 %s 77 %s %s %s srv.example %s %s %s :%s", s.nick, chn, u.user, u.host, u.nick, flags, acc, u.real)
		}
		return fmt.Sprintf("352 %s %s %s %s srv.example %s %s :0 %s", s.nick, chn, u.user, u.host, u.nick, flags, u.real)
	}
	answer := func(mask, opts string) (out []string) {
		if ch := s.chans[s.fold(mask)]; ch != nil {
			for _, k := range sortedKeys(ch.members) {
				out = append(out, whoLine(users[k], mask, ch, opts))
			}
		} else if u := users[s.fold(mask)]; u != nil {
			out = append(out, whoLine(u, "*", nil, opts))
		}
		return out
	}
	served := 0
	w := NewWorld(t, "memory")
	up := NewUpstream(t, "net")
	up.Caps = append(append([]string{}, caps...), "multi-prefix")
	up.ISupport = append(s.isupport(), "WHOX")
	up.OnLine = func(c *UpConn, l Line) bool {
		if l.Command == "WHO" {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.uc = c
			served++
			for _, ln := range answer(l.P(0), l.P(1)) {
				c.Sendf(":%s %s", up.Host, ln)
			}
			c.Sendf(":%s 315 %s %s :End", up.Host, s.nick, l.P(0))
			return true
		}
		if l.Command == "AWAY" {
			s.mu.Lock()
			defer s.mu.Unlock()
			users[s.fold(s.nick)].away = l.P(0) != ""
			if l.P(0) != "" {
				c.Sendf(":%s 306 %s :away", up.Host, s.nick)
			} else {
				c.Sendf(":%s 305 %s :back", up.Host, s.nick)
			}
			return true
		}
		if l.Command == "NICK" && c.Registered() {
			s.mu.Lock()
			u := users[s.fold(s.nick)]
			delete(users, s.fold(s.nick))
			u.nick = l.P(0)
			users[s.fold(l.P(0))] = u
			s.mu.Unlock()
		}
		return s.onLine(t, c, l)
	}
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#one")
	w.AddChannel(n, "#two")
	w.Start()
	up.Conn(0)
	uc := up.Ready(0)
	s.await("joins", func() bool { return s.chans["#one"].known && s.chans["#two"].known })
	uc.Sync()
	var cls []*Client
	for i := 0; i < 2; i++ {
		cls = append(cls, w.Connect(ClientOpts{User: "user", Network: "net", Caps: []string{"multi-prefix"}}))
	}
	Settle([]*UpConn{uc}, cls)
	var script []string
	defer func() {
		t.Logf("caps %v, script:\n  %s", caps, strings.Join(script, "\n  "))
		uc.Dump()
	}()
	ask := func() {
		c := Pick(r, cls)
		mask := Pick(r, []string{"#one", "#two", "#one", Pick(r, pool), "user"})
		s.mu.Lock()
		if mask == "user" {
			mask = s.nick
		}
		mask = respellCM(t, s.cm, mask)
		opts := Pick(r, []string{"", "%tcuhsnfar,77"})
		want := answer(mask, opts)
		before := served
		s.mu.Unlock()
		from := c.Mark()
		c.Send(strings.TrimSpace("WHO " + mask + " " + opts))
		c.Sync()
		c.Wait(from, "315", func(l Line) bool { return l.Command == "315" })
		var got []string
		for _, l := range c.Since(from) {
			if l.Command == "352" || l.Command == "354" {
				got = append(got, l.Command+" "+s.nick+" "+strings.Join(l.Params[1:len(l.Params)-1], " ")+" :"+l.P(len(l.Params)-1))
			}
		}
		sortStrings(got)
		sortStrings(want)
		s.mu.Lock()
		cached := served == before
		s.mu.Unlock()
		script = append(script, fmt.Sprintf("WHO %s %s (cached=%v)", mask, opts, cached))
		// for a nick the network may name any channel
		if !strings.HasPrefix(mask, "#") {
			for i := range got {
				got[i] = dropField(got[i], opts)
			}
			for i := range want {
				want[i] = dropField(want[i], opts)
			}
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			Failf("%s: WHO %s %s (answered from the cache: %v) gives\n  %s\nthe network has\n  %s", c.Name, mask, opts, cached, strings.Join(got, "\n  "), strings.Join(want, "\n  "))
		}
		t.Count("who_checked", 1)
		if cached {
			t.Count("who_from_cache", 1)
		}
		t.State("cache|%v|%v|%v|%d", cached, opts != "", strings.HasPrefix(mask, "#"), len(caps))
	}
	prefix := func(u *p10User) string { return u.nick + "!" + u.user + "@" + u.host }
	ren := 0
	for step := 0; step < 30; step++ {
		kind := ""
		func() {
			s.mu.Lock()
			defer s.mu.Unlock()
			i := r.Intn(len(pool))
			u := users[s.fold(pool[i])]
			shared := false
			for _, ch := range s.chans {
				if ch.in && ch.members[s.fold(u.nick)] != nil {
					shared = true
				}
			}
			ch := s.chans[Pick(r, []string{"#one", "#two"})]
			switch r.Intn(13) {
			case 0, 1:
				if !has["away-notify"] {
					return
				}
				u.away = !u.away
				if shared {
					kind = "away"
					if u.away {
						s.send(":%s AWAY :gone", prefix(u))
					} else {
						s.send(":%s AWAY", prefix(u))
					}
				}
			case 2:
				if !has["account-notify"] {
					return
				}
				u.account = Pick(r, []string{"", "accA", "accB"})
				if shared {
					kind = "account"
					a := u.account
					if a == "" {
						a = "*"
					}
					s.send(":%s ACCOUNT %s", prefix(u), a)
				}
			case 3:
				if !has["chghost"] {
					return
				}
				old := prefix(u)
				u.user, u.host = fmt.Sprintf("nu%d", step), fmt.Sprintf("nh%d", step)
				if shared {
					kind = "chghost"
					s.send(":%s CHGHOST %s %s", old, u.user, u.host)
				}
			case 4:
				if !has["setname"] {
					return
				}
				u.real = fmt.Sprintf("New name %d", step)
				if shared {
					kind = "setname"
					s.send(":%s SETNAME :%s", prefix(u), u.real)
				}
			case 5:
				ren++
				nn := Pick(r, []string{fmt.Sprintf("ren%d", ren), respellCM(t, s.cm, u.nick)})
				old := u.nick
				if old == nn {
					return
				}
				kind = "nick"
				delete(users, s.fold(old))
				pfx := u.user + "@" + u.host
				u.nick = nn
				users[s.fold(nn)] = u
				pool[i] = nn
				if shared {
					s.rename(old, nn, pfx)
				} else {
					for _, c := range s.chans {
						delete(c.members, s.fold(old))
					}
				}
			case 6, 7:
				if ch.in && ch.members[s.fold(u.nick)] == nil {
					kind = "join"
					ch.members[s.fold(u.nick)] = &simMember{u.nick, map[byte]bool{}}
					ext := ""
					if has["extended-join"] {
						a := u.account
						if a == "" {
							a = "*"
						}
						ext = " " + a + " :" + u.real
					}
					s.send(":%s JOIN %s%s", prefix(u), ch.name, ext)
					if has["away-notify"] && u.away {
						s.send(":%s AWAY :gone", prefix(u))
					}
				}
			case 8:
				if ch.in && ch.members[s.fold(u.nick)] != nil {
					kind = "part"
					delete(ch.members, s.fold(u.nick))
					s.send(":%s PART %s", prefix(u), ch.name)
				}
			case 9:
				if ch.in && ch.members[s.fold(u.nick)] != nil {
					kind = "kick"
					delete(ch.members, s.fold(u.nick))
					s.send(":op!o@o KICK %s %s :x", ch.name, u.nick)
				}
			case 10:
				if shared {
					kind = "quit"
					for _, c := range s.chans {
						delete(c.members, s.fold(u.nick))
					}
					s.send(":%s QUIT :bye", prefix(u))
					// comes back as somebody else
					u.user, u.host, u.real, u.account, u.away = fmt.Sprintf("bu%d", step), "back.example", "Back again", "", false
				}
			case 11:
				kind = "own-away"
			case 12:
				if ch.in && ch.members[s.fold(u.nick)] != nil {
					kind = "rank"
					m := Pick(r, []byte("ohv"))
					mb := ch.members[s.fold(u.nick)]
					if mb.ranks[m] {
						delete(mb.ranks, m)
						s.send(":op!o@o MODE %s -%c %s", ch.name, m, u.nick)
					} else {
						mb.ranks[m] = true
						s.send(":op!o@o MODE %s +%c %s", ch.name, m, u.nick)
					}
				}
			}
			script = append(script, kind+" "+u.nick+" "+ch.name)
		}()
		if kind == "own-away" {
			msg := Pick(r, []string{"AWAY :brb", "AWAY"})
			for _, c := range cls {
				c.Send(msg)
			}
			Settle([]*UpConn{uc}, cls)
		}
		uc.Sync()
		if r.Intn(2) == 0 {
			ask()
		}
	}
	for i := 0; i < 4; i++ {
		ask()
	}
	w.CheckNoPanic()
}

// dropField removes the channel field from a WHO reply.
func dropField(s, opts string) string {
	f := strings.SplitN(s, " ", 5)
	i := 2
	if opts != "" {
		i = 3
	}
	f[i] = "*"
	return strings.Join(f, " ")
}
