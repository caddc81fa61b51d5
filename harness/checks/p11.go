package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P11", Level: "exploration",
		Rule:   "one execution = 2-4 clients with random capability sets (protocol versions 302, 301 and none) on a simulated network with a random capability set of its own, all kinds of network events, client commands, capability requests (valid, invalid, mixed), network capability changes and reconnections; every line each client receives is checked by an online monitor against the capabilities it has at that point of its own transcript, every event must reach exactly the clients entitled to it in the negotiated form, and every CAP reply and the enabled set are compared with a model; a situation is (event, relevant capability enabled, protocol version)",
		Assume: []string{"a client with message-tags may receive any message tag (IRCv3 message-tags)"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "caps", e.N(1200, 20000), p11Caps)
		},
	})
}

var p11Perm = []string{"batch", "cap-notify", "echo-message", "invite-notify", "server-time", "setname", "draft/pre-away", "draft/read-marker", "draft/no-implicit-names", "soju.im/account-required", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "soju.im/no-implicit-names", "soju.im/read", "soju.im/webpush"}
var p11NeedAll = []string{"account-notify", "account-tag", "away-notify", "chghost", "extended-join", "extended-monitor", "message-tags", "multi-prefix", "draft/extended-monitor"}

func setOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

func setStr(m map[string]bool) string {
	var l []string
	for k, v := range m {
		if v {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

type p11Client struct {
	c       *Client
	w       *World
	bound   bool
	ver     int // 0: no CAP LS, 301: without version, 302
	en, av  map[string]bool
	pos     int
	open    map[string]string // open batches
	lsReply map[string]bool
	lists   []string
	naks    int
	acks    int
	listNet bool
	hist    bool // a history query is running
	welcome bool
	invited map[string]bool
}

func (p *p11Client) has(c string) bool { return p.en[c] }

// feed runs the online monitor over the lines received so far.
func (p *p11Client) feed(end int) []Line {
	ls := p.c.Since(p.pos)
	if end >= 0 {
		ls = ls[:end+1-p.pos]
	}
	for _, l := range ls {
		p.line(l)
	}
	p.pos += len(ls)
	return ls
}

func (p *p11Client) line(l Line) {
	bad := func(format string, a ...interface{}) {
		Failf("%s received %q: %s (enabled: %s)", p.c.Name, l.Raw, fmt.Sprintf(format, a...), setStr(p.en))
	}
	need := func(c ...string) {
		for _, n := range c {
			if p.en[n] {
				return
			}
		}
		bad("needs %s", strings.Join(c, " or "))
	}
	for k := range l.Tags {
		switch k {
		case "batch":
			need("batch")
			if _, ok := p.open[l.Tags[k]]; !ok {
				bad("refers to a batch which is not open")
			}
		case "time":
			need("server-time", "message-tags")
		case "account":
			need("account-tag", "message-tags")
		case "label":
			bad("label of another connection")
		default:
			need("message-tags")
		}
	}
	switch l.Command {
	case "CAP":
		switch l.P(1) {
		case "LS":
			p.lsReply = map[string]bool{}
			for _, f := range strings.Fields(l.P(2)) {
				name, v, ok := strings.Cut(f, "=")
				if ok && v != "" && p.ver < 302 {
					bad("capability value without version 302")
				}
				p.lsReply[name] = true
			}
		case "LIST":
			m := setOf(strings.Fields(l.P(2)))
			p.lists = append(p.lists, setStr(m))
		case "ACK":
			p.acks++
			for _, f := range strings.Fields(strings.ToLower(l.P(2))) {
				if strings.HasPrefix(f, "-") {
					delete(p.en, f[1:])
				} else {
					p.en[f] = true
				}
			}
		case "NAK":
			p.naks++
		case "NEW":
			need("cap-notify")
			for _, f := range strings.Fields(l.P(2)) {
				name, v, ok := strings.Cut(f, "=")
				if ok && v != "" && p.ver < 302 {
					bad("capability value without version 302")
				}
				p.av[name] = true
			}
		case "DEL":
			need("cap-notify")
			for _, f := range strings.Fields(l.P(2)) {
				if !p.av[f] {
					bad("withdraws a capability which was not offered (%s)", setStr(p.av))
				}
				delete(p.av, f)
				delete(p.en, f)
			}
		}
	case "BATCH":
		need("batch")
		ref := l.P(0)
		switch {
		case strings.HasPrefix(ref, "+"):
			if _, ok := p.open[ref[1:]]; ok {
				bad("batch opened twice")
			}
			p.open[ref[1:]] = l.P(1)
			switch l.P(1) {
			case "chathistory":
			case "draft/chathistory-targets":
			case "soju.im/search":
			case "soju.im/bouncer-networks":
			default:
				bad("unknown batch type")
			}
		case strings.HasPrefix(ref, "-"):
			if _, ok := p.open[ref[1:]]; !ok {
				bad("closes a batch which is not open")
			}
			delete(p.open, ref[1:])
		default:
			bad("malformed BATCH")
		}
	case "TAGMSG":
		need("message-tags")
	case "JOIN":
		if len(l.Params) > 1 {
			need("extended-join")
		} else if p.has("extended-join") && p.has("cap-notify") && l.Tags["batch"] == "" && !p.hist {
			bad("JOIN in the short form to a client with extended-join")
		}
	case "SETNAME":
		need("setname")
	case "CHGHOST":
		need("chghost")
	case "AWAY":
		need("away-notify")
	case "ACCOUNT":
		need("account-notify")
	case "MARKREAD":
		need("draft/read-marker")
	case "READ":
		need("soju.im/read")
		if p.has("draft/read-marker") {
			bad("old command to a client with draft/read-marker")
		}
	case "INVITE":
		if l.P(0) != "user" {
			need("invite-notify")
		}
	case "BOUNCER":
		if l.P(0) == "NETWORK" && !p.listNet {
			need("soju.im/bouncer-networks-notify")
		}
	case "900", "901", "903", "904", "AUTHENTICATE":
		need("sasl")
	case "353":
		for _, n := range strings.Fields(l.P(3)) {
			if len(n) > 1 && strings.ContainsAny(n[:1], "@+") && strings.ContainsAny(n[1:2], "@+") {
				need("multi-prefix")
			}
		}
	}
}

func p11Caps(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db"})
	w := NewWorld(t, store)
	up := NewUpstream(t, "net")
	upPool := append([]string{"batch", "server-time", "setname", "invite-notify", "labeled-response", "sasl=PLAIN", "echo-message"}, p11NeedAll...)
	pick := func() []string {
		switch r.Intn(4) {
		case 0:
			return append([]string(nil), upPool...)
		case 1:
			return Subset(r, upPool, 0.3)
		}
		return Subset(r, upPool, 0.75)
	}
	// a network with labels also has message tags
	norm := func(l []string) (out []string) {
		m := setOf(l)
		for _, c := range l {
			if c != "labeled-response" || m["message-tags"] {
				out = append(out, c)
			}
		}
		return out
	}
	up.Caps = norm(pick())
	up.Members = func(string) []string { return []string{"alice", "@+bob", "+carl"} }
	up.Start()
	u := w.AddUser("user", false)
	dn := w.AddNetwork(u, "net", up)
	w.AddChannel(dn, "#chan")
	w.Start()
	up.Conn(0)
	conns := 0
	uc := up.Ready(0)
	// U is the set of capabilities the bouncer has on the network.
	upHas := func(c string) bool { return uc.HasCap(c) }
	waitJoin := func() {
		uc.Wait(0, "JOIN #chan", func(l Line) bool { return l.Command == "JOIN" })
		uc.Sync()
		uc.Sync()
	}
	waitJoin()
	hasStore := store != "memory"
	expAv := func(p *p11Client) map[string]bool {
		m := setOf(p11Perm)
		if hasStore {
			m["draft/chathistory"], m["soju.im/search"] = true, true
		}
		if !p.welcome {
			m["sasl"] = true
			if p.ver >= 302 {
				for _, c := range p11NeedAll {
					m[c] = true
				}
			}
			return m
		}
		for _, c := range p11NeedAll {
			if !p.bound || upHas(c) {
				m[c] = true
			}
		}
		if !p.bound || upHas("sasl") {
			m["sasl"] = true
		}
		if hasStore && p.bound {
			m["draft/event-playback"] = true
		}
		return m
	}
	var cls []*p11Client
	defer func() {
		for _, p := range cls {
			p.c.Dump()
		}
		uc.Dump()
	}()
	every := append(append([]string{"sasl", "draft/chathistory", "soju.im/search", "draft/event-playback"}, p11Perm...), p11NeedAll...)
	// sync fences one client and brings its model up to date.
	sync := func(p *p11Client) []Line {
		end := p.c.Sync()
		ls := p.feed(end)
		want := expAv(p)
		if p.has("cap-notify") {
			if setStr(p.av) != setStr(want) {
				Failf("%s: capabilities announced so far: %s\nthe network supports: %s\nso the client should have been offered: %s", p.c.Name, setStr(p.av), strings.Join(up.Caps, " "), setStr(want))
			}
		}
		p.av = want
		for c := range p.en {
			if !p.av[c] {
				delete(p.en, c)
			}
		}
		if len(p.open) != 0 {
			Failf("%s: batches never closed: %v", p.c.Name, p.open)
		}
		t.Count("lines_checked", len(ls))
		return ls
	}
	req := func(p *p11Client) {
		n := 1 + r.Intn(5)
		used := map[string]bool{}
		var toks []string
		ack := true
		m := map[string]bool{}
		kind := "valid"
		for i := 0; i < n; i++ {
			name := Pick(r, every)
			if r.Intn(12) == 0 {
				name = Pick(r, []string{"foo", "draft/none", "labeled-response", "standard-replies"})
			}
			if used[name] {
				continue
			}
			used[name] = true
			enable := r.Intn(10) < 7
			known := p.av[name] || p.en[name]
			if !enable && !known {
				continue
			}
			tok := name
			if r.Intn(6) == 0 {
				tok = strings.ToUpper(tok)
			}
			if !enable {
				tok = "-" + tok
			}
			toks = append(toks, tok)
			if enable == p.en[name] {
				continue
			}
			if !p.av[name] || name == "soju.im/account-required" || (name == "cap-notify" && !enable && p.ver >= 302) {
				ack = false
				kind = "invalid"
			}
			m[name] = enable
		}
		if len(toks) == 0 {
			return
		}
		before := map[string]bool{}
		for k := range p.en {
			before[k] = true
		}
		acks, naks := p.acks, p.naks
		p.c.Send("CAP REQ :" + strings.Join(toks, " "))
		p.c.Send("CAP LIST")
		p.c.Wait(p.pos, "CAP LIST", func(l Line) bool { return l.Command == "CAP" && l.P(1) == "LIST" })
		nl := len(p.lists)
		p.feed(-1)
		if len(p.lists) == nl {
			p.c.Wait(p.pos, "CAP LIST", func(l Line) bool { return l.Command == "CAP" && l.P(1) == "LIST" })
			p.feed(-1)
		}
		if p.acks+p.naks != acks+naks+1 {
			Failf("%s: CAP REQ :%s got %d replies", p.c.Name, strings.Join(toks, " "), p.acks+p.naks-acks-naks)
		}
		if (p.acks == acks+1) != ack {
			Failf("%s: CAP REQ :%s acknowledged=%v, want %v (offered: %s; enabled before: %s)", p.c.Name, strings.Join(toks, " "), p.acks == acks+1, ack, setStr(p.av), setStr(before))
		}
		want := before
		if ack {
			for k, v := range m {
				want[k] = v
				if !v {
					delete(want, k)
				}
			}
		}
		if got := p.lists[len(p.lists)-1]; got != setStr(want) {
			Failf("%s: after CAP REQ :%s (acknowledged=%v) CAP LIST gives\n  %s\nwant\n  %s", p.c.Name, strings.Join(toks, " "), ack, got, setStr(want))
		}
		t.State("req|%s|%d|%v", kind, p.ver, p.welcome)
		t.Count("cap_requests_"+kind, 1)
	}
	ls := func(p *p11Client) {
		p.lsReply = nil
		if p.ver == 0 {
			p.ver = 301
		}
		p.c.Send(map[int]string{301: "CAP LS", 302: "CAP LS 302"}[p.ver])
		p.c.Wait(p.pos, "CAP LS", func(l Line) bool { return l.Command == "CAP" && l.P(1) == "LS" })
		p.feed(-1)
		if p.ver >= 302 {
			p.en["cap-notify"] = true
		}
		want := expAv(p)
		if setStr(p.lsReply) != setStr(want) {
			Failf("%s: CAP LS (version %d) lists\n  %s\nwant\n  %s", p.c.Name, p.ver, setStr(p.lsReply), setStr(want))
		}
		p.av = want
	}
	connect := func() {
		p := &p11Client{w: w, bound: r.Intn(6) > 0, en: map[string]bool{}, open: map[string]string{}}
		p.ver = Pick(r, []int{302, 302, 302, 301, 0})
		p.c = w.Dial(fmt.Sprintf("c%d/%d", len(cls), p.ver))
		cls = append(cls, p)
		p.av = expAv(p)
		cap := false
		if p.ver != 0 {
			cap = true
			ls(p)
		}
		if p.ver != 0 || r.Intn(2) == 0 {
			for i, n := 0, r.Intn(6); i < n; i++ {
				req(p)
				cap = true
			}
		}
		user := "user"
		if p.bound {
			user = "user/net"
		}
		p.c.Send("PASS pw-user", "NICK user", "USER "+user+" 0 * :x")
		if cap || r.Intn(3) == 0 {
			p.c.Send("CAP END")
		}
		if p.c.Wait(0, "001", func(l Line) bool { return l.Command == "001" }) < 0 {
			panic(Stuck{"no welcome"})
		}
		p.welcome = true
		sync(p)
	}
	for i, n := 0, 2+r.Intn(3); i < n; i++ {
		connect()
	}
	id := 0
	nick := 0
	// event sends one line from the network and checks who gets it.
	event := func() {
		id++
		tok := fmt.Sprintf("tok%dx", id)
		src := ":alice!a@h.example"
		cmd, params, capNeeded, upCap := "", "", "", ""
		match := func(l Line) bool { return strings.Contains(l.Raw, tok) }
		var verify func(p *p11Client, l Line)
		switch k := r.Intn(10); k {
		case 0, 1, 2:
			cmd, params = Pick(r, []string{"PRIVMSG", "NOTICE"}), Pick(r, []string{"#chan", "user"})+" :hi "+tok
		case 3:
			cmd, params, capNeeded, upCap = "TAGMSG", Pick(r, []string{"#chan", "user"}), "message-tags", "message-tags"
		case 4:
			nick++
			n := fmt.Sprintf("n%s", tok)
			src = ":" + n + "!u@h.example"
			cmd, params = "JOIN", "#chan"
			if upHas("extended-join") {
				params = "#chan acc" + tok + " :Real " + tok
				verify = func(p *p11Client, l Line) {
					if p.has("extended-join") && (l.P(1) != "acc"+tok || l.P(2) != "Real "+tok) {
						Failf("%s: extended JOIN arrived as %q", p.c.Name, l.Raw)
					}
				}
			}
		case 5:
			cmd, params, capNeeded, upCap = "SETNAME", ":Real "+tok, "setname", "setname"
		case 6:
			cmd, params, capNeeded, upCap = "CHGHOST", "u "+tok+".example", "chghost", "chghost"
		case 7:
			cmd, params, capNeeded, upCap = "AWAY", ":gone "+tok, "away-notify", "away-notify"
		case 8:
			cmd, params, capNeeded, upCap = "ACCOUNT", tok, "account-notify", "account-notify"
		case 9:
			cmd, params = "INVITE", "user #"+tok
			if upHas("invite-notify") && r.Intn(2) == 0 {
				params, capNeeded = "bob #chan", "invite-notify"
				match = func(l Line) bool { return l.Command == "INVITE" && l.P(0) == "bob" }
			}
		}
		if upCap != "" && !upHas(upCap) {
			return
		}
		tags := map[string]string{}
		if upHas("message-tags") && cmd != "JOIN" {
			if cmd == "TAGMSG" || r.Intn(2) == 0 {
				tags["+ex/"+tok] = "v" + tok
				tags["msgid"] = "id" + tok
			}
		}
		if upHas("account-tag") && r.Intn(2) == 0 {
			tags["account"] = "alice"
		}
		tm := time.Now().Add(-time.Duration(r.Intn(1000)) * time.Millisecond).UTC().Format("2006-01-02T15:04:05.000Z")
		if upHas("server-time") && r.Intn(2) == 0 {
			tags["time"] = tm
		}
		batch := ""
		if upHas("batch") && r.Intn(4) == 0 {
			batch = "b" + tok
			tags["batch"] = batch
		}
		var tl []string
		for k, v := range tags {
			tl = append(tl, k+"="+v)
		}
		line := src + " " + cmd + " " + params
		if len(tl) > 0 {
			sort.Strings(tl)
			line = "@" + strings.Join(tl, ";") + " " + line
		}
		if batch != "" {
			uc.Sendf(":net.example BATCH +%s example.com/foo", batch)
		}
		uc.Send(line)
		if batch != "" {
			uc.Sendf(":net.example BATCH -%s", batch)
		}
		uc.Sync()
		for _, p := range cls {
			lines := sync(p)
			n := 0
			var got Line
			for _, l := range lines {
				if match(l) && l.Command != "PONG" {
					n++
					got = l
				}
			}
			want := 0
			if p.bound && (capNeeded == "" || p.has(capNeeded)) {
				want = 1
			}
			t.State("ev|%s|%v|%d|%v|%v", cmd, capNeeded != "" && p.has(capNeeded), p.ver, p.bound, p.has("message-tags"))
			t.Count("events_checked", 1)
			if n != want {
				Failf("%s: the network sent %q; the client received it %d times, want %d (enabled: %s)", p.c.Name, line, n, want, setStr(p.en))
			}
			if n == 0 {
				continue
			}
			if got.Command != cmd {
				Failf("%s: the network sent %q; the client received %q", p.c.Name, line, got.Raw)
			}
			for k, v := range tags {
				ok := p.has("message-tags")
				switch k {
				case "time":
					ok = ok || p.has("server-time")
				case "account":
					ok = ok || p.has("account-tag")
				case "batch":
					ok = false
				}
				gv, present := got.Tags[k]
				if k == "time" && len(gv) > 19 && gv[:19] == v[:19] {
					gv = v // the file store has a resolution of one second
				}
				if ok && (!present || gv != v) {
					Failf("%s: the network sent %q; the client received %q, without the right tag %q (enabled: %s)", p.c.Name, line, got.Raw, k, setStr(p.en))
				}
			}
			if p.has("server-time") && (cmd == "PRIVMSG" || cmd == "NOTICE") && got.Tags["time"] == "" {
				Failf("%s: message %q without a time, though server-time is enabled", p.c.Name, got.Raw)
			}
			if verify != nil {
				verify(p, got)
			}
		}
	}
	action := func() {
		p := Pick(r, cls)
		id++
		tok := fmt.Sprintf("tok%dx", id)
		switch r.Intn(8) {
		case 0: // own message
			if !p.bound {
				return
			}
			p.c.Sendf("PRIVMSG #chan :me %s", tok)
			p.c.Sync()
			uc.Sync()
			uc.Sync()
			for _, q := range cls {
				n := 0
				for _, l := range sync(q) {
					if l.Command == "PRIVMSG" && strings.Contains(l.Raw, tok) {
						n++
					}
				}
				want := 0
				if q.bound && (q != p || p.has("echo-message")) {
					want = 1
				}
				if n != want {
					Failf("%s: %d copies of the message %s sent by %s, want %d (enabled: %s)", q.c.Name, n, tok, p.c.Name, want, setStr(q.en))
				}
			}
			t.State("echo|%v|%v", p.has("echo-message"), upHas("echo-message"))
		case 1: // join
			if !p.bound {
				return
			}
			ch := "#" + tok
			p.c.Send("JOIN " + ch)
			p.c.Sync()
			uc.Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" && strings.Contains(l.P(0), ch) })
			uc.Sync()
			uc.Sync()
			for _, q := range cls {
				names, joins, marks := 0, 0, 0
				for _, l := range sync(q) {
					switch {
					case l.Command == "366" && l.P(1) == ch:
						names++
					case l.Command == "JOIN" && l.P(0) == ch:
						joins++
					case (l.Command == "MARKREAD" || l.Command == "READ") && l.P(0) == ch:
						marks++
					}
				}
				wj, wn, wm := 0, 0, 0
				if q.bound {
					wj, wn = 1, 1
					if q.has("draft/no-implicit-names") || q.has("soju.im/no-implicit-names") {
						wn = 0
					}
					if q.has("draft/read-marker") || q.has("soju.im/read") {
						wm = 1
					}
				}
				t.State("join|%d|%d", wn, wm)
				if names != wn || joins != wj || marks != wm {
					Failf("%s: joining %s gave %d JOIN, %d end of NAMES and %d read markers, want %d, %d and %d (enabled: %s)", q.c.Name, ch, joins, names, marks, wj, wn, wm, setStr(q.en))
				}
			}
			p.c.Send("PART " + ch)
			p.c.Sync()
			uc.Sync()
			uc.Sync()
		case 2: // NAMES and multi-prefix
			if !p.bound {
				return
			}
			p.c.Send("NAMES #chan")
			for _, l := range sync(p) {
				if l.Command != "353" {
					continue
				}
				want := "@bob"
				if p.has("multi-prefix") {
					want = "@+bob"
				}
				if upHas("multi-prefix") || true {
					found := false
					for _, n := range strings.Fields(l.P(3)) {
						found = found || n == want
					}
					if !found {
						Failf("%s: NAMES gives %q, want %s in it (enabled: %s)", p.c.Name, l.Raw, want, setStr(p.en))
					}
					t.State("names|%v", p.has("multi-prefix"))
				}
			}
		case 3: // network notification
			p.c.Sendf("BOUNCER ADDNETWORK name=%s;host=127.0.0.1;port=1", tok)
			sync(p)
			nid := ""
			for _, l := range p.c.Lines() {
				if l.Command == "BOUNCER" && l.P(0) == "ADDNETWORK" {
					nid = l.P(1)
				}
			}
			if nid == "" {
				Failf("%s: BOUNCER ADDNETWORK was not answered", p.c.Name)
			}
			p.c.Sendf("BOUNCER DELNETWORK %s", nid)
			p.c.Sync()
			for _, q := range cls {
				n := 0
				from := 0
				if q == p {
					continue
				}
				for _, l := range append(q.c.Since(q.pos), sync(q)...)[from:] {
					if l.Command == "BOUNCER" && l.P(0) == "NETWORK" && l.P(1) == nid {
						n++
					}
				}
				if (n > 0) != q.has("soju.im/bouncer-networks-notify") {
					Failf("%s: got %d notifications for network %s (enabled: %s)", q.c.Name, n, nid, setStr(q.en))
				}
				t.State("notify|%v", n > 0)
			}
		case 4: // history in a batch
			if !p.bound || !hasStore || !p.av["draft/chathistory"] {
				return
			}
			p.c.Send("CHATHISTORY LATEST #chan * 20")
			p.hist = true
			lines := sync(p)
			p.hist = false
			batches := 0
			for _, l := range lines {
				if l.Command == "BATCH" && strings.HasPrefix(l.P(0), "+") && l.P(1) == "chathistory" {
					batches++
				}
				if l.Tags["batch"] != "" && l.Command != "PRIVMSG" && l.Command != "NOTICE" && l.Command != "BATCH" && !p.has("draft/event-playback") && !(l.Command == "TAGMSG") {
					Failf("%s: history holds %q without draft/event-playback", p.c.Name, l.Raw)
				}
			}
			if (batches > 0) != p.has("batch") {
				Failf("%s: history reply with %d batches (enabled: %s)", p.c.Name, batches, setStr(p.en))
			}
			t.State("history|%v", p.has("batch"))
		case 5:
			if p.bound {
				p.c.Sendf("MARKREAD #chan timestamp=%s", time.Now().UTC().Format("2006-01-02T15:04:05.000Z"))
			}
		case 6:
			ls(p)
		case 7: // own host changes
			if !upHas("chghost") {
				return
			}
			uc.Sendf(":user!user@host.example CHGHOST u%s %s.example", tok, tok)
			uc.Sync()
			for _, q := range cls {
				ch, vh := 0, 0
				for _, l := range sync(q) {
					if l.Command == "CHGHOST" && strings.Contains(l.Raw, tok) {
						ch++
					}
					if l.Command == "396" && strings.Contains(l.Raw, tok) {
						vh++
					}
				}
				wc, wv := 0, 0
				if q.bound {
					wc, wv = 1, 0
					if !q.has("chghost") {
						wc, wv = 0, 1
					}
				}
				if ch != wc || vh != wv {
					Failf("%s: the user's host changed: %d CHGHOST and %d 396, want %d and %d (enabled: %s)", q.c.Name, ch, vh, wc, wv, setStr(q.en))
				}
				t.State("host|%d", wc)
			}
		}
		for _, q := range cls {
			sync(q)
		}
	}
	upChange := func() {
		switch r.Intn(3) {
		case 0: // withdrawn by the network
			var on []string
			for _, c := range up.Caps {
				n, _, _ := strings.Cut(c, "=")
				if upHas(n) && n != "batch" {
					on = append(on, c)
				}
			}
			if len(on) == 0 {
				return
			}
			del := Pick(r, on)
			name, _, _ := strings.Cut(del, "=")
			var rest []string
			for _, c := range up.Caps {
				if c != del {
					rest = append(rest, c)
				}
			}
			up.Caps = norm(rest)
			uc.DropCap(name)
			if name == "message-tags" {
				uc.DropCap("labeled-response")
				name += " labeled-response"
			}
			uc.Sendf(":net.example CAP user DEL :%s", name)
			t.State("upcap|del|%s", name)
		case 1:
			have := setOf(up.Caps)
			var off []string
			for _, c := range upPool {
				if !have[c] && (c != "labeled-response" || have["message-tags"]) {
					off = append(off, c)
				}
			}
			if len(off) == 0 {
				return
			}
			add := Pick(r, off)
			up.Caps = append(append([]string(nil), up.Caps...), add)
			uc.Sendf(":net.example CAP user NEW :%s", add)
			t.State("upcap|new|%s", add)
			uc.Sync()
		case 2:
			up.Caps = norm(pick())
			conns++
			uc.Close()
			up.Conn(conns)
			uc = up.Ready(conns)
			waitJoin()
			for _, q := range cls {
				if q.bound && !q.has("cap-notify") {
					delete(q.en, "sasl") // withdrawn while the network was away
				}
			}
			t.State("upcap|reconnect")
		}
		uc.Sync()
		uc.Sync()
		for _, q := range cls {
			sync(q)
		}
		t.Count("network_capability_changes", 1)
	}
	for i, n := 0, 15+r.Intn(25); i < n; i++ {
		switch k := r.Intn(20); {
		case k < 8:
			event()
		case k < 13:
			action()
		case k < 17:
			req(Pick(r, cls))
		case k < 19:
			upChange()
		default:
			if len(cls) < 6 {
				connect()
			}
		}
	}
	for _, p := range cls {
		sync(p)
	}
	w.CheckNoPanic()
}
