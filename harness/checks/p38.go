package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync/atomic"

	"codeberg.org/emersion/soju"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P38", Level: "exploration",
		Rule:   "one execution = a simulated network that announces a random set of features in a random number of lines (with and without values, empty and escaped values, unknown names, any case), then adds, changes and withdraws features and capabilities (also the values of capabilities in use) and is reconnected to, while clients of several protocol versions connect, bound to the network or not, before, between and after those changes; after each step the feature table and the capability table replayed from every client's own transcript are compared with the network's current announcements plus the bouncer's own ones. A situation is (kind of change, feature or capability, state before, when the client registered)",
		Assume: []string{"which of the network's features are passed on (31 names) and which are decided by the bouncer is as documented in the code", "features a network no longer announces after a reconnection may linger for clients which were already connected"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "features", e.N(3000, 60000), p38Features)
		},
	})
}

// p38Pass lists the network features clients are told about.
var p38Pass = strings.Fields("ACCOUNTEXTBAN AWAYLEN BOT CASEMAPPING CHANLIMIT CHANMODES CHANNELLEN CHANTYPES CLIENTTAGDENY ELIST EXCEPTS EXTBAN HOSTLEN INVEX KICKLEN LINELEN MAXLIST MAXTARGETS MODES MONITOR NAMELEN NETWORK NICKLEN PREFIX SAFELIST STATUSMSG TARGMAX TOPICLEN USERLEN UTF8ONLY WHOX")

// p38Own lists features the bouncer decides itself, and others it does not
// pass on.
var p38Own = strings.Fields("CHATHISTORY MSGREFTYPES BOUNCER_NETID VAPID soju.im/FILEHOST soju.im/SAFERATE SILENCE CALLERID FNC KNOCK CPRIVMSG draft/ICON WATCH ETRACE -")

func p38Value(r *rand.Rand, name string) (v string, has bool) {
	switch name {
	case "CASEMAPPING":
		return Pick(r, []string{"ascii", "rfc1459", "rfc1459-strict"}), true
	case "CHANMODES":
		return Pick(r, []string{"b,k,l,imnt", "eIbq,k,flj,CFLMPQScgimnprstuz", "beI,k,l,imnpst,X", "b,,,t"}), true
	case "PREFIX":
		return Pick(r, []string{"(ov)@+", "(qaohv)~&@%+", "(o)@", ""}), true
	case "CHANTYPES":
		return Pick(r, []string{"#", "#&", "&#+"}), true
	case "STATUSMSG":
		return Pick(r, []string{"@+", "~&@%+", "@"}), true
	case "MONITOR":
		if r.Intn(4) == 0 {
			return "", false
		}
		return fmt.Sprint(r.Intn(200)), true
	case "BOT":
		return Pick(r, []string{"B", "b", "z"}), true
	case "soju.im/SAFERATE":
		return "", false
	}
	switch r.Intn(8) {
	case 0:
		return "", false
	case 1:
		return "", true
	case 2:
		return Pick(r, []string{`My\x20Net`, `a\x5Cb`, `x\x3Dy`, `\x20`, `caf\xC3\xA9`, `\x5Cx20`, `50%\x20\x2B\x203`}), true
	case 3:
		return Pick(r, []string{"a=b", "a=b=c", "$,ARar", "~,qjncrRa", "b:100,e:50", "NAMES:1,LIST:1,KICK:1,PRIVMSG:4,NOTICE:4,ACCEPT:,MONITOR:", "Ünïcode", "-", "#:120,&:"}), true
	}
	return fmt.Sprint(r.Intn(1000)), true
}

// p38Table replays a list of tokens.
func p38Table(m map[string]string, tokens []string) {
	for _, tok := range tokens {
		if strings.HasPrefix(tok, "-") {
			delete(m, strings.ToUpper(tok[1:]))
			continue
		}
		name, _, _ := strings.Cut(tok, "=")
		m[strings.ToUpper(name)] = tok[len(name):]
	}
}

func p38Show(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

type p38Client struct {
	c          *Client
	bound      bool
	webpush    bool
	ver        int
	notify     bool
	feat, caps map[string]string
	stale      map[string]bool // features of an earlier connection
	tagdeny    bool
	pos        int
	when       string
}

func (p *p38Client) feed(end int) {
	ls := p.c.Since(p.pos)
	if end >= 0 {
		ls = ls[:end+1-p.pos]
	}
	p.pos += len(ls)
	for _, l := range ls {
		switch l.Command {
		case "005":
			if len(l.Params) < 3 || len(l.Params) > 15 {
				Failf("%s received %q: %d parameters", p.c.Name, l.Raw, len(l.Params))
			}
			p38Table(p.feat, l.Params[1:len(l.Params)-1])
		case "CAP":
			switch l.P(1) {
			case "LS":
				if l.P(2) != "*" || len(l.Params) < 4 {
					p.caps = map[string]string{}
				}
				fallthrough
			case "NEW":
				for _, f := range strings.Fields(l.P(len(l.Params) - 1)) {
					name, _, _ := strings.Cut(f, "=")
					p.caps[name] = f[len(name):]
					if p.ver < 302 && len(f) > len(name) {
						Failf("%s received %q: value without version 302", p.c.Name, l.Raw)
					}
				}
			case "DEL":
				for _, f := range strings.Fields(l.P(2)) {
					delete(p.caps, f)
				}
			}
		}
	}
}

func p38Features(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db"})
	w := NewWorld(t, store)
	title := ""
	if r.Intn(2) == 0 {
		title = Pick(r, []string{"bouncer", "My bouncer", `back\slash net`})
		w.Cfg = func(c *soju.Config) { c.Title = title }
	}
	up := NewUpstream(t, "net")
	capPool := []string{"message-tags", "account-notify", "away-notify", "extended-join", "chghost"}
	regValues := []string{"before-connect", "custom-account-name", "email-required"}
	capSet := map[string]string{}
	capValue := func(name string) string {
		switch name {
		case "draft/account-registration":
			v := strings.Join(Subset(r, regValues, 0.5), ",")
			if v == "" {
				return ""
			}
			return "=" + v
		case "sasl":
			return Pick(r, []string{"", "=PLAIN", "=EXTERNAL", "=PLAIN,EXTERNAL", "=SCRAM-SHA-256,PLAIN", "=SCRAM-SHA-256"})
		}
		return ""
	}
	allCaps := append([]string{"draft/account-registration", "sasl"}, capPool...)
	capList := func() {
		up.Caps = nil
		for _, k := range sortedKeys(capSet) {
			up.Caps = append(up.Caps, k+capSet[k])
		}
	}
	for _, n := range Subset(r, allCaps, 0.6) {
		capSet[n] = capValue(n)
	}
	capList()
	feat := map[string]string{} // as announced on the current connection
	token := func() string {
		name := Pick(r, p38Pass)
		if r.Intn(5) == 0 {
			name = Pick(r, p38Own)
		}
		if name == "-" {
			name = fmt.Sprintf("X%d", r.Intn(100))
		}
		v, has := p38Value(r, name)
		tok := name
		if r.Intn(12) == 0 {
			tok = strings.ToLower(tok)
		}
		if has {
			tok += "=" + v
		}
		return tok
	}
	distinct := func(n int) (l []string) {
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			tok := token()
			name, _, _ := strings.Cut(tok, "=")
			if !seen[strings.ToUpper(name)] {
				seen[strings.ToUpper(name)] = true
				l = append(l, tok)
			}
		}
		return l
	}
	var initial [][]string
	draw := func() {
		initial = [][]string{{"soju.im/SAFERATE"}} // else soju delays what it sends
		feat = map[string]string{}
		for i, n := 0, r.Intn(8); i < n; i++ {
			line := distinct(1 + r.Intn(12))
			if i > 0 && r.Intn(4) == 0 { // a later line changes or withdraws a feature
				name, _, _ := strings.Cut(Pick(r, initial[i]), "=")
				if !strings.EqualFold(name, "soju.im/SAFERATE") {
					line = append(line, "-"+strings.TrimPrefix(name, "-"))
				}
			}
			initial = append(initial, line)
			p38Table(feat, line)
		}
	}
	draw()
	up.NoISup = true
	up.Welcome = func(c *UpConn) {
		nick := c.CurNick()
		c.Send(fmt.Sprintf(":net.example 001 %s :Welcome", nick), fmt.Sprintf(":net.example 004 %s net.example fake ioswg ntkl", nick))
		for _, l := range initial {
			c.Sendf(":net.example 005 %s %s :are supported by this server", nick, strings.Join(l, " "))
		}
		c.Sendf(":net.example 422 %s :No MOTD", nick)
	}
	var refuse atomic.Bool // requests for capabilities
	refuse.Store(r.Intn(5) == 0)
	up.OnLine = func(c *UpConn, l Line) bool {
		if l.Command == "CAP" && strings.EqualFold(l.P(0), "REQ") && refuse.Load() {
			c.Sendf(":net.example CAP * NAK :%s", l.P(1))
			return true
		}
		return false
	}
	up.Start()
	u := w.AddUser("user", false)
	dn := w.AddNetwork(u, "net", up)
	w.Start()
	conns := 0
	up.Conn(0)
	uc := up.Ready(0)
	fence := func() {
		uc.Sync()
		uc.Sync()
	}
	fence()
	var cls []*p38Client
	defer func() {
		for _, p := range cls {
			p.c.Dump()
		}
		uc.Dump()
	}()
	wantFeat := func(p *p38Client) map[string]string {
		m := map[string]string{"SOJU.IM/SAFERATE": ""}
		if p.webpush {
			m["VAPID"] = ""
		}
		if !p.bound {
			m["BOT"], m["CASEMAPPING"], m["CHANTYPES"], m["LINELEN"], m["WHOX"] = "=B", "=ascii", "=", "=4096", ""
			if title != "" {
				m["NETWORK"] = "=" + strings.NewReplacer(`\`, `\x5C`, " ", `\x20`).Replace(title)
			}
			return m
		}
		m["BOUNCER_NETID"] = fmt.Sprintf("=%d", dn.ID)
		if store != "memory" {
			m["CHATHISTORY"], m["MSGREFTYPES"] = "=1000", "=timestamp"
		}
		for _, k := range p38Pass {
			if v, ok := feat[k]; ok {
				m[k] = v
			}
		}
		return m
	}
	// has tells whether a capability is in use, and its value
	has := func(name string) (string, bool) {
		v, ok := capSet[name]
		return v, ok && uc.HasCap(name)
	}
	wantCap := func(p *p38Client, name string) (string, bool) {
		switch name {
		case "sasl":
			// soju asks for it only with a configured account, or later
			v, ok := capSet[name]
			if p.bound && !(ok && (v == "" || strings.Contains(v, "PLAIN"))) {
				return "", false
			}
			v = "=PLAIN,ANONYMOUS"
			if !p.bound {
				v = "=PLAIN"
			}
			if p.ver < 302 {
				v = ""
			}
			return v, true
		case "draft/account-registration":
			v, ok := has(name)
			if !p.bound || !ok {
				return "", false
			}
			var l []string
			for _, s := range strings.Split(strings.TrimPrefix(v, "="), ",") {
				if s != "before-connect" && s != "" {
					l = append(l, s)
				}
			}
			if len(l) == 0 || p.ver < 302 {
				return "", true
			}
			return "=" + strings.Join(l, ","), true
		}
		_, ok := has(name)
		return "", ok || !p.bound
	}
	check := func(p *p38Client, step string) {
		p.feed(p.c.Sync())
		want := wantFeat(p)
		got := map[string]string{}
		for k, v := range p.feat {
			if k == "VAPID" {
				if len(v) < 40 {
					Failf("%s: VAPID%s is not a key", p.c.Name, v)
				}
				v = ""
			}
			if k == "CLIENTTAGDENY" && p.tagdeny && want[k] == "" {
				if _, ok := want[k]; !ok && v == "=*" {
					continue // all of them are dropped
				}
			}
			if _, ok := want[k]; !ok && p.stale[k] {
				continue
			}
			got[k] = v
		}
		if a, b := p38Show(got), p38Show(want); a != b {
			Failf("%s (%s), after %s: the features it was told are\n  %s\nthe network's and the bouncer's own are\n  %s", p.c.Name, p.when, step, a, b)
		}
		t.Count("feature_tables_compared", 1)
		t.Count("features_compared", len(want))
		if !p.notify {
			p.c.Send(map[int]string{301: "CAP LS", 302: "CAP LS 302"}[p.ver])
			p.feed(p.c.Sync())
		}
		for _, name := range allCaps {
			gv, gok := p.caps[name]
			wv, wok := wantCap(p, name)
			if gok != wok || gv != wv {
				Failf("%s (%s), after %s: capability %s is offered=%v with value %q, want offered=%v value %q; the network's capabilities are %s", p.c.Name, p.when, step, name, gok, gv, wok, wv, strings.Join(up.Caps, " "))
			}
		}
		t.Count("capability_tables_compared", 1)
	}
	connect := func(when string) {
		p := &p38Client{bound: r.Intn(4) > 0, ver: Pick(r, []int{302, 302, 301}), feat: map[string]string{}, caps: map[string]string{}, stale: map[string]bool{}, when: when}
		p.c = w.Dial(fmt.Sprintf("c%d", len(cls)))
		cls = append(cls, p)
		p.c.Send(map[int]string{301: "CAP LS", 302: "CAP LS 302"}[p.ver])
		var caps []string
		if p.webpush = r.Intn(3) == 0; p.webpush {
			caps = append(caps, "soju.im/webpush")
		}
		if p.notify = p.ver == 302 || r.Intn(2) == 0; p.notify {
			caps = append(caps, "cap-notify")
		}
		if len(caps) > 0 {
			p.c.Send("CAP REQ :" + strings.Join(caps, " "))
		}
		user := "user"
		if p.bound {
			user = "user/net"
		}
		p.c.Send("PASS pw-user", "NICK user", "USER "+user+" 0 * :x", "CAP END")
		if p.c.Wait(0, "001", func(l Line) bool { return l.Command == "001" }) < 0 {
			panic(Stuck{"no welcome"})
		}
		_, mt := has("message-tags")
		_, cd := feat["CLIENTTAGDENY"]
		p.tagdeny = p.bound && !mt && !cd
		p.feed(p.c.Sync())
		if p.tagdeny && p.feat["CLIENTTAGDENY"] != "=*" {
			Failf("%s: not told that the network takes no client tags", p.c.Name)
		}
		if !p.tagdeny && p.bound && !cd {
			if v, ok := p.feat["CLIENTTAGDENY"]; ok {
				Failf("%s: told CLIENTTAGDENY%s, though the network has message tags", p.c.Name, v)
			}
		}
		t.State("client|%s|%v|%d", when, p.bound, p.ver)
	}
	all := func(step string) {
		for _, p := range cls {
			check(p, step)
		}
	}
	for i, n := 0, r.Intn(3); i < n; i++ {
		connect("at the start")
	}
	all("connecting")
	nick := func() string { return Pick(r, []string{uc.CurNick(), "*"}) }
	for i, n := 0, 6+r.Intn(14); i < n; i++ {
		step := ""
		refuse.Store(r.Intn(5) == 0)
		switch k := r.Intn(16); {
		case k < 4: // additions and changes
			step = "additions"
			for j, m := 0, 1+r.Intn(3); j < m; j++ {
				l := distinct(1 + r.Intn(13))
				for _, tok := range l {
					name, _, _ := strings.Cut(tok, "=")
					_, had := feat[strings.ToUpper(name)]
					t.State("add|%s|%v|%v", strings.ToUpper(name), had, strings.Contains(tok, "="))
				}
				p38Table(feat, l)
				uc.Sendf(":net.example 005 %s %s :are supported by this server", nick(), strings.Join(l, " "))
			}
		case k < 8: // withdrawals, alone or with additions
			step = "withdrawals"
			l := distinct(r.Intn(4))
			var have []string
			for _, k := range sortedKeys(feat) {
				if k != "SOJU.IM/SAFERATE" {
					have = append(have, k)
				}
			}
			for _, h := range Subset(r, have, 0.15) {
				l = append(l, "-"+h)
				t.State("withdraw|%s", h)
			}
			if len(have) > 0 && r.Intn(2) == 0 {
				l = append(l, "-"+Pick(r, have))
			}
			if r.Intn(4) == 0 {
				l = append(l, "-"+Pick(r, p38Pass)) // maybe never announced
			}
			r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
			for len(l) > 0 {
				n := 13
				if n > len(l) {
					n = len(l)
				}
				p38Table(feat, l[:n])
				uc.Sendf(":net.example 005 %s %s :are supported by this server", nick(), strings.Join(l[:n], " "))
				l = l[n:]
			}
		case k < 9: // the answer to VERSION
			step = "VERSION"
			l := distinct(1 + r.Intn(5))
			p38Table(feat, l)
			uc.Sendf(":net.example 351 %s fake-1 net.example :hi", uc.CurNick())
			uc.Sendf(":net.example 005 %s %s :are supported by this server", uc.CurNick(), strings.Join(l, " "))
		case k < 11:
			step = "a new capability value"
			name := Pick(r, allCaps)
			old, had := capSet[name]
			v := capValue(name)
			capSet[name] = v
			capList()
			uc.Sendf(":net.example CAP %s NEW :%s", uc.CurNick(), name+v)
			t.State("capnew|%s|%v|%v", name, had, old != v)
		case k < 12:
			if len(capSet) == 0 {
				continue
			}
			step = "withdrawal of a capability"
			name := Pick(r, sortedKeys(capSet))
			delete(capSet, name)
			capList()
			uc.DropCap(name)
			uc.Sendf(":net.example CAP %s DEL :%s", uc.CurNick(), name)
			t.State("capdel|%s", name)
		case k < 13:
			step = "a reconnection"
			for _, p := range cls {
				for k := range p.feat {
					p.stale[k] = true
				}
			}
			draw()
			for n := range capSet {
				delete(capSet, n)
			}
			for _, n := range Subset(r, allCaps, 0.6) {
				capSet[n] = capValue(n)
			}
			capList()
			conns++
			uc.Close()
			up.Conn(conns)
			uc = up.Ready(conns)
		default:
			if len(cls) < 6 {
				fence()
				connect("after changes")
			}
			step = "another client connecting"
		}
		fence()
		all(step)
	}
	w.CheckNoPanic()
}
