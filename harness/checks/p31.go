package checks

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P31", Level: "stress_oracle",
		Rule:   "the same random operations (messages, joins, parts, topics, modes, NAMES, history and search queries, read markers, detaching and other settings, deletion, clients coming and going with backlog, nick changes, reconnections, restarts) are run twice: with plain names in one spelling, and with names which only differ in characters that another case mapping would merge, every command using a random spelling equal under the announced mapping. What every client and the network receive must be the same after every operation, up to the names; names in what the network reports must be spelled as the network spells them. A situation is (mapping, store, operation, outcome size)",
		Assume: []string{"the network reports each channel in one spelling"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "twice", e.N(500, 2500), p31Twice)
		},
	})
}

type p31Op struct {
	kind, ent, nick, who, a, b int
}

type p31Run struct {
	t      *T
	cm     string
	chans  []string // canonical names
	nicks  []string
	sp     *rand.Rand // nil: always the canonical spelling
	w      *World
	up     *Upstream
	s      *netSim
	cls    []*Client
	marks  []int
	upMark int
	upConn *UpConn
	names  map[string]string // folded -> placeholder
	canon  map[string]string // folded channel -> canonical
	log    [][]string
}

var p31Families = map[string][2][]string{
	"ascii":          {{"#[a]", "#{a}", "#x~", "#x^"}, {"b[", "b{", "c^"}},
	"rfc1459-strict": {{"#X~", "#x^", "#[\u00e9]", "#[\u00c9]"}, {"m~", "M^", "k]Z"}},
	"rfc1459":        {{"#[\u00e9]", "#[\u00c9]", "#Q_~", "#q-^"}, {"z~Q", "z-^", "Z\u00e9"}},
}

func (p *p31Run) spell(name string) string {
	if p.sp == nil {
		return name
	}
	b := []byte(name)
	for i := range b {
		if p.sp.Intn(2) == 0 {
			continue
		}
		c := b[i]
		alt := c
		switch {
		case c >= 'a' && c <= 'z':
			alt = c - 32
		case c >= 'A' && c <= 'Z':
			alt = c + 32
		default:
			if j := strings.IndexByte("[]~{}^", c); j >= 0 {
				alt = "{}^[]~"[j]
			}
		}
		if foldName(p.cm, string(alt)) == foldName(p.cm, string(c)) {
			b[i] = alt
		}
	}
	return string(b)
}

func (p *p31Run) ch(i int) string { return p.spell(p.chans[i]) }
func (p *p31Run) nk(i int) string { return p.spell(p.nicks[i]) }

func newP31(t *T, cm, store string, plain bool, members [][]bool) *p31Run {
	p := &p31Run{t: t, cm: cm, names: map[string]string{}, canon: map[string]string{}}
	if plain {
		p.chans = []string{"#c0", "#c1", "#c2", "#c3"}
		p.nicks = []string{"n0", "n1", "n2"}
	} else {
		f := p31Families[cm]
		p.chans, p.nicks = append([]string(nil), f[0]...), append([]string(nil), f[1]...)
		p.sp = rand.New(rand.NewSource(t.Rng.Int63()))
	}
	for i, c := range p.chans {
		p.names[foldName(cm, c)] = fmt.Sprintf("<c%d>", i)
		p.canon[foldName(cm, c)] = c
	}
	for i, c := range p.nicks {
		p.names[foldName(cm, c)] = fmt.Sprintf("<n%d>", i)
	}
	s := &netSim{cm: cm, prefixes: "ov", symbols: "@+", chanModes: [4]string{"b", "k", "l", "imnst"}, multi: true, chans: map[string]*simChan{}, nick: "user", umodes: map[byte]bool{}, cut: map[string]bool{}}
	p.s = s
	p.w = NewWorld(t, store)
	p.w.LogSub = fmt.Sprintf("plain%v", plain)
	up := NewUpstream(t, "net")
	up.Caps = []string{"message-tags", "server-time", "echo-message", "multi-prefix", "batch", "labeled-response"}
	up.ISupport = s.isupport()
	up.OnLine = func(c *UpConn, l Line) bool { return s.onLine(t, c, l) }
	p.up = up
	u := p.w.AddUser("user", false)
	rec := p.w.AddNetwork(u, "net", up)
	for i, name := range p.chans {
		ch := &simChan{name: name, modes: map[byte]string{'n': ""}, members: map[string]*simMember{}, created: fmt.Sprint(1600000000 + i)}
		s.chans[s.fold(name)] = ch
		for j, on := range members[i] {
			if on {
				ch.members[s.fold(p.nicks[j])] = &simMember{p.nicks[j], map[byte]bool{'o': j == 0}}
			}
		}
		if i < 3 {
			p.w.AddChannel(rec, name)
		}
	}
	up.Start()
	p.w.Start()
	p.upConn = up.SyncLive(4)
	for i := 0; i < 2; i++ {
		p.attach()
	}
	p.settle()
	p.take("start")
	return p
}

func (p *p31Run) attach() {
	k := len(p.cls)
	caps := []string{"message-tags", "server-time", "batch", "soju.im/search", "draft/read-marker", "soju.im/read"}
	if k%2 == 0 {
		caps = append(caps, "draft/chathistory", "echo-message")
	}
	p.cls = append(p.cls, p.w.Connect(ClientOpts{User: "user", Network: "net", Client: fmt.Sprintf("c%d", k%3), Nick: "user", Caps: caps, Ack: true}))
	p.marks = append(p.marks, 0)
}

func (p *p31Run) settle() {
	for k := 0; k < 2; k++ {
		for _, c := range p.cls {
			c.Sync()
		}
		if c := p.up.SyncLive(3); c != p.upConn {
			p.upConn, p.upMark = c, 0
		}
	}
	for _, c := range p.cls {
		c.SyncAck()
	}
}

var (
	p31Time = regexp.MustCompile(`\d{4}-\d{2}-\d{2}T[0-9:.]+Z`)
	p31Tok  = regexp.MustCompile(`[^ ,:"'!<>()=;/]+`)
)

// norm replaces names by placeholders.
func (p *p31Run) norm(s string) string {
	s = p31Time.ReplaceAllString(s, "T")
	return p31Tok.ReplaceAllStringFunc(s, func(x string) string {
		pre := ""
		for len(x) > 1 && (x[0] == '@' || x[0] == '+') {
			pre += x[:1]
			x = x[1:]
		}
		if ph, ok := p.names[foldName(p.cm, x)]; ok {
			return pre + ph
		}
		return pre + x
	})
}

func (p *p31Run) line(l Line) string {
	out := ""
	if l.Prefix != nil {
		out = p.norm(l.Prefix.Name) + " "
	}
	out += l.Command
	params := append([]string(nil), l.Params...)
	if l.Command == "353" && len(params) == 4 {
		f := strings.Fields(p.norm(params[3]))
		sort.Strings(f)
		params[3] = strings.Join(f, " ")
	}
	if l.Command == "333" {
		params = params[:3]
	}
	if l.Command == "BATCH" {
		params[0] = params[0][:1]
	}
	for i, x := range params {
		if l.Command != "353" || i != 3 {
			x = p.norm(x)
		}
		out += " |" + x
	}
	return out
}

// take ends an operation: what everyone received is recorded.
func (p *p31Run) take(what string) {
	var l []string
	skip := map[string]bool{"PING": true, "PONG": true, "CAP": true}
	for i, c := range p.cls {
		ls := c.Since(p.marks[i])
		p.marks[i] += len(ls)
		for _, x := range ls {
			if skip[x.Command] || x.Command <= "005" && x.Command >= "001" {
				continue
			}
			l = append(l, fmt.Sprintf("client %d: %s", i, p.line(x)))
			p.spelled(c, x)
		}
	}
	ls := p.upConn.Since(p.upMark)
	p.upMark += len(ls)
	for _, x := range ls {
		if skip[x.Command] {
			continue
		}
		if x.Command == "JOIN" || x.Command == "PART" {
			for _, y := range strings.Split(x.P(0), ",") {
				l = append(l, fmt.Sprintf("network: %s %s", x.Command, p.norm(y)))
			}
			continue
		}
		l = append(l, "network: "+p.line(x))
	}
	sort.Strings(l)
	p.log = append(p.log, l)
}

// spelled checks the spelling of channel names reported by the network.
func (p *p31Run) spelled(c *Client, l Line) {
	x := ""
	switch l.Command {
	case "JOIN", "PART", "KICK", "MODE":
		x = l.P(0)
		if l.Prefix != nil && l.Prefix.Name == "user" && (l.Command == "JOIN" || l.P(1) == "Detach") {
			return // attaching and detaching: as saved by the user
		}
	case "TOPIC":
		if l.Prefix != nil && l.Prefix.Name != "user" {
			x = l.P(0)
		}
	case "332", "333", "324", "329", "366":
		x = l.P(1)
	case "353":
		x = l.P(2)
	}
	if x == "" {
		return
	}
	if want, ok := p.canon[foldName(p.cm, x)]; ok && want != x {
		c.Dump()
		Failf("the network spells the channel %q, a client was told %q: %q", want, x, l.Raw)
	}
	p.t.Count("spellings checked", 1)
}

func (p *p31Run) do(k int, o p31Op) {
	s := p.s
	cl := p.cls[o.who%len(p.cls)]
	text := fmt.Sprintf("text%d", k)
	if o.b%4 == 0 {
		text += " user"
	}
	chn := p.chans[o.ent]
	nick := p.nicks[o.nick]
	locked := func(f func(ch *simChan, m *simMember)) {
		s.mu.Lock()
		defer s.mu.Unlock()
		ch := s.chans[s.fold(chn)]
		f(ch, ch.members[s.fold(nick)])
	}
	target := func() string {
		if o.a%3 == 0 {
			return p.nk(o.nick)
		}
		return p.ch(o.ent)
	}
	switch o.kind {
	case 0, 1:
		locked(func(ch *simChan, m *simMember) {
			if ch.in && m != nil {
				s.send(":%s!u@h PRIVMSG %s :%s", nick, p.ch(o.ent), text)
			}
		})
	case 2:
		locked(func(ch *simChan, m *simMember) { s.send(":%s!u@h PRIVMSG user :%s", nick, text) })
	case 3:
		cl.Sendf("PRIVMSG %s :%s", target(), text)
	case 4:
		cl.Sendf("JOIN %s", p.ch(o.ent))
	case 5:
		cl.Sendf("PART %s", p.ch(o.ent))
	case 6:
		if o.a%2 == 0 {
			cl.Sendf("TOPIC %s :topic %s", p.ch(o.ent), text)
		} else {
			cl.Sendf("TOPIC %s", p.ch(o.ent))
		}
	case 7:
		cl.Sendf("NAMES %s", p.ch(o.ent))
	case 8:
		cl.Sendf("MODE %s", p.ch(o.ent))
	case 9, 10, 11:
		switch o.b % 3 {
		case 0:
			cl.Sendf("CHATHISTORY LATEST %s * 50", target())
		case 1:
			cl.Sendf("CHATHISTORY BEFORE %s timestamp=2100-01-01T00:00:00.000Z 5", target())
		default:
			cl.Sendf("CHATHISTORY TARGETS timestamp=2000-01-01T00:00:00.000Z timestamp=2100-01-01T00:00:00.000Z 50")
		}
	case 12:
		cl.Sendf("SEARCH in=%s;limit=30", target())
	case 13:
		if o.b%2 == 0 {
			cl.Sendf("MARKREAD %s", target())
		} else {
			cl.Sendf("MARKREAD %s timestamp=2021-0%d-01T00:00:00.000Z", target(), 1+o.a%9)
		}
	case 14:
		opts := []string{"-detached true", "-detached false", "-relay-detached message", "-relay-detached none", "-reattach-on highlight", "-reattach-on none"}
		cl.Sendf("PRIVMSG BouncerServ :channel update %s %s", p.ch(o.ent), opts[o.a%len(opts)])
	case 15:
		cl.Send("PRIVMSG BouncerServ :channel status")
	case 16:
		if o.a%2 == 0 {
			cl.Sendf("PRIVMSG BouncerServ :channel delete %s", p.ch(o.ent))
		} else {
			cl.Sendf("PRIVMSG BouncerServ :channel create %s", p.ch(o.ent))
		}
	case 17:
		if len(p.cls) < 4 {
			p.attach()
		} else {
			i := o.who % len(p.cls)
			p.cls[i].CloseWait()
			p.cls = append(p.cls[:i:i], p.cls[i+1:]...)
			p.marks = append(p.marks[:i:i], p.marks[i+1:]...)
			p.w.WaitDownstreams(int64(len(p.cls)))
		}
	case 18:
		num := p.up.NumConns()
		s.mu.Lock()
		for _, ch := range s.chans {
			ch.in = false
			delete(ch.members, "user")
		}
		s.mu.Unlock()
		p.upConn.Peer.Close()
		p.up.Conn(num)
	case 19:
		if o.a%3 > 0 {
			return
		}
		s.mu.Lock()
		for _, ch := range s.chans {
			ch.in = false
			delete(ch.members, "user")
		}
		s.mu.Unlock()
		n := len(p.cls)
		p.w.Restart()
		p.cls, p.marks = nil, nil
		p.up.SyncLive(4)
		for len(p.cls) < n {
			p.attach()
		}
	case 20:
		locked(func(ch *simChan, m *simMember) {
			switch {
			case !ch.in:
			case m == nil:
				ch.members[s.fold(nick)] = &simMember{nick, map[byte]bool{}}
				s.send(":%s!u@h JOIN %s", nick, ch.name)
			case o.a%3 == 0:
				delete(ch.members, s.fold(nick))
				s.send(":%s!u@h PART %s :bye", p.nk(o.nick), ch.name)
			case o.a%3 == 1:
				delete(ch.members, s.fold(nick))
				s.send(":boss!u@h KICK %s %s :out", ch.name, p.nk(o.nick))
			default:
				on := !m.ranks['v']
				m.ranks['v'] = on
				sign := "-"
				if on {
					sign = "+"
				} else {
					delete(m.ranks, 'v')
				}
				s.send(":boss!u@h MODE %s %sv %s", ch.name, sign, p.nk(o.nick))
			}
		})
	case 21: // a nick change which only changes the spelling, or the topic
		if o.a%2 == 0 {
			s.mu.Lock()
			nn := p.spell(nick)
			if p.sp == nil {
				nn = strings.ToUpper(nick[:1]) + nick[1:]
				if nn == nick {
					nn = strings.ToLower(nick)
				}
			}
			s.rename(nick, nn, "u@h")
			p.nicks[o.nick] = nn
			s.mu.Unlock()
		} else {
			locked(func(ch *simChan, m *simMember) {
				if ch.in {
					ch.topic, ch.topicWho, ch.topicAt = text, nick, "1700000001"
					s.send(":%s!u@h TOPIC %s :%s", nick, ch.name, text)
				}
			})
		}
	}
}

func p31Twice(t *T) {
	r := t.Rng
	cm := Pick(r, []string{"ascii", "rfc1459", "rfc1459-strict"})
	store := Pick(r, []string{"db", "db", "fs"})
	members := make([][]bool, 4)
	for i := range members {
		for j := 0; j < 3; j++ {
			members[i] = append(members[i], r.Intn(3) > 0)
		}
	}
	var ops []p31Op
	for k := 0; k < 40; k++ {
		ops = append(ops, p31Op{r.Intn(22), r.Intn(4), r.Intn(3), r.Intn(4), r.Intn(60), r.Intn(60)})
	}
	a := newP31(t, cm, store, true, members)
	for k, o := range ops {
		a.do(k, o)
		a.settle()
		a.take("")
	}
	a.w.CheckNoPanic()
	a.w.Stop()
	b := newP31(t, cm, store, false, members)
	cmp := func(k int, what string) {
		if d := diffAt(a.log[k], b.log[k]); d != nil {
			for _, c := range b.cls {
				c.Dump()
			}
			Failf("%s, mapping %s, store %s, after %s: what is received differs with other spellings: %q", t.Case.Name, cm, store, what, d)
		}
		t.Count("lines compared", len(a.log[k]))
		t.State("%s %s op %s lines %s", cm, store, strings.SplitN(what, " ", 3)[0], sizeClass(len(a.log[k])))
	}
	cmp(0, "start")
	for k, o := range ops {
		t.Logf("op %d: %+v channel %s nick %s", k, o, b.chans[o.ent], b.nicks[o.nick])
		b.do(k, o)
		b.settle()
		b.take("")
		cmp(k+1, fmt.Sprintf("op%d %+v", o.kind, o))
	}
	b.w.CheckNoPanic()
}
