package checks

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	. "verif/harness/h"
)

// foldName is the reference case folding.
func foldName(cm, s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		if cm != "ascii" {
			switch c {
			case '[':
				c = '{'
			case ']':
				c = '}'
			case '\\':
				c = '|'
			case '~':
				if cm == "rfc1459" {
					c = '^'
				}
			}
		}
		sb.WriteByte(c)
	}
	return sb.String()
}

// respellCM returns a different spelling which is equal under cm.
func respellCM(t *T, cm, s string) string {
	b := []byte(s)
	for i := range b {
		if t.Rng.Intn(2) == 0 {
			continue
		}
		c := b[i]
		alt := c
		switch {
		case c >= 'a' && c <= 'z':
			alt = c - 32
		case c >= 'A' && c <= 'Z':
			alt = c + 32
		default:
			if j := strings.IndexByte("[]\\~{}|^", c); j >= 0 {
				alt = "{}|^[]\\~"[j]
			}
		}
		if foldName(cm, string(alt)) == foldName(cm, string(c)) {
			b[i] = alt
		}
	}
	return string(b)
}

type simMember struct {
	nick  string
	ranks map[byte]bool
}

type simChan struct {
	name     string
	topic    string
	topicWho string
	topicAt  string
	modes    map[byte]string
	created  string
	members  map[string]*simMember
	in       bool // the user is in it
	det      bool // detached by the user
	known    bool // modes were given to the user
}

// netSim is a reference model of an IRC network.
type netSim struct {
	mu        sync.Mutex
	cm        string
	prefixes  string // modes by descending rank
	symbols   string
	chanModes [4]string
	multi     bool
	chans     map[string]*simChan
	nick      string
	umodes    map[byte]bool
	uc        *UpConn
	cut       map[string]bool // channels whose join stops before the end of names
	noModes   bool            // do not answer MODE
}

func (s *netSim) fold(n string) string { return foldName(s.cm, n) }

func (s *netSim) symOf(mode byte) byte { return s.symbols[strings.IndexByte(s.prefixes, mode)] }

func (s *netSim) rankStr(ranks map[byte]bool, multi bool) string {
	var sb strings.Builder
	for i := 0; i < len(s.prefixes); i++ {
		if ranks[s.prefixes[i]] {
			sb.WriteByte(s.symbols[i])
			if !multi {
				break
			}
		}
	}
	return sb.String()
}

func (s *netSim) modeType(m byte) int {
	for i, l := range s.chanModes {
		if strings.IndexByte(l, m) >= 0 {
			return i
		}
	}
	return -1
}

func (s *netSim) modeStr(modes map[byte]string) string {
	var keys []int
	for m := range modes {
		keys = append(keys, int(m))
	}
	sort.Ints(keys)
	out, args := "+", ""
	for _, k := range keys {
		out += string(byte(k))
		if v := modes[byte(k)]; v != "" {
			args += " " + v
		}
	}
	return out + args
}

// parseModes reads a mode string as a client does.
func (s *netSim) parseModes(modes map[byte]string, ranks func(nick string, mode byte, on bool), str string, args []string) {
	on := true
	next := func() string {
		if len(args) == 0 {
			return ""
		}
		a := args[0]
		args = args[1:]
		return a
	}
	for i := 0; i < len(str); i++ {
		c := str[i]
		switch {
		case c == '+':
			on = true
		case c == '-':
			on = false
		case strings.IndexByte(s.prefixes, c) >= 0:
			ranks(next(), c, on)
		default:
			switch s.modeType(c) {
			case 0:
				next()
			case 1:
				a := next()
				if on {
					modes[c] = a
				} else {
					delete(modes, c)
				}
			case 2:
				if on {
					modes[c] = next()
				} else {
					delete(modes, c)
				}
			default:
				if on {
					modes[c] = ""
				} else {
					delete(modes, c)
				}
			}
		}
	}
}

// await polls until cond holds on the network's side.
func (s *netSim) await(what string, cond func() bool) {
	for start := time.Now(); ; time.Sleep(time.Millisecond) {
		s.mu.Lock()
		ok := cond()
		s.mu.Unlock()
		if ok {
			return
		}
		if time.Since(start) > Watchdog {
			panic(Stuck{"the network never saw: " + what})
		}
	}
}

// send writes a line to the bouncer; the caller holds the lock.
func (s *netSim) send(format string, a ...interface{}) { s.uc.Sendf(format, a...) }

// join makes the user join the channel; the caller holds the lock.
func (s *netSim) join(t *T, name string) {
	ch := s.chans[s.fold(name)]
	if ch == nil {
		ch = &simChan{name: name, modes: map[byte]string{'n': "", 't': ""}, members: map[string]*simMember{}, created: "1600000000"}
		s.chans[s.fold(name)] = ch
	}
	if ch.in {
		return
	}
	ch.in = true
	ch.known = false
	ranks := map[byte]bool{}
	if len(ch.members) == 0 && strings.IndexByte(s.prefixes, 'o') >= 0 {
		ranks['o'] = true
	}
	ch.members[s.fold(s.nick)] = &simMember{s.nick, ranks}
	s.send(":%s!user@host.example JOIN %s", s.nick, ch.name)
	if s.cut[s.fold(name)] {
		return
	}
	s.finishJoin(t, ch)
}

// finishJoin sends topic and names.
func (s *netSim) finishJoin(t *T, ch *simChan) {
	host := s.uc.Up.Host
	if ch.topic != "" {
		s.send(":%s 332 %s %s :%s", host, s.nick, ch.name, ch.topic)
		if ch.topicWho != "" {
			s.send(":%s 333 %s %s %s %s", host, s.nick, ch.name, ch.topicWho, ch.topicAt)
		}
	}
	line := ""
	flush := func() {
		if line != "" {
			s.send(":%s 353 %s = %s :%s", host, s.nick, ch.name, line)
		}
		line = ""
	}
	for _, k := range sortedKeys(ch.members) {
		m := ch.members[k]
		if len(line) > 300 {
			flush()
		}
		if line != "" {
			line += " "
		}
		line += s.rankStr(m.ranks, s.multi) + m.nick
	}
	flush()
	s.send(":%s 366 %s %s :End of /NAMES list.", host, s.nick, ch.name)
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// switchTo makes c the current connection.
func (s *netSim) switchTo(c *UpConn) {
	if s.uc != c {
		s.uc = c
		s.nick = c.CurNick()
	}
}

// onLine answers the bouncer.
func (s *netSim) onLine(t *T, c *UpConn, l Line) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !c.Registered() || c != s.uc && s.uc != nil && c.Index < s.uc.Index {
		return false
	}
	s.switchTo(c)
	switch l.Command {
	case "JOIN":
		for _, n := range strings.Split(l.P(0), ",") {
			s.join(t, n)
		}
		return true
	case "PART":
		for _, n := range strings.Split(l.P(0), ",") {
			ch := s.chans[s.fold(n)]
			if ch == nil || !ch.in {
				s.send(":%s 442 %s %s :You're not on that channel", c.Up.Host, s.nick, n)
				continue
			}
			ch.in = false
			delete(ch.members, s.fold(s.nick))
			s.send(":%s!user@host.example PART %s", s.nick, ch.name)
		}
		return true
	case "TOPIC":
		ch := s.chans[s.fold(l.P(0))]
		if ch != nil && ch.in && len(l.Params) > 1 {
			ch.topic, ch.topicWho = l.P(1), s.nick+"!user@host.example"
			ch.topicAt = ""
			s.send(":%s!user@host.example TOPIC %s :%s", s.nick, ch.name, ch.topic)
		}
		return true
	case "NICK":
		s.rename(s.nick, l.P(0), "user@host.example")
		return true
	case "MODE":
		ch := s.chans[s.fold(l.P(0))]
		if ch == nil || len(l.Params) > 1 {
			return true
		}
		if !s.noModes {
			s.sendModes(ch)
		}
		return true
	}
	return false
}

func (s *netSim) sendModes(ch *simChan) {
	ch.known = true
	s.send(":%s 324 %s %s %s", s.uc.Up.Host, s.nick, ch.name, s.modeStr(ch.modes))
	s.send(":%s 329 %s %s %s", s.uc.Up.Host, s.nick, ch.name, ch.created)
}

// rename changes a nick everywhere; the caller holds the lock.
func (s *netSim) rename(old, nick, uh string) {
	if s.fold(old) == s.fold(s.nick) {
		s.nick = nick
		s.uc.SetNick(nick)
	}
	for _, ch := range s.chans {
		if m := ch.members[s.fold(old)]; m != nil {
			delete(ch.members, s.fold(old))
			m.nick = nick
			ch.members[s.fold(nick)] = m
		}
	}
	s.send(":%s!%s NICK %s", old, uh, nick)
}

// --- what a client knows ---

type viewChan struct {
	name      string
	members   map[string]*simMember
	topic     string
	topicWho  string
	topicAt   string
	modes     map[byte]string
	hasModes  bool
	created   string
	namesDone bool
}

// view rebuilds the channel state from what one client received.
type view struct {
	s     *netSim
	who   string
	nick  string
	multi bool
	chans map[string]*viewChan
	um    map[byte]bool
	pos   int
}

func newView(s *netSim, who, nick string, multi bool) *view {
	return &view{s: s, who: who, nick: nick, multi: multi, chans: map[string]*viewChan{}, um: map[byte]bool{}}
}

func (v *view) feed(ls []Line) {
	s := v.s
	for _, l := range ls {
		who := ""
		if l.Prefix != nil {
			who = l.Prefix.Name
		}
		ch := v.chans[s.fold(l.P(0))]
		numCh := v.chans[s.fold(l.P(1))]
		need := func(c *viewChan) {
			if c == nil {
				Failf("%s: got %q for a channel it was not told it had joined", v.who, l.Raw)
			}
		}
		switch l.Command {
		case "001":
			v.nick = l.P(0)
		case "JOIN":
			if s.fold(who) == s.fold(v.nick) {
				v.chans[s.fold(l.P(0))] = &viewChan{name: l.P(0), members: map[string]*simMember{}, modes: map[byte]string{}}
				ch = v.chans[s.fold(l.P(0))]
			}
			need(ch)
			ch.members[s.fold(who)] = &simMember{who, map[byte]bool{}}
		case "PART":
			need(ch)
			if s.fold(who) == s.fold(v.nick) {
				delete(v.chans, s.fold(l.P(0)))
			} else {
				delete(ch.members, s.fold(who))
			}
		case "KICK":
			need(ch)
			if s.fold(l.P(1)) == s.fold(v.nick) {
				delete(v.chans, s.fold(l.P(0)))
			} else {
				delete(ch.members, s.fold(l.P(1)))
			}
		case "QUIT":
			for _, c := range v.chans {
				delete(c.members, s.fold(who))
			}
		case "NICK":
			if s.fold(who) == s.fold(v.nick) {
				v.nick = l.P(0)
			}
			for _, c := range v.chans {
				if m := c.members[s.fold(who)]; m != nil {
					delete(c.members, s.fold(who))
					m.nick = l.P(0)
					c.members[s.fold(l.P(0))] = m
				}
			}
		case "TOPIC":
			need(ch)
			ch.topic, ch.topicWho, ch.topicAt = l.P(1), l.Prefix.String(), ""
		case "332":
			need(numCh)
			numCh.topic, numCh.topicWho, numCh.topicAt = l.P(2), "", ""
		case "331":
			need(numCh)
			numCh.topic = ""
		case "333":
			need(numCh)
			numCh.topicWho, numCh.topicAt = l.P(2), l.P(3)
		case "353":
			c := v.chans[s.fold(l.P(2))]
			need(c)
			if c.namesDone {
				c.members, c.namesDone = map[string]*simMember{}, false
			}
			for _, n := range strings.Fields(l.P(3)) {
				ranks := map[byte]bool{}
				for n != "" {
					j := strings.IndexByte(s.symbols, n[0])
					if j < 0 {
						break
					}
					ranks[s.prefixes[j]] = true
					n = n[1:]
				}
				c.members[s.fold(n)] = &simMember{n, ranks}
			}
		case "366":
			need(numCh)
			numCh.namesDone = true
		case "324":
			if numCh == nil { // the bouncer's own query, answered after leaving
				continue
			}
			numCh.hasModes = true
			numCh.modes = map[byte]string{}
			if len(l.Params) > 2 {
				s.parseModes(numCh.modes, func(string, byte, bool) {}, l.P(2), l.Params[3:])
			}
		case "329":
			if numCh == nil { // the bouncer's own query, answered after leaving
				continue
			}
			numCh.created = l.P(2)
		case "221":
			v.um = map[byte]bool{}
			for _, c := range []byte(strings.TrimPrefix(l.P(1), "+")) {
				v.um[c] = true
			}
		case "MODE":
			if s.fold(l.P(0)) == s.fold(v.nick) {
				on := true
				for _, c := range []byte(l.P(1)) {
					switch c {
					case '+':
						on = true
					case '-':
						on = false
					default:
						if on {
							v.um[c] = true
						} else {
							delete(v.um, c)
						}
					}
				}
				continue
			}
			need(ch)
			s.parseModes(ch.modes, func(n string, m byte, on bool) {
				if mb := ch.members[s.fold(n)]; mb != nil {
					if on {
						mb.ranks[m] = true
					} else {
						delete(mb.ranks, m)
					}
				}
			}, l.P(1), l.Params[2:])
		}
	}
}

// compare checks the view against the network. topRank compares only the
// highest rank; ranks selects whether ranks are known at all.
func (v *view) compare(what string, topRank, ranks bool) {
	s := v.s
	s.mu.Lock()
	defer s.mu.Unlock()
	if v.nick != s.nick {
		Failf("%s %s: thinks its nick is %q, the network has %q", v.who, what, v.nick, s.nick)
	}
	umStr := func(m map[byte]bool) string {
		x := map[byte]string{}
		for k := range m {
			x[k] = ""
		}
		return s.modeStr(x)
	}
	if a, b := umStr(v.um), umStr(s.umodes); a != b {
		Failf("%s %s: thinks its user modes are %q, the network has %q", v.who, what, a, b)
	}
	for k, c := range v.chans {
		if sc := s.chans[k]; sc == nil || !sc.in || sc.det {
			Failf("%s %s: thinks it is in %s, the network says it is not", v.who, what, c.name)
		}
	}
	for k, sc := range s.chans {
		if !sc.in || sc.det {
			continue
		}
		c := v.chans[k]
		if c == nil {
			Failf("%s %s: was not told that it is in %s", v.who, what, sc.name)
		}
		if c.topic != sc.topic {
			Failf("%s %s: topic of %s is %q, the network has %q", v.who, what, sc.name, c.topic, sc.topic)
		}
		if sc.topic != "" && c.topicWho != "" {
			if c.topicWho != sc.topicWho {
				Failf("%s %s: topic of %s was set by %q, the network says %q", v.who, what, sc.name, c.topicWho, sc.topicWho)
			}
			if c.topicAt != "" && sc.topicAt != "" && c.topicAt != sc.topicAt {
				Failf("%s %s: topic of %s was set at %s, the network says %s", v.who, what, sc.name, c.topicAt, sc.topicAt)
			}
		}
		if c.hasModes && sc.known {
			if a, b := s.modeStr(c.modes), s.modeStr(sc.modes); a != b {
				Failf("%s %s: modes of %s are %q, the network has %q", v.who, what, sc.name, a, b)
			}
		}
		if c.created != "" && c.created != sc.created {
			Failf("%s %s: creation time of %s is %s, the network has %s", v.who, what, sc.name, c.created, sc.created)
		}
		for mk, m := range c.members {
			sm := sc.members[mk]
			if sm == nil {
				Failf("%s %s: thinks %s is in %s, the network says it is not", v.who, what, m.nick, sc.name)
			}
			if sm.nick != m.nick {
				Failf("%s %s: member %q of %s is spelled %q by the network", v.who, what, m.nick, sc.name, sm.nick)
			}
			if !ranks {
				continue
			}
			a, b := s.rankStr(m.ranks, !topRank), s.rankStr(sm.ranks, !topRank)
			if a != b {
				Failf("%s %s: rank of %s in %s is %q, the network has %q", v.who, what, m.nick, sc.name, a, b)
			}
		}
		for mk, sm := range sc.members {
			if c.members[mk] == nil {
				Failf("%s %s: was not told that %s is in %s", v.who, what, sm.nick, sc.name)
			}
		}
	}
}

func (s *netSim) isupport() []string {
	l := []string{"CASEMAPPING=" + s.cm}
	l = append(l, fmt.Sprintf("PREFIX=(%s)%s", s.prefixes, s.symbols))
	l = append(l, "CHANMODES="+strings.Join(s.chanModes[:], ","))
	return l
}

func sortStrings(l []string) { sort.Strings(l) }
