package checks

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P16", Level: "fault_enumeration",
		Rule:   "one execution = one bouncer and a random sequence of network, channel, SASL, certificate and account commands (service, BOUNCER, NICK, SETNAME), valid and invalid. 'faults': in about half of the commands the first or second database write fails; after every command the stored records must be exactly the previous ones changed by the acknowledged command (unchanged if refused), and every listing of the running bouncer must match the stored records; the bouncer is restarted in between and must list the same. 'kill': the real executable is killed with SIGKILL while commands stream; every acknowledged command must be in the database, in order, and at most the one in flight besides. A situation is (command, fault position, outcome) or (kill, commands acknowledged)",
		Assume: []string{"the database keeps committed transactions when the process is killed"},
		Cases: func(e *Env) []Case {
			l := Repeat(e, "faults", e.N(600, 8000), p16Faults)
			if os.Getenv("VERIF_BIN") != "" {
				l = append(l, Repeat(e, "kill", e.N(80, 1500), p16Kill)...)
			}
			return l
		},
	})
}

type setNet struct {
	database.Network
	Chans []database.Channel
}

type setState struct {
	User database.User
	Nets []*setNet
}

func loadSet(db database.Database, name string) *setState {
	ctx := context.Background()
	u, err := db.GetUser(ctx, name)
	Must(err)
	s := &setState{User: *u}
	nets, err := db.ListNetworks(ctx, u.ID)
	Must(err)
	for _, n := range nets {
		chans, err := db.ListChannels(ctx, n.ID)
		Must(err)
		s.Nets = append(s.Nets, &setNet{n, chans})
	}
	return s
}

func (s *setState) clone() *setState {
	c := &setState{User: s.User}
	for _, n := range s.Nets {
		m := *n
		m.Chans = append([]database.Channel(nil), n.Chans...)
		m.ConnectCommands = append([]string(nil), n.ConnectCommands...)
		c.Nets = append(c.Nets, &m)
	}
	return c
}

func (s *setState) byName(name string) *setNet {
	for _, n := range s.Nets {
		if n.GetName() == name {
			return n
		}
	}
	return nil
}

func (n *setNet) ch(name string) *database.Channel {
	for i := range n.Chans {
		if n.Chans[i].Name == name {
			return &n.Chans[i]
		}
	}
	return nil
}

// norm renders the state without the identifiers; the per-network nick and
// realname are rendered by their effect, because a value equal to the default
// may be stored as "default".
func (s *setState) norm() string {
	var b strings.Builder
	u := s.User
	fmt.Fprintf(&b, "user nick=%q real=%q admin=%v enabled=%v max=%d pass=%q\n", u.Nick, u.Realname, u.Admin, u.Enabled, u.MaxNetworks, u.Password)
	nets := append([]*setNet(nil), s.Nets...)
	sort.Slice(nets, func(i, j int) bool { return nets[i].GetName() < nets[j].GetName() })
	for _, n := range nets {
		fmt.Fprintf(&b, "net %q addr=%q nick=%q user=%q real=%q pass=%q cmds=%q fp=%q away=%v enabled=%v sasl=%q %q %q %x %x\n", n.Name, n.Addr,
			database.GetNick(&u, &n.Network), n.Username, database.GetRealname(&u, &n.Network), n.Pass, n.ConnectCommands, n.CertFP, n.AutoAway, n.Enabled,
			n.SASL.Mechanism, n.SASL.Plain.Username, n.SASL.Plain.Password, ShortHash(string(n.SASL.External.CertBlob)), ShortHash(string(n.SASL.External.PrivKeyBlob)))
		ch := append([]database.Channel(nil), n.Chans...)
		sort.Slice(ch, func(i, j int) bool { return ch[i].Name < ch[j].Name })
		for _, c := range ch {
			fmt.Fprintf(&b, "  chan %q key=%q detached=%v relay=%v reattach=%v after=%v on=%v\n", c.Name, c.Key, c.Detached, c.RelayDetached, c.ReattachOn, c.DetachAfter, c.DetachOn)
		}
	}
	return b.String()
}

func diffText(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	in := map[string]int{}
	for _, l := range la {
		in[l]++
	}
	var out []string
	for _, l := range lb {
		if in[l] > 0 {
			in[l]--
		} else {
			out = append(out, "+ "+l)
		}
	}
	for _, l := range la {
		if in[l] > 0 {
			in[l]--
			out = append(out, "- "+l)
		}
	}
	return strings.Join(out, "\n")
}

// setOp is one command.
type setOp struct {
	id      string
	line    string // PRIVMSG/BOUNCER line
	bound   bool
	invalid bool
	apply   func(s *setState, replies []Line)
}

func q(s string) string {
	if s != "" && !strings.ContainsAny(s, " \\'\"\t") {
		return s
	}
	return strconv.Quote(s)
}

var filterNames = []string{"default", "none", "highlight", "message"}
var filterVals = []database.MessageFilter{database.FilterDefault, database.FilterNone, database.FilterHighlight, database.FilterMessage}

type setGen struct {
	r      *rand.Rand
	n      int
	live   string // name of a connected network, left alone by deletions
	liveAd string
	admin  bool // the user is an administrator
	plain  bool // only values which differ from the account's defaults, and no password changes
}

// orDefault picks v or one of the account's defaults. A network value equal
// to the default follows later changes of the default.
func (g *setGen) orDefault(v string, def ...string) string {
	if g.plain {
		g.n++
		return v + "x"
	}
	return Pick(g.r, append([]string{v}, def...))
}

func (g *setGen) text() string {
	g.n++
	return fmt.Sprintf("%s%d", Pick(g.r, []string{"v", "a b ", "é", "x;y", "q\"", "per%s", "#h", "back\\s"}), g.n)
}

func svcLine(words ...string) string { return "PRIVMSG BouncerServ :" + strings.Join(words, " ") }

func (g *setGen) next(s *setState) *setOp {
	r := g.r
	var names []string
	for _, n := range s.Nets {
		names = append(names, n.GetName())
	}
	sort.Strings(names)
	op := &setOp{}
	pickNet := func() string {
		if len(names) == 0 || r.Intn(15) == 0 {
			op.invalid = true
			return "nosuch"
		}
		return Pick(r, names)
	}
	offline := func() string { // a network that is not the connected one
		for k := 0; k < 20; k++ {
			if n := pickNet(); n != g.live {
				return n
			}
			op.invalid = false
		}
		op.invalid = true
		return "nosuch"
	}
	// network fields as service flags
	fields := func(create bool, cur string) (flags []string, set func(n *database.Network)) {
		var sets []func(n *database.Network)
		add := func(flag, val string, f func(n *database.Network)) {
			flags = append(flags, "-"+flag, q(val))
			sets = append(sets, f)
		}
		p := func() bool { return r.Intn(4) == 0 }
		if create || (p() && cur != g.live) {
			g.n++
			host := fmt.Sprintf("h%d.invalid", g.n)
			switch {
			case r.Intn(12) == 0:
				op.invalid = true
				flags = append(flags, "-addr", Pick(r, []string{"http://x", "ircs://", "irc+insecure://h/path", "ircs://u:p@h", "ircs://h?x=1", "ircs://h#f", `""`}))
			default:
				addr := Pick(r, []string{"", "ircs://", "irc+insecure://"}) + host + Pick(r, []string{"", ":6697"})
				flags = append(flags, "-addr", addr)
				sets = append(sets, func(n *database.Network) { n.Addr = addr })
			}
		}
		if (create && r.Intn(4) > 0 || p()) && cur != g.live {
			g.n++
			v := fmt.Sprintf("net%d", g.n)
			switch {
			case r.Intn(10) == 0:
				v, op.invalid = "-dash", true
			case r.Intn(10) == 0:
				v, op.invalid = "*", true
			case r.Intn(10) == 0 && len(names) > 0:
				if o := Pick(r, names); o != cur {
					v, op.invalid = o, true
				}
			}
			add("name", v, func(n *database.Network) { n.Name = v })
		}
		if p() {
			v := g.orDefault("nick"+fmt.Sprint(g.n), s.User.Username, database.GetNick(&s.User, nil))
			add("nick", v, func(n *database.Network) { n.Nick = v })
		}
		if p() {
			v := g.text()
			add("username", v, func(n *database.Network) { n.Username = v })
		}
		if p() {
			v := g.orDefault(g.text(), database.GetRealname(&s.User, nil))
			add("realname", v, func(n *database.Network) { n.Realname = v })
		}
		if p() {
			v := g.text()
			add("pass", v, func(n *database.Network) { n.Pass = v })
		}
		if p() {
			h := sha256.Sum256([]byte(g.text()))
			v := strings.ToUpper(hex.EncodeToString(h[:]))
			if r.Intn(4) == 0 {
				op.invalid = true
				v = Pick(r, []string{"zz", "aabb"})
			}
			flags = append(flags, "-certfp", v)
			sets = append(sets, func(n *database.Network) { n.CertFP = "sha-256:" + strings.ToLower(v) })
		}
		if p() {
			v := r.Intn(2) == 0
			flags = append(flags, "-auto-away", fmt.Sprint(v))
			sets = append(sets, func(n *database.Network) { n.AutoAway = v })
		}
		if create || p() && cur != g.live {
			v := false
			flags = append(flags, "-enabled", fmt.Sprint(v))
			sets = append(sets, func(n *database.Network) { n.Enabled = v })
		}
		if p() {
			var l []string
			k := 1 + r.Intn(3)
			if r.Intn(10) == 0 {
				k, op.invalid = 21, true
			}
			for i := 0; i < k; i++ {
				c := "MODE x :" + g.text()
				if r.Intn(12) == 0 {
					c, op.invalid = ":", true
				}
				l = append(l, c)
				flags = append(flags, "-connect-command", q(c))
			}
			if k == 1 && !op.invalid && r.Intn(3) == 0 {
				flags[len(flags)-1] = `""`
				l = nil
			}
			sets = append(sets, func(n *database.Network) { n.ConnectCommands = l })
		}
		if r.Intn(20) == 0 {
			flags = append(flags, Pick(r, []string{"-bogus", "extra"}))
			op.invalid = true
		}
		return flags, func(n *database.Network) {
			for _, f := range sets {
				f(n)
			}
		}
	}
	chName := func(n *setNet, exist bool) string {
		if n == nil {
			return "#none"
		}
		if exist && len(n.Chans) > 0 && r.Intn(10) > 0 {
			return Pick(r, n.Chans).Name
		}
		if exist {
			op.invalid = true
		}
		g.n++
		return fmt.Sprintf("#c%d", g.n)
	}
	chanFlags := func(create bool) (flags []string, set func(c *database.Channel)) {
		var sets []func(c *database.Channel)
		for _, f := range []struct {
			name string
			p    func(c *database.Channel) *database.MessageFilter
		}{
			{"relay-detached", func(c *database.Channel) *database.MessageFilter { return &c.RelayDetached }},
			{"reattach-on", func(c *database.Channel) *database.MessageFilter { return &c.ReattachOn }},
			{"detach-on", func(c *database.Channel) *database.MessageFilter { return &c.DetachOn }},
		} {
			if r.Intn(3) == 0 {
				f := f
				k := r.Intn(4)
				v := filterNames[k]
				if r.Intn(10) == 0 {
					v, op.invalid = "bogus", true
				}
				flags = append(flags, "-"+f.name, v)
				sets = append(sets, func(c *database.Channel) { *f.p(c) = filterVals[k] })
			}
		}
		if r.Intn(3) == 0 {
			d := time.Duration(r.Intn(1000)) * time.Hour
			v := d.String()
			if r.Intn(6) == 0 {
				v, op.invalid = Pick(r, []string{"-1h", "soon"}), true
			}
			flags = append(flags, "-detach-after", v)
			sets = append(sets, func(c *database.Channel) { c.DetachAfter = d })
		}
		if r.Intn(3) == 0 {
			v := r.Intn(2) == 0
			flags = append(flags, "-detached", fmt.Sprint(v))
			sets = append(sets, func(c *database.Channel) { c.Detached = v })
		}
		return flags, func(c *database.Channel) {
			for _, f := range sets {
				f(c)
			}
		}
	}
	kinds := []string{"net-create", "net-create", "net-update", "net-update", "net-delete", "add", "change", "change", "del", "ch-create", "ch-create", "ch-update", "ch-update", "ch-delete", "sasl-set", "sasl-reset", "certfp", "user-update", "nick", "setname"}
	if g.live != "" {
		kinds = append(kinds, "b-nick", "b-setname", "b-setname", "join", "join", "part")
	}
	op.id = Pick(r, kinds)
	switch op.id {
	case "net-create":
		fl, set := fields(true, "")
		op.line = svcLine(append([]string{"network", "create"}, fl...)...)
		op.apply = func(s *setState, _ []Line) {
			n := database.NewNetwork("")
			set(n)
			s.Nets = append(s.Nets, &setNet{Network: *n})
		}
	case "net-update":
		name := pickNet()
		fl, set := fields(false, name)
		op.line = svcLine(append([]string{"network", "update", q(name)}, fl...)...)
		op.apply = func(s *setState, _ []Line) { set(&s.byName(name).Network) }
	case "net-delete":
		name := offline()
		op.line = svcLine("network", "delete", q(name))
		op.apply = func(s *setState, _ []Line) { s.drop(name) }
	case "add":
		attrs, set := g.bouncerFields(s, op, "", names)
		// Without a nickname, the nick of the connection is used: that isn't
		// a setting the client asked for
		if !strings.Contains(";"+strings.Join(attrs, ";"), ";nickname=") {
			attrs = append(attrs, "nickname=given")
			inner := set
			set = func(n *database.Network) { inner(n); n.Nick = "given" }
		}
		op.line = "BOUNCER ADDNETWORK " + strings.Join(attrs, ";")
		op.apply = func(s *setState, _ []Line) {
			n := database.NewNetwork("")
			set(n)
			s.Nets = append(s.Nets, &setNet{Network: *n})
		}
	case "change":
		name := pickNet()
		attrs, set := g.bouncerFields(s, op, name, names)
		id := "99999"
		if n := s.byName(name); n != nil {
			id = fmt.Sprint(n.ID)
		}
		if len(attrs) == 0 {
			attrs = []string{"username=u"}
			set = func(n *database.Network) { n.Username = "u" }
		}
		op.line = "BOUNCER CHANGENETWORK " + id + " " + strings.Join(attrs, ";")
		op.apply = func(s *setState, _ []Line) { set(&s.byName(name).Network) }
	case "del":
		name := offline()
		id := Pick(r, []string{"99999", "0", "-1", "x"})
		if n := s.byName(name); n != nil {
			id = fmt.Sprint(n.ID)
		}
		op.line = "BOUNCER DELNETWORK " + id
		op.apply = func(s *setState, _ []Line) { s.drop(name) }
	case "ch-create":
		name := pickNet()
		n := s.byName(name)
		ch := chName(n, false)
		if n != nil && len(n.Chans) > 0 && r.Intn(10) == 0 {
			ch, op.invalid = n.Chans[0].Name, true
		}
		fl, set := chanFlags(true)
		op.line = svcLine(append([]string{"channel", "create", q(ch + "/" + name)}, fl...)...)
		op.apply = func(s *setState, _ []Line) {
			c := database.Channel{Name: ch}
			set(&c)
			n := s.byName(name)
			n.Chans = append(n.Chans, c)
		}
	case "ch-update":
		name := pickNet()
		ch := chName(s.byName(name), true)
		fl, set := chanFlags(false)
		op.line = svcLine(append([]string{"channel", "update", q(ch + "/" + name)}, fl...)...)
		op.apply = func(s *setState, _ []Line) { set(s.byName(name).ch(ch)) }
	case "ch-delete":
		name := pickNet()
		ch := chName(s.byName(name), true)
		op.line = svcLine("channel", "delete", q(ch+"/"+name))
		op.apply = func(s *setState, _ []Line) { s.byName(name).dropCh(ch) }
	case "sasl-set":
		name := pickNet()
		u, p := g.text(), g.text()
		op.line = svcLine("sasl", "set-plain", "-network", q(name), q(u), q(p))
		op.apply = func(s *setState, _ []Line) {
			n := s.byName(name)
			n.SASL = database.SASL{Mechanism: "PLAIN"} // only one mechanism is kept
			n.SASL.Plain.Username, n.SASL.Plain.Password = u, p
		}
	case "sasl-reset":
		name := pickNet()
		op.line = svcLine("sasl", "reset", "-network", q(name))
		op.apply = func(s *setState, _ []Line) { s.byName(name).SASL = database.SASL{} }
	case "certfp":
		name := pickNet()
		kt := Pick(r, []string{"ecdsa", "ed25519"})
		if r.Intn(8) == 0 {
			kt, op.invalid = "bogus", true
		}
		op.line = svcLine("certfp", "generate", "-network", q(name), "-key-type", kt)
		op.apply = func(s *setState, replies []Line) {
			// the key is random: the stored one must be the announced one
			n := s.byName(name)
			n.SASL = database.SASL{Mechanism: "EXTERNAL"}
			n.SASL.External.CertBlob = []byte("announced:" + sha256Reply(replies))
		}
	case "user-update":
		var fl []string
		var sets []func(u *database.User)
		if r.Intn(2) == 0 {
			g.n++
			v := fmt.Sprintf("un%d", g.n)
			fl = append(fl, "-nick", v)
			sets = append(sets, func(u *database.User) { u.Nick = v })
		}
		if r.Intn(2) == 0 {
			v := g.text()
			fl = append(fl, "-realname", q(v))
			sets = append(sets, func(u *database.User) { u.Realname = v })
		}
		if r.Intn(5) == 0 {
			fl = append(fl, "-admin", "true")
			op.invalid = true
		}
		if len(fl) == 0 && g.plain {
			v := g.text()
			fl = []string{"-realname", q(v)}
			sets = append(sets, func(u *database.User) { u.Realname = v })
		} else if len(fl) == 0 {
			fl = []string{"-disable-password"}
			sets = append(sets, func(u *database.User) { u.Password = "" })
		}
		op.line = svcLine(append([]string{"user", "update"}, fl...)...)
		op.apply = func(s *setState, _ []Line) {
			for _, f := range sets {
				f(&s.User)
			}
		}
	case "nick", "b-nick":
		op.bound = op.id == "b-nick"
		g.n++
		v := fmt.Sprintf("nk%d", g.n)
		if r.Intn(6) == 0 {
			v, op.invalid = Pick(r, []string{"a!b", "BouncerServ", "x,y"}), true
		}
		op.line = "NICK " + v
		op.apply = func(s *setState, _ []Line) {
			if op.bound {
				s.byName(g.live).Nick = v
			} else {
				s.User.Nick = v
			}
		}
	case "setname", "b-setname":
		op.bound = op.id == "b-setname"
		v := g.text()
		op.line = "SETNAME :" + v
		op.apply = func(s *setState, _ []Line) {
			if op.bound {
				s.byName(g.live).Realname = v
			} else {
				s.User.Realname = v
			}
		}
	case "join":
		op.bound = true
		g.n++
		ch := fmt.Sprintf("#j%d", g.n)
		key := Pick(r, []string{"", "", "k" + fmt.Sprint(g.n)})
		op.line = strings.TrimSpace("JOIN " + ch + " " + key)
		op.apply = func(s *setState, _ []Line) {
			n := s.byName(g.live)
			n.Chans = append(n.Chans, database.Channel{Name: ch, Key: key})
		}
	case "part":
		op.bound = true
		n := s.byName(g.live)
		var open []string
		for _, c := range n.Chans {
			if !c.Detached {
				open = append(open, c.Name)
			}
		}
		if len(open) == 0 {
			return g.next(s)
		}
		ch := Pick(r, open)
		op.line = "PART " + ch
		op.apply = func(s *setState, _ []Line) { s.byName(g.live).dropCh(ch) }
	}
	return op
}

// bouncerFields generates BOUNCER attributes.
func (g *setGen) bouncerFields(s *setState, op *setOp, cur string, names []string) (attrs []string, set func(n *database.Network)) {
	r := g.r
	var sets []func(n *database.Network)
	p := func() bool { return r.Intn(4) == 0 }
	if cur == "" || p() && cur != g.live {
		g.n++
		host := fmt.Sprintf("h%d.invalid", g.n)
		port, tls := Pick(r, []string{"", "6667"}), Pick(r, []string{"", "0", "1"})
		if cur == "" || r.Intn(2) == 0 {
			attrs = append(attrs, "host="+host)
		} else {
			host = ""
			if port == "" && tls == "" {
				tls = "1"
			}
		}
		if port != "" {
			attrs = append(attrs, "port="+port)
		}
		if tls != "" {
			attrs = append(attrs, "tls="+tls)
		}
		sets = append(sets, func(n *database.Network) {
			oh, op, ot := "", "", "1"
			if n.Addr != "" {
				u, err := n.URL()
				Must(err)
				if h, p, err := net.SplitHostPort(u.Host); err == nil {
					oh, op = h, p
				} else {
					oh = u.Host
				}
				if u.Scheme == "irc+insecure" {
					ot = "0"
				}
			}
			if host != "" {
				oh = host
			}
			if port != "" {
				op = port
			}
			if tls != "" {
				ot = tls
			}
			a := oh
			if op != "" {
				a += ":" + op
			}
			if ot == "0" {
				a = "irc+insecure://" + a
			}
			n.Addr = a
		})
	}
	str := func(attr, v string, f func(n *database.Network)) {
		attrs = append(attrs, attr+"="+tagEscape(v))
		sets = append(sets, f)
	}
	if (cur == "" && r.Intn(4) > 0 || p()) && cur != g.live {
		g.n++
		v := fmt.Sprintf("net%d", g.n)
		if r.Intn(10) == 0 {
			v, op.invalid = "-dash", true
		} else if r.Intn(10) == 0 && len(names) > 0 {
			if o := Pick(r, names); o != cur {
				v, op.invalid = o, true
			}
		}
		str("name", v, func(n *database.Network) { n.Name = v })
	}
	if p() {
		v := g.orDefault("nick"+fmt.Sprint(g.n), s.User.Username, database.GetNick(&s.User, nil))
		str("nickname", v, func(n *database.Network) { n.Nick = v })
	}
	if p() {
		v := g.text()
		str("username", v, func(n *database.Network) { n.Username = v })
	}
	if p() {
		v := g.orDefault(g.text(), database.GetRealname(&s.User, nil))
		str("realname", v, func(n *database.Network) { n.Realname = v })
	}
	if p() {
		v := g.text()
		str("pass", v, func(n *database.Network) { n.Pass = v })
	}
	if r.Intn(15) == 0 {
		attrs = append(attrs, "bogus=1")
		op.invalid = true
	}
	return attrs, func(n *database.Network) {
		for _, f := range sets {
			f(n)
		}
	}
}

func tagEscape(s string) string {
	return strings.NewReplacer(";", `\:`, " ", `\s`, `\`, `\\`).Replace(s)
}

func sha256Reply(ls []Line) string {
	for _, l := range ls {
		if i := strings.Index(l.P(1), "SHA-256 fingerprint: "); i >= 0 {
			return l.P(1)[i+len("SHA-256 fingerprint: "):]
		}
	}
	return ""
}

func (s *setState) drop(name string) {
	for i, n := range s.Nets {
		if n.GetName() == name {
			s.Nets = append(s.Nets[:i], s.Nets[i+1:]...)
			return
		}
	}
}

func (n *setNet) dropCh(name string) {
	for i := range n.Chans {
		if n.Chans[i].Name == name {
			n.Chans = append(n.Chans[:i], n.Chans[i+1:]...)
			return
		}
	}
}

// resolveCerts replaces announced certificates in want by the stored ones when
// the fingerprints agree.
func resolveCerts(want, got *setState) {
	for _, n := range want.Nets {
		if fp, ok := strings.CutPrefix(string(n.SASL.External.CertBlob), "announced:"); ok {
			if g := got.byName(n.GetName()); g != nil {
				h := sha256.Sum256(g.SASL.External.CertBlob)
				if hex.EncodeToString(h[:]) == fp && len(g.SASL.External.PrivKeyBlob) > 0 {
					n.SASL.External = g.SASL.External
				}
			}
		}
	}
}

// outcome sends the command and returns the replies and whether it was
// acknowledged.
func (op *setOp) run(c *Client) ([]Line, bool, bool) {
	from := c.Mark()
	c.Send(op.line)
	end := c.TrySync()
	if end < 0 {
		return nil, false, false
	}
	ls := c.Since(from)[:end-from]
	ack := false
	var rep []Line
	for _, l := range ls {
		switch {
		case strings.HasPrefix(op.line, "PRIVMSG BouncerServ"):
			if l.Command == "PRIVMSG" && l.Prefix != nil && l.Prefix.Name == "BouncerServ" {
				rep = append(rep, l)
				if strings.HasPrefix(l.P(1), "error") {
					return rep, false, true
				}
				ack = true
			}
		case strings.HasPrefix(op.line, "BOUNCER"):
			if l.Command == "FAIL" {
				return append(rep, l), false, true
			}
			if l.Command == "BOUNCER" && l.P(0) != "NETWORK" {
				rep = append(rep, l)
				ack = true
			}
		default:
			// NICK, SETNAME, JOIN, PART: no error means accepted
			ack = true
			if l.Command == "FAIL" || (len(l.Command) == 3 && (l.Command[0] == '4' || l.Command[0] == '5')) {
				return append(rep, l), false, true
			}
		}
	}
	if op.line[0] == 'N' || op.line[0] == 'S' || op.line[0] == 'J' || strings.HasPrefix(op.line, "PART") {
		ack = true
	}
	return rep, ack, true
}

// checkView compares the listings of the running bouncer with the stored
// records.
func checkView(c *Client, s *setState, what string) {
	from := c.Mark()
	c.Send("BOUNCER LISTNETWORKS")
	c.Sync()
	seen := map[string]bool{}
	for _, l := range c.Since(from) {
		if l.Command != "BOUNCER" || l.P(0) != "NETWORK" || l.P(2) == "*" {
			continue
		}
		at := irc.ParseTags(l.P(2))
		if _, ok := at["name"]; !ok {
			continue
		}
		var n *setNet
		for _, x := range s.Nets {
			if fmt.Sprint(x.ID) == l.P(1) {
				n = x
			}
		}
		if n == nil {
			Failf("%s: the running bouncer lists a network that is not stored: %s", what, l.Raw)
		}
		seen[l.P(1)] = true
		want := map[string]string{"name": n.GetName(), "nickname": database.GetNick(&s.User, &n.Network), "username": n.Username, "realname": database.GetRealname(&s.User, &n.Network)}
		u, err := n.URL()
		Must(err)
		if h, p, err := net.SplitHostPort(u.Host); err == nil {
			want["host"], want["port"] = h, p
		} else {
			want["host"], want["port"] = u.Host, ""
		}
		want["tls"] = map[string]string{"ircs": "1", "irc+insecure": "0"}[u.Scheme]
		for k, v := range want {
			if string(at[k]) != v {
				Failf("%s: the running bouncer has %s=%q for network %q, stored is %q", what, k, at[k], n.GetName(), v)
			}
		}
	}
	if len(seen) != len(s.Nets) {
		Failf("%s: the running bouncer lists %d networks, stored are %d", what, len(seen), len(s.Nets))
	}
	var wantCh []string
	for _, n := range s.Nets {
		for _, ch := range n.Chans {
			l := ch.Name + "/" + n.GetName()
			if ch.Detached {
				l += " detached"
			}
			wantCh = append(wantCh, l)
		}
	}
	var gotCh []string
	for _, l := range c.Service("channel status") {
		i := strings.LastIndex(l, " [")
		if i < 0 {
			continue
		}
		e := l[:i]
		if strings.Contains(l[i:], "detached") {
			e += " detached"
		}
		gotCh = append(gotCh, e)
	}
	sort.Strings(wantCh)
	sort.Strings(gotCh)
	if strings.Join(wantCh, "\n") != strings.Join(gotCh, "\n") {
		Failf("%s: the running bouncer lists the channels %q, stored are %q", what, gotCh, wantCh)
	}
	for _, n := range s.Nets {
		out := strings.Join(c.Service("sasl status -network "+q(n.GetName())), "\n")
		want := "SASL is disabled"
		switch n.SASL.Mechanism {
		case "PLAIN":
			want = fmt.Sprintf("SASL PLAIN enabled with username %q", n.SASL.Plain.Username)
		case "EXTERNAL":
			want = "SASL EXTERNAL"
			h := sha256.Sum256(n.SASL.External.CertBlob)
			fp := strings.Join(c.Service("certfp fingerprint -network "+q(n.GetName())), "\n")
			if !strings.Contains(fp, hex.EncodeToString(h[:])) {
				Failf("%s: the running bouncer has another certificate for %q: %s", what, n.GetName(), fp)
			}
		}
		if !strings.HasPrefix(out, want) {
			Failf("%s: the running bouncer says %q about SASL of %q, stored is %q", what, out, n.GetName(), want)
		}
	}
}

// faultDB makes the k-th write fail.
type faultDB struct {
	database.Database
	mu    sync.Mutex
	in    int // 0: off
	fired bool
}

var errFault = errors.New("injected database failure")

func (f *faultDB) hit() error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.in > 0 {
		f.in--
		if f.in == 0 {
			f.fired = true
			return errFault
		}
	}
	return nil
}

func (f *faultDB) StoreUser(ctx context.Context, u *database.User) error {
	if err := f.hit(); err != nil {
		return err
	}
	return f.Database.StoreUser(ctx, u)
}

func (f *faultDB) StoreNetwork(ctx context.Context, id int64, n *database.Network) error {
	if err := f.hit(); err != nil {
		return err
	}
	return f.Database.StoreNetwork(ctx, id, n)
}

func (f *faultDB) DeleteNetwork(ctx context.Context, id int64) error {
	if err := f.hit(); err != nil {
		return err
	}
	return f.Database.DeleteNetwork(ctx, id)
}

func (f *faultDB) StoreChannel(ctx context.Context, id int64, c *database.Channel) error {
	if err := f.hit(); err != nil {
		return err
	}
	return f.Database.StoreChannel(ctx, id, c)
}

func (f *faultDB) DeleteChannel(ctx context.Context, id int64) error {
	if err := f.hit(); err != nil {
		return err
	}
	return f.Database.DeleteChannel(ctx, id)
}

func p16Faults(t *T) {
	r := t.Rng
	up := NewUpstream(t, "live")
	up.Caps = Pick(r, [][]string{nil, {"setname"}, {"labeled-response", "batch", "message-tags", "setname", "echo-message"}})
	up.Start()
	w := NewWorld(t, Pick(r, []string{"memory", "db"}))
	u := w.AddUser("alice", false)
	ln := w.AddNetwork(u, "live", up)
	if r.Intn(2) == 0 {
		w.AddChannel(ln, "#saved")
	}
	off := w.AddNetwork(u, "off", up, func(n *database.Network) { n.Enabled = false })
	w.AddChannel(off, "#offchan")
	var fdb *faultDB
	w.WrapDB = func(db database.Database) database.Database {
		fdb = &faultDB{Database: db}
		return fdb
	}
	w.Start()
	var c, bc *Client
	settle := func() {
		dl := time.Now()
		for {
			n := up.NumConns()
			if n > 0 {
				uc := up.Conn(n - 1)
				if uc.TrySync() {
					ok := true
					for k := 0; k < 2; k++ {
						if c != nil {
							c.Sync()
						}
						if bc != nil {
							bc.Sync()
						}
						ok = ok && uc.TrySync()
					}
					if ok && up.NumConns() == n {
						return
					}
				}
			}
			if time.Since(dl) > Watchdog {
				panic(Stuck{"the connected network did not come back"})
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	connect := func() {
		settle()
		c = w.Connect(ClientOpts{User: "alice", Nick: "alice", Caps: []string{"soju.im/bouncer-networks"}})
		bc = w.Connect(ClientOpts{User: "alice", Nick: "alice", Network: "live"})
		settle()
	}
	connect()
	g := &setGen{r: r, live: "live"}
	checkView(c, loadSet(w.DB, "alice"), "at the start")
	for step, steps := 0, 12+r.Intn(10); step < steps; step++ {
		before := loadSet(w.DB, "alice")
		op := g.next(before)
		fault := 0
		if op.id != "join" && op.id != "part" && r.Intn(2) == 0 {
			fault = 1 + r.Intn(2)
		}
		fdb.mu.Lock()
		fdb.in, fdb.fired = fault, false
		fdb.mu.Unlock()
		cl := c
		if op.bound {
			cl = bc
		}
		rep, ack, open := op.run(cl)
		fdb.mu.Lock()
		fired := fdb.fired
		fdb.in = 0
		fdb.mu.Unlock()
		what := fmt.Sprintf("after %q (database failure: %v, acknowledged: %v)", op.line, fired, ack)
		if !open {
			// a database error may close the connection
			if !fired {
				Failf("%s: the connection was closed", what)
			}
			c.Close()
			bc.Close()
			c, bc = nil, nil
			connect()
		} else {
			settle()
		}
		if ack && op.invalid {
			Failf("%s: an invalid command was acknowledged: %v", what, rep)
		}
		if !ack && !op.invalid && !fired && !duplicate(rep) {
			cl.Dump()
			Failf("%s: a valid command was refused: %v", what, rep)
		}
		after := loadSet(w.DB, "alice")
		want := before.clone()
		if ack {
			op.apply(want, rep)
			resolveCerts(want, after)
		}
		if a, b := want.norm(), after.norm(); a != b {
			Failf("%s: the stored records are not what they should be (+ stored, - expected):\n%s", what, diffText(a, b))
		}
		checkView(c, after, what)
		t.State("%s|%d|%v|%v|%v", op.id, fault, fired, ack, op.invalid)
		t.Count("commands", 1)
		if fired {
			t.Count("database_failures", 1)
		}
		if r.Intn(12) == 0 {
			w.Restart()
			c, bc = nil, nil
			connect()
			s := loadSet(w.DB, "alice")
			if a, b := after.norm(), s.norm(); a != b {
				Failf("after a restart the stored records changed:\n%s", diffText(a, b))
			}
			checkView(c, s, "after a restart")
			t.Count("restarts", 1)
		}
	}
	w.CheckNoPanic()
}

func p16Kill(t *T) {
	r := t.Rng
	p := NewProc(t, "db")
	p.AddUser("alice", false)
	g := &setGen{r: r, plain: true}
	model := loadSet(p.W.DB, "alice")
	for cyc := 0; cyc < 3; cyc++ {
		p.Start()
		c := p.W.Connect(ClientOpts{User: "alice", Caps: []string{"soju.im/bouncer-networks"}})
		stop := make(chan struct{})
		d := time.Duration(r.Intn(40000)) * time.Microsecond
		go func() {
			time.Sleep(d)
			p.Kill()
			close(stop)
		}()
		acked := 0
		var inflight *setState
		for {
			op := g.next(model)
			rep, ack, open := op.run(c)
			if !open {
				inflight = model.clone()
				if !op.invalid && op.line != "" {
					op.apply(inflight, rep)
				}
				break
			}
			if ack {
				op.apply(model, rep)
				acked++
				// identifiers are needed for later commands
				if op.id == "add" || op.id == "net-create" {
					fillIDs(c, model)
				}
			} else if !op.invalid && !duplicate(rep) {
				Failf("%q was refused: %v", op.line, rep)
			}
			if c.Closed() {
				break
			}
		}
		<-stop
		db := p.OpenDB()
		got := loadSet(db, "alice")
		Must(db.Close())
		resolveCerts(model, got)
		ok := model.norm() == got.norm()
		if !ok && inflight != nil {
			resolveCerts(inflight, got)
			for _, n := range inflight.Nets {
				// the certificate of an unacknowledged command is unknown
				if g := got.byName(n.GetName()); g != nil && strings.HasPrefix(string(n.SASL.External.CertBlob), "announced:") {
					n.SASL.External = g.SASL.External
				}
			}
			ok = inflight.norm() == got.norm()
		}
		if !ok {
			Failf("after a kill with %d acknowledged commands the database differs (+ stored, - acknowledged):\n%s", acked, diffText(model.norm(), got.norm()))
		}
		model = got
		t.State("kill|%d", min(acked, 30))
		t.Count("kills", 1)
		t.Count("acknowledged_before_kill", acked)
	}
}

func fillIDs(c *Client, s *setState) {
	from := c.Mark()
	c.Send("BOUNCER LISTNETWORKS")
	if c.TrySync() < 0 {
		return
	}
	for _, l := range c.Since(from) {
		if l.Command == "BOUNCER" && l.P(0) == "NETWORK" {
			at := irc.ParseTags(l.P(2))
			if n := s.byName(string(at["name"])); n != nil {
				fmt.Sscan(l.P(1), &n.ID)
			}
		}
	}
}

// duplicate tells whether a command was refused because another network has
// the same address and nick.
func duplicate(ls []Line) bool {
	return strings.Contains(fmt.Sprint(ls), "UNIQUE constraint")
}
