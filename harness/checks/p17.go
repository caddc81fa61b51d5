package checks

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P17", Level: "stress_oracle",
		Rule:   "one execution = one user and network, a model of the saved channels (name, last key), and a random sequence of joins, parts, detaches, service channel commands, kicks, forced parts, refused joins and key changes, in any spelling, online and offline, with the connection lost in every way (closed, reset, ERROR, cut before or during registration, network update, bouncer restart, process stop) in between, up to several hundred channels. After each registration the JOIN lines of that connection must name exactly the saved channels, once, with their keys and within 512 bytes, and the connect commands must have been sent once and in order. 'window': channels are created while the registration completes and must all be joined. A situation is (way of loss, number of channels class, kinds of operations since the last connection)",
		Assume: []string{"the network accepts the names as given"},
		Cases: func(e *Env) []Case {
			l := Repeat(e, "history", e.N(220, 5000), p17History)
			l = append(l, Repeat(e, "window", e.N(60, 1500), p17Window)...)
			return append(l, Repeat(e, "many", e.N(8, 200), p17Many)...)
		},
	})
}

type savedChan struct{ name, key string }

type p17 struct {
	t     *T
	w     *World
	up    *Upstream
	cm    string
	cmds  []string
	model map[string]savedChan
	c     *Client
	idx   int // index of the current connection
}

func (s *p17) fold(n string) string { return foldName(s.cm, n) }

// parseJoins returns the channels of the JOIN lines with their keys.
func parseJoins(ls []Line) (out []savedChan) {
	for _, l := range ls {
		if l.Command != "JOIN" {
			continue
		}
		if len(l.Raw) > 510 {
			Failf("JOIN line of %d bytes: %s", len(l.Raw), l.Raw)
		}
		var keys []string
		if len(l.Params) > 1 {
			keys = strings.Split(l.P(1), ",")
		}
		names := strings.Split(l.P(0), ",")
		if len(keys) > len(names) {
			Failf("more keys than channels: %s", l.Raw)
		}
		for i, n := range names {
			k := ""
			if i < len(keys) {
				k = keys[i]
			}
			out = append(out, savedChan{n, k})
		}
	}
	return out
}

// checkConn compares what was joined on a fresh connection with the model.
func (s *p17) checkConn(uc *UpConn, what string, exact bool) {
	ls := uc.Lines()
	got := map[string]savedChan{}
	for _, j := range parseJoins(ls) {
		f := s.fold(j.name)
		if o, ok := got[f]; ok {
			Failf("%s: %q was joined twice (%q)", what, j.name, o.name)
		}
		got[f] = j
		want, ok := s.model[f]
		if !ok {
			uc.Dump()
			Failf("%s: %q was joined but is not a saved channel (%s)", what, j.name, s.list())
		}
		if want.key != j.key {
			Failf("%s: %q was joined with key %q instead of %q", what, j.name, j.key, want.key)
		}
		if want.name != j.name {
			Failf("%s: %q was joined as %q", what, want.name, j.name)
		}
	}
	if exact {
		for f, want := range s.model {
			if _, ok := got[f]; !ok {
				uc.Dump()
				Failf("%s: saved channel %q was not joined", what, want.name)
			}
		}
		var cmds []string
		for _, l := range ls {
			if l.Command == "XCMD" {
				cmds = append(cmds, l.Raw)
			}
		}
		if strings.Join(cmds, "\n") != strings.Join(s.cmds, "\n") {
			uc.Dump()
			Failf("%s: connect commands sent: %q, configured: %q", what, cmds, s.cmds)
		}
	}
	s.t.Count("connections_checked", 1)
}

func (s *p17) list() string {
	var l []string
	for _, c := range s.model {
		l = append(l, c.name)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func p17World(t *T, nch int) *p17 {
	r := t.Rng
	s := &p17{t: t, model: map[string]savedChan{}}
	s.cm = Pick(r, []string{"rfc1459", "ascii", "rfc1459-strict"})
	s.w = NewWorld(t, Pick(r, []string{"db", "db", "fs"}))
	s.up = NewUpstream(t, "net")
	s.up.Caps = []string{"server-time", "message-tags", "echo-message"}
	s.up.ISupport = []string{"CASEMAPPING=" + s.cm, "CHANTYPES=#&"}
	for i := r.Intn(3); i > 0; i-- {
		s.cmds = append(s.cmds, fmt.Sprintf("XCMD %d x", i))
	}
	u := s.w.AddUser("alice", true)
	n := s.w.AddNetwork(u, "net", s.up, func(n *database.Network) { n.ConnectCommands = s.cmds })
	for i := 0; i < nch; i++ {
		name, key := s.newName(), ""
		if s.model[s.fold(name)].name != "" {
			continue
		}
		if r.Intn(3) == 0 {
			key = fmt.Sprintf("k%d", r.Intn(1000))
		}
		det := r.Intn(4) == 0
		s.w.AddChannel(n, name, func(c *database.Channel) { c.Key, c.Detached = key, det })
		s.model[s.fold(name)] = savedChan{name, key}
	}
	return s
}

func (s *p17) newName() string {
	r := s.t.Rng
	if r.Intn(3) == 0 {
		return Pick(r, []string{"#a[", "#a{", "#A[", "#x~", "#x^", "#X^", "#q|", "#q\\", "&loc", "#é", "#:colon"})
	}
	return fmt.Sprintf("%s%s%d", Pick(r, []string{"#", "#", "&", "##"}), Pick(r, []string{"chan", "Go", "x[y]", strings.Repeat("l", 30)}), r.Intn(30))
}

// someName picks a saved channel in some spelling, or a new name.
func (s *p17) someName() string {
	r := s.t.Rng
	if len(s.model) > 0 && r.Intn(4) != 0 {
		var l []string
		for _, c := range s.model {
			l = append(l, c.name)
		}
		sort.Strings(l)
		n := Pick(r, l)
		if r.Intn(3) == 0 {
			n = respellCM(s.t, s.cm, n)
		}
		return n
	}
	return s.newName()
}

func (s *p17) client() *Client {
	if s.c == nil || s.c.Closed() {
		s.c = s.w.Connect(ClientOpts{User: "alice", Network: "net", Caps: []string{"server-time", "message-tags"}})
	}
	return s.c
}

func (s *p17) svc(cmd string) (string, bool) {
	out := strings.Join(s.client().Service(cmd), "\n")
	return out, !strings.HasPrefix(out, "error:")
}

func quoteArg(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func p17History(t *T) {
	r := t.Rng
	s := p17World(t, r.Intn(12))
	hold := make(chan struct{})
	close(hold)
	s.up.Welcome = func(c *UpConn) { c.SendWelcome() }
	s.up.Start()
	s.w.Start()
	uc := s.up.Ready(0)
	uc.Sync()
	uc.Sync()
	s.checkConn(uc, "at start", true)
	for round := 0; round < 6; round++ {
		kinds := map[string]bool{}
		offline := false
		for i := r.Intn(9); i > 0; i-- {
			kinds[s.op(uc, &offline)] = true
		}
		// lose the connection
		how := Pick(r, []string{"close", "close", "error", "reset", "restart", "update", "badreg", "offline"})
		next := uc.Index + 1
		c := s.c
		switch how {
		case "close":
			uc.Close()
		case "reset":
			uc.Raw("PING :unfinished")
			uc.Close()
		case "error":
			uc.Send("ERROR :Closing link")
			uc.Close()
		case "restart":
			s.w.Restart()
			s.c = nil
		case "update":
			if out, ok := s.svc("network update net -auto-away " + fmt.Sprint(r.Intn(2) == 0)); !ok {
				Failf("network update failed: %s", out)
			}
		case "badreg":
			// some connections fail around the registration
			fails := 1 + r.Intn(3)
			base := uc.Index
			kind := r.Intn(4)
			s.up.Welcome = func(c *UpConn) {
				if c.Index <= base+fails {
					switch kind {
					case 0:
						c.Close()
					case 1:
						c.Sendf(":%s 433 * x :Nickname is already in use", c.Up.Host)
						c.Close()
					case 2:
						c.Sendf(":%s 001 %s :hi", c.Up.Host, c.CurNick())
						c.Close()
					case 3:
						c.SendWelcome()
						c.Close()
					}
					return
				}
				c.SendWelcome()
			}
			uc.Close()
			next += fails
		case "offline":
			// commands while the network doesn't complete the registration
			release := make(chan struct{})
			base := uc.Index
			s.up.Welcome = func(c *UpConn) {
				if c.Index == base+1 {
					<-release
				}
				c.SendWelcome()
			}
			s.client()
			uc.Close()
			s.up.Conn(base + 1)
			for s.client().Service("network status") == nil || strings.Contains(strings.Join(s.client().Service("network status"), " "), "connected as") {
				time.Sleep(2 * time.Millisecond)
			}
			off := true
			for i := 1 + r.Intn(4); i > 0; i-- {
				kinds[s.op(nil, &off)] = true
			}
			close(release)
		}
		_ = c
		for i := uc.Index + 1; i < next; i++ {
			f := s.up.Conn(i)
			f.WaitClosed("failed connection")
			s.checkConn(f, "failed connection", false)
		}
		uc = s.up.Ready(next)
		uc.Sync()
		uc.Sync()
		s.checkConn(uc, "after "+how, true)
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		t.State("%s|%s|%s", how, sizeClass(len(s.model)), strings.Join(ks, ","))
	}
	// the stored channels are the same
	nets, err := s.w.DB.ListNetworks(context.Background(), s.w.UserID("alice"))
	Must(err)
	chans, err := s.w.DB.ListChannels(context.Background(), nets[0].ID)
	Must(err)
	if len(chans) != len(s.model) {
		Failf("%d channels are stored instead of %d", len(chans), len(s.model))
	}
	s.w.CheckNoPanic()
}

// op runs one operation; uc is nil while the network isn't connected.
func (s *p17) op(uc *UpConn, off *bool) string {
	r, t := s.t.Rng, s.t
	c := s.client()
	t.Count("operations", 1)
	name := s.someName()
	f := s.fold(name)
	kinds := []string{"join", "join", "joinkey", "part", "part", "detach", "screate", "sdelete", "kick", "fpart", "refuse", "supdate", "fjoin"}
	if uc == nil {
		kinds = []string{"screate", "screate", "sdelete", "offpart", "offjoin", "supdate"}
	}
	k := Pick(r, kinds)
	settle := func() {
		c.Sync()
		if uc != nil {
			uc.Sync()
			uc.Sync()
			c.Sync()
		}
	}
	switch k {
	case "join", "joinkey":
		key := ""
		if k == "joinkey" {
			key = fmt.Sprintf("key%d", r.Intn(1000))
		}
		n2 := s.someName()
		names, keys := []string{name}, []string{key}
		if r.Intn(3) == 0 && s.fold(n2) != f {
			names, keys = append(names, n2), append(keys, "")
		}
		c.Sendf("JOIN %s %s", strings.Join(names, ","), strings.Join(keys, ","))
		for i, n := range names {
			o, ok := s.model[s.fold(n)]
			if !ok {
				o = savedChan{name: n}
			}
			if keys[i] != "" {
				o.key = keys[i]
			}
			s.model[s.fold(n)] = o
		}
	case "part":
		c.Sendf("PART %s", name)
		delete(s.model, f)
	case "detach":
		c.Sendf("PART %s :detach", name)
		if _, ok := s.model[f]; !ok {
			s.model[f] = savedChan{name: name}
			// a detached channel which isn't joined is saved for later
		}
	case "screate":
		out, ok := s.svc("channel create " + quoteArg(name))
		_, had := s.model[f]
		if ok == had {
			Failf("channel create %q (saved: %v): %s", name, had, out)
		}
		if ok {
			s.model[f] = savedChan{name: name}
		}
	case "sdelete":
		out, ok := s.svc("channel delete " + quoteArg(name))
		_, had := s.model[f]
		if ok != had {
			Failf("channel delete %q (saved: %v): %s", name, had, out)
		}
		delete(s.model, f)
	case "supdate":
		s.svc("channel update " + quoteArg(name) + " -detached " + fmt.Sprint(r.Intn(2) == 0))
	case "kick":
		uc.Sendf(":op!o@h KICK %s %s :out", name, uc.CurNick())
	case "fpart":
		uc.Sendf(":%s PART %s", uc.Prefix(), name)
	case "fjoin":
		// not asked for by a client
		uc.Sendf(":%s JOIN %s", uc.Prefix(), name)
	case "refuse":
		uc.Sendf(":%s %s %s %s :Cannot join channel", s.up.Host, Pick(r, []string{"471", "473", "474", "475", "477", "403"}), uc.CurNick(), name)
	case "offpart":
		from := c.Mark()
		c.Sendf("PART %s", name)
		c.Sync()
		if len(c.Got(from, "PART")) > 0 {
			Failf("PART was confirmed while the network isn't connected")
		}
	case "offjoin":
		c.Sendf("JOIN %s", s.newName()+"off")
	}
	settle()
	return k
}

// p17Window creates channels while the registration completes.
func p17Window(t *T) {
	r := t.Rng
	s := p17World(t, r.Intn(30))
	release := make(chan struct{})
	s.up.Welcome = func(c *UpConn) {
		if c.Index == 0 {
			<-release
		}
		c.SendWelcome()
	}
	s.up.Start()
	s.w.Start()
	// unbound: not told about the connection
	c := s.w.Connect(ClientOpts{User: "alice", Caps: []string{}})
	s.up.Conn(0)
	n := 3 + r.Intn(30)
	var created []string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("#w%d", i)
		c.Sendf("PRIVMSG BouncerServ :channel create %s/net", name)
		if i == n/3 {
			close(release)
		}
		created = append(created, name)
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	c.Sync()
	for _, name := range created {
		s.model[s.fold(name)] = savedChan{name: name}
	}
	uc := s.up.Ready(0)
	uc.Sync()
	uc.Sync()
	got := map[string]bool{}
	for _, j := range parseJoins(uc.Lines()) {
		got[s.fold(j.name)] = true
	}
	for f, ch := range s.model {
		if !got[f] {
			uc.Dump()
			Failf("channel %q, created while the connection was being registered, was not joined", ch.name)
		}
	}
	t.State("window|%s", sizeClass(len(s.model)))
	uc.Close()
	uc = s.up.Ready(1)
	uc.Sync()
	uc.Sync()
	s.checkConn(uc, "after the next loss", true)
	s.w.CheckNoPanic()
}

func p17Many(t *T) {
	r := t.Rng
	s := p17World(t, 0)
	nets, err := s.w.DB.ListNetworks(context.Background(), s.w.UserID("alice"))
	Must(err)
	n := 60 + r.Intn(240)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("#%s%d", strings.Repeat(Pick(r, []string{"a", "B", "é"}), r.Intn(20)), i)
		key := ""
		if r.Intn(4) == 0 {
			key = fmt.Sprintf("%s%d", strings.Repeat("k", r.Intn(20)), i)
		}
		s.w.AddChannel(&nets[0], name, func(c *database.Channel) { c.Key = key })
		s.model[s.fold(name)] = savedChan{name, key}
	}
	s.up.Start()
	s.w.Start()
	for i := 0; i < 2; i++ {
		uc := s.up.Ready(i)
		// the rate limit may apply until the network announces SAFERATE
		deadline := time.Now().Add(Watchdog)
		for len(parseJoins(uc.Lines())) < len(s.model) && time.Now().Before(deadline) {
			time.Sleep(5 * time.Millisecond)
		}
		uc.Sync()
		s.checkConn(uc, "many channels", true)
		t.State("many|%s", sizeClass(len(s.model)))
		uc.Close()
	}
	s.w.CheckNoPanic()
}
