package checks

import (
	"bufio"
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P34", Level: "stress_oracle", Par: 24,
		Rule:   "one execution = a bouncer with two ordinary users, one administrator and two users each with a stalled or flooding peer (a client that stops reading while its network or its own commands flood it, a network server that stops reading, never answers the registration or the TLS handshake, or floods; unauthenticated and administration connections that flood without reading), all at once; while the stall is in effect (seen by a probe of the stalled user that is not answered) every other user runs rounds of probes (fence, message to and from its network, service command, broadcast, administration command, new login), and so does a user of an undisturbed bouncer in the same process; then either the bouncer is shut down at once, or the stalled users' other clients and networks must be served again with all broadcasts delivered. Connections that never complete the registration, wherever they stop in it, must be closed in time. A situation is (kinds of stall, ending)",
		Assume: []string{"a probe counts as blocked only when none of a victim's rounds ended in a window of five seconds in which the undisturbed bouncer completed all of its rounds", "the write timeout is 8 s instead of 10 s (test hook)"},
		Cases: func(e *Env) []Case {
			Watchdog = 40 * time.Second
			SetTimeouts(8*time.Second, 8*time.Second)
			return append(Repeat(e, "register", e.N(1, 8), p34Register), Repeat(e, "stall", e.N(24, 600), p34Stall)...)
		},
	})
}

// p34Register: connections which stop anywhere in the registration do not hold
// on to the bouncer.
func p34Register(t *T) {
	w := NewWorld(t, "memory")
	w.AddUser("alice", false)
	w.Start()
	ok := w.Connect(ClientOpts{User: "alice"})
	parts := []string{"NICK alice", "USER alice 0 * :a", "PASS :pw-alice", "CAP LS 302", "CAP REQ :sasl", "AUTHENTICATE PLAIN", "PING x", "CAP REQ :server-time", "CAP LIST", "NOTICE * :x"}
	scripts := [][]string{{}, {"NICK alice"}, {"USER alice 0 * :a"}, {"PASS :pw-alice"}, {"CAP LS 302"}, {"CAP LS 302", "NICK alice", "USER alice 0 * :a", "PASS :pw-alice"},
		{"PASS :pw-alice", "NICK alice"}, {"CAP REQ :sasl", "AUTHENTICATE PLAIN"}, {"CAP REQ :sasl", "AUTHENTICATE PLAIN", "NICK alice", "USER alice 0 * :a"}}
	for i := 0; i < 30; i++ {
		var l []string
		cap := false
		for _, p := range Subset(t.Rng, parts, 0.4) {
			cap = cap || strings.HasPrefix(p, "CAP LS")
			l = append(l, p)
		}
		if !cap {
			l = append(l, "CAP LS")
		}
		t.Rng.Shuffle(len(l), func(i, j int) {
			l[i], l[j] = l[j], l[i]
		})
		l = append([]string{"CAP LS"}, l...) // registration stays open until CAP END
		scripts = append(scripts, l)
	}
	var cs []*Client
	start := time.Now()
	for i, s := range scripts {
		c := w.Dial(fmt.Sprintf("half%d", i))
		if len(s) > 0 {
			c.Send(s...)
		}
		cs = append(cs, c)
	}
	// trickle: a line now and then does not keep it open
	for time.Since(start) < 45*time.Second {
		n := 0
		for i, c := range cs {
			if !c.Closed() {
				n++
				if i%3 == 0 && len(scripts[i]) > 0 {
					c.Send("PING x")
				}
			}
		}
		if n == 0 {
			break
		}
		time.Sleep(500 * time.Millisecond)
	}
	for i, c := range cs {
		if !c.Closed() {
			c.Dump()
			Failf("a connection which sent only %q is still open after %v", scripts[i], time.Since(start))
		}
		t.State("stopped after %d lines", len(scripts[i]))
	}
	if ok.TrySync() < 0 {
		Failf("a registered client was closed")
	}
	t.Count("unfinished registrations", len(cs))
	w.CheckNoPanic()
}

// smallBuf limits the socket buffers of a listener's connections.
func smallBuf(opt int) func(network, address string, c syscall.RawConn) error {
	return func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, opt, 4096) })
	}
}

func p34Listen(opt int) net.Listener {
	lc := net.ListenConfig{Control: smallBuf(opt)}
	ln, err := lc.Listen(context.Background(), "tcp", "127.0.0.1:0")
	Must(err)
	return ln
}

// p34Server is a network server whose sockets are not read unless it wants to.
type p34Server struct {
	ln    net.Listener
	kind  string // mute: registers, then stops reading; silent: never answers
	conns atomic.Int64
	ready chan struct{}
	once  sync.Once
}

func newP34Server(t *T, kind string) *p34Server {
	s := &p34Server{ln: p34Listen(syscall.SO_RCVBUF), kind: kind, ready: make(chan struct{})}
	t.Cleanup(func() { s.ln.Close() })
	go func() {
		for {
			nc, err := s.ln.Accept()
			if err != nil {
				return
			}
			t.Cleanup(func() { nc.Close() })
			s.conns.Add(1)
			go s.serve(nc)
		}
	}()
	return s
}

func (s *p34Server) serve(nc net.Conn) {
	if s.kind == "silent" {
		return
	}
	sc := bufio.NewReader(nc)
	for {
		l, err := sc.ReadString('\n')
		if err != nil {
			return
		}
		switch {
		case strings.HasPrefix(l, "CAP LS"):
			fmt.Fprintf(nc, ":srv CAP * LS :\r\n")
		case strings.HasPrefix(l, "USER"):
			fmt.Fprintf(nc, ":srv 001 mallory :hi\r\n:srv 005 mallory soju.im/SAFERATE :are supported\r\n:srv 422 mallory :no motd\r\nPING :ready\r\n")
		case strings.HasPrefix(l, "PONG"):
			s.once.Do(func() { close(s.ready) })
			return // stops reading
		}
	}
}

// p34Raw is a client connection under the test's control.
type p34Raw struct {
	nc net.Conn
	rd *bufio.Reader
}

func p34Dial(t *T, addr string) *p34Raw {
	nc, err := net.Dial("tcp", addr)
	Must(err)
	nc.(*net.TCPConn).SetReadBuffer(4096)
	t.Cleanup(func() { nc.Close() })
	return &p34Raw{nc: nc, rd: bufio.NewReader(nc)}
}

func (p *p34Raw) login(user string) {
	u, _, _ := strings.Cut(user, "/")
	fmt.Fprintf(p.nc, "PASS pw-%s\r\nNICK %s\r\nUSER %s 0 * :x\r\nPING :loggedin\r\n", u, u, user)
	p.nc.SetReadDeadline(time.Now().Add(Watchdog))
	for {
		l, err := p.rd.ReadString('\n')
		if err != nil {
			panic(Stuck{"login of the stalling client: " + err.Error()})
		}
		if strings.Contains(l, "PONG") {
			return
		}
	}
}

// waitEnd reads until the connection ends.
func (p *p34Raw) waitEnd(who string) {
	p.nc.SetReadDeadline(time.Now().Add(Watchdog))
	p.nc.(*net.TCPConn).SetReadBuffer(1 << 20)
	buf := make([]byte, 1<<16)
	for {
		if _, err := p.rd.Read(buf); err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				panic(Stuck{"the connection of the stalled client of " + who + " was never closed"})
			}
			return
		}
	}
}

var p34Kinds = []string{"client-flooded", "client-flooded", "client-self", "net-mute", "net-mute", "net-silent", "tls-hole", "unauth", "admin", "flood"}

func p34Stall(t *T) {
	r := t.Rng
	w := NewWorld(t, Pick(r, []string{"memory", "memory", "fs"}))
	ups := map[string]*Upstream{}
	mkUser := func(w *World, name string, admin bool) {
		up := NewUpstream(t, "net-"+name).Start()
		ups[name] = up
		n := w.AddNetwork(w.AddUser(name, admin), "net", up)
		w.AddChannel(n, "#a")
	}
	mkUser(w, "vera", true)
	mkUser(w, "walt", false)
	mkUser(w, "xena", false)
	mallories := []string{"m0", "m1"}
	kinds := map[string]string{}
	second := map[string]*p34Server{}
	for _, m := range mallories {
		kinds[m] = Pick(r, p34Kinds)
		up := NewUpstream(t, "net-"+m).Start()
		ups[m] = up
		u := w.AddUser(m, false)
		w.AddChannel(w.AddNetwork(u, "net", up), "#a")
		if k := kinds[m]; k == "net-mute" || k == "net-silent" {
			second[m] = newP34Server(t, strings.TrimPrefix(k, "net-"))
			n := w.AddNetwork(u, "bad", nil)
			n.Addr = "irc+insecure://" + second[m].ln.Addr().String()
			Must(w.DB.StoreNetwork(context.Background(), u.ID, n))
		}
	}
	w.Start()
	// connections whose sending buffer is small
	ln := p34Listen(syscall.SO_SNDBUF)
	aln := p34Listen(syscall.SO_SNDBUF)
	ready, aready := NewServing(ln), NewServing(aln)
	go w.Srv.Serve(ready, w.Srv.Handle)
	go w.Srv.Serve(aready, w.Srv.HandleAdmin)
	<-ready.Ready
	<-aready.Ready
	ctl := NewWorld(t, "memory")
	ctl.LogSub = "ctl"
	ctl.DBPath += ".ctl"
	mkUser(ctl, "control", false)
	ctl.Start()
	ucs := map[string]*UpConn{}
	cls := map[string]*Client{}
	for name, up := range ups {
		ucs[name] = up.Ready(0)
		ucs[name].Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
		cw := w
		if name == "control" {
			cw = ctl
		}
		cls[name] = cw.Connect(ClientOpts{User: name, Network: "net"})
	}
	var seq atomic.Int64
	var notices []string
	round := func(w *World, name string, i int) {
		c, uc := cls[name], ucs[name]
		c.Sync()
		a := fmt.Sprintf("out%dx", seq.Add(1))
		from := uc.Mark()
		c.Send("PRIVMSG #a :" + a)
		if uc.Wait(from, "message "+a, func(l Line) bool { return l.Command == "PRIVMSG" && l.P(1) == a }) < 0 {
			Failf("%s: the connection to its network was lost", name)
		}
		b := fmt.Sprintf("in%dx", seq.Add(1))
		from = c.Mark()
		uc.Send(":bob!b@h PRIVMSG #a :" + b)
		if c.Wait(from, "message "+b, func(l Line) bool { return l.Command == "PRIVMSG" && l.P(1) == b }) < 0 {
			Failf("%s: the client's connection was lost", name)
		}
		if len(c.Service("network status")) == 0 {
			Failf("%s: no answer to a service command", name)
		}
		switch {
		case name == "vera" && i%2 == 0:
			text := fmt.Sprintf("notice%dx", seq.Add(1))
			from := cls["walt"].Mark()
			notices = append(notices, text)
			c.Send("PRIVMSG BouncerServ :server notice " + text)
			c.Sync()
			cls["walt"].Wait(from, "broadcast", func(l Line) bool { return l.Command == "NOTICE" && l.P(1) == text })
		case name == "vera":
			if l, ok := w.Admin("user status"); !ok {
				Failf("the administration command user status failed: %v", l)
			}
			if len(c.Service("server status")) == 0 {
				Failf("server status was not answered")
			}
		case i%3 == 1:
			n := w.Connect(ClientOpts{User: name, Network: "net"})
			n.Peer.Close()
		}
		t.Count("probe_rounds", 1)
	}
	// The stalls.
	stalled := map[string]*p34Raw{} // logged in
	blocked := map[string]bool{}    // the user as a whole may wait
	var flooders sync.WaitGroup
	done := make(chan struct{})
	flood := func(nc interface{ Raw(string) error }, line string) {
		chunk := strings.Repeat(line+"\r\n", 20)
		flooders.Add(1)
		go func() {
			defer flooders.Done()
			for i := 0; i < 8000; i++ {
				select {
				case <-done:
					return
				default:
				}
				if nc.Raw(chunk) != nil {
					return
				}
			}
		}()
	}
	waitFlood := func() {
		end := make(chan struct{})
		go func() { flooders.Wait(); close(end) }()
		select {
		case <-end:
		case <-time.After(Watchdog):
			panic(Stuck{"a flooding peer is still waiting for the bouncer to read"})
		}
	}
	pad := strings.Repeat("x", 380)
	for _, m := range mallories {
		switch kinds[m] {
		case "client-flooded":
			p := p34Dial(t, ln.Addr().String())
			p.login(m + "/net")
			stalled[m] = p
			blocked[m] = true
			flood(ucs[m], ":bob!b@h PRIVMSG #a :"+pad)
		case "client-self":
			p := p34Dial(t, ln.Addr().String())
			p.login(m)
			stalled[m] = p
			blocked[m] = true
			flood(rawConn{p.nc}, Pick(r, []string{"PRIVMSG BouncerServ :help", "PING :" + pad, "PRIVMSG BouncerServ :network status"}))
		case "net-mute":
			select {
			case <-second[m].ready:
			case <-time.After(Watchdog):
				panic(Stuck{"the second network never registered"})
			}
			blocked[m] = true
			c := w.Connect(ClientOpts{User: m, Network: "bad"})
			flood(c, "PRIVMSG bob :"+pad)
		case "net-silent":
			Until("the silent server gets a connection", func() bool { return second[m].conns.Load() > 0 })
		case "tls-hole":
			blocked[m] = true
			s := newP34Server(t, "silent")
			p := p34Dial(t, ln.Addr().String())
			fmt.Fprintf(p.nc, "PASS pw-%s\r\nNICK %s\r\nUSER %s/%s 0 * :x\r\n", m, m, m, s.ln.Addr())
		case "unauth":
			p := p34Dial(t, ln.Addr().String())
			flood(rawConn{p.nc}, "CAP LS 302")
		case "admin":
			p := p34Dial(t, aln.Addr().String())
			flood(rawConn{p.nc}, "BOUNCERSERV help")
		case "flood":
			blocked[m] = true
			c := w.Connect(ClientOpts{User: m, Network: "net"})
			flood(c, "PRIVMSG bob :"+pad)
			flood(ucs[m], ":bob!b@h PRIVMSG #a :"+pad)
		}
	}
	// Wait for the stalls to be in effect.
	for _, m := range mallories {
		if k := kinds[m]; k == "client-flooded" || k == "client-self" || k == "net-mute" || k == "tls-hole" {
			in := false
			for i := 0; i < 80 && !in; i++ {
				time.Sleep(25 * time.Millisecond)
				tok := fmt.Sprintf("stall%dx", seq.Add(1))
				from := cls[m].Mark()
				cls[m].Send("PING " + tok)
				in = true
				for j := 0; j < 40 && in; j++ {
					time.Sleep(10 * time.Millisecond)
					for _, l := range cls[m].Since(from) {
						if l.Command == "PONG" && strings.Contains(l.Raw, tok) {
							in = false
						}
					}
				}
			}
			if in {
				t.Count("stalls_in_effect_"+k, 1)
			} else {
				t.Count("stalls_not_seen_"+k, 1)
			}
		} else {
			t.Count("disturbances_"+k, 1)
		}
	}
	// Everyone else is probed.
	const rounds = 6
	start := time.Now()
	var fmu sync.Mutex
	ended := map[string][]time.Duration{}
	var fs []func()
	victims := []string{"control", "vera", "walt", "xena"}
	for _, m := range mallories {
		if !blocked[m] {
			victims = append(victims, m)
		}
	}
	for _, name := range victims {
		name := name
		cw := w
		if name == "control" {
			cw = ctl
		}
		fs = append(fs, func() {
			for i := 0; i < rounds; i++ {
				round(cw, name, i)
				fmu.Lock()
				ended[name] = append(ended[name], time.Since(start))
				fmu.Unlock()
			}
		})
	}
	guarded(fs...)
	const window = 5 * time.Second
	in := func(name string) (n int) {
		for _, d := range ended[name] {
			if d < window {
				n++
			}
		}
		return n
	}
	for _, name := range victims {
		t.Count("victims_probed", 1)
		if in("control") == rounds && in(name) == 0 {
			Failf("%s was not served for %v, the undisturbed user was after %v; the peers were %v", name, ended[name][0], ended["control"], kinds)
		}
	}
	// The ending.
	ending := Pick(r, []string{"shutdown", "recovery", "recovery"})
	t.State("%s|%s|%s", kinds["m0"], kinds["m1"], ending)
	if ending == "recovery" {
		close(done)
		waitFlood()
		for _, m := range mallories {
			cls[m].Sync()
			if ucs[m].Closed() {
				Failf("%s (%s): the connection to its other network was lost", m, kinds[m])
			}
			round(w, m, 0)
			have := 0
			for _, l := range cls[m].Lines() {
				if have < len(notices) && l.Command == "NOTICE" && l.P(1) == notices[have] {
					have++
				}
			}
			if have != len(notices) {
				Failf("%s (%s): received %d of %d broadcasts", m, kinds[m], have, len(notices))
			}
			t.Count("stalled_users_recovered", 1)
		}
	}
	w.CheckNoPanic()
	if r.Intn(2) == 0 { // commands which need the server's state meanwhile
		cmds := []string{"user status", "server status", "server notice bye", "user status vera"}
		var l []string
		for i := 0; i < 300; i++ {
			l = append(l, "PRIVMSG BouncerServ :"+Pick(r, cmds))
		}
		cls["vera"].Raw(strings.Join(l, "\r\n") + "\r\n")
		t.Count("shutdowns_during_commands", 1)
	}
	w.Stop()
	if ending == "shutdown" {
		close(done)
	}
	for name, c := range cls {
		if name != "control" {
			c.WaitClosed("shutdown")
			ucs[name].WaitClosed("shutdown")
		}
	}
	for m, p := range stalled {
		p.waitEnd(m)
	}
	t.Count("shutdowns_"+ending, 1)
	waitFlood()
}

type rawConn struct{ c net.Conn }

func (r rawConn) Raw(s string) error { _, err := r.c.Write([]byte(s)); return err }
