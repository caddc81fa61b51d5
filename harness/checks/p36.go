package checks

import (
	"bufio"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"syscall"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/identd"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P36", Level: "stress_oracle",
		Rule:   "server: one execution = three users with several networks (plain, TLS) on a bouncer with an ident server, optionally with an address per user; connections are lost, networks updated, disabled, deleted and added, the bouncer restarted; for every connection ever seen by the network servers the ident server is queried from the server's address (and from others, with swapped and neighbouring ports, malformed lines, several lines per connection): the owner's identity for open connections from their first line on, an error for all others. table: one execution = a random concurrent history of connections with colliding addresses and ports against the ident server, queried over connections with arbitrary addresses. A situation is (open or closed, kind of query, answer)",
		Assume: []string{"a query that arrives at a local address other than the connection's may be answered when only one connection matches it"},
		Cases: func(e *Env) []Case {
			l := Repeat(e, "server", e.N(500, 4000), p36Server)
			return append(l, Repeat(e, "table", e.N(1200, 20000), p36Table)...)
		},
	})
}

// pipeListener hands out prepared connections.
type pipeListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

type addrConn struct {
	net.Conn
	local, remote string
}

type strAddr string

func (a strAddr) Network() string { return "tcp" }
func (a strAddr) String() string  { return string(a) }

func (c *addrConn) LocalAddr() net.Addr  { return strAddr(c.local) }
func (c *addrConn) RemoteAddr() net.Addr { return strAddr(c.remote) }

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, errors.New("closed")
	}
}
func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return strAddr("192.0.2.1:113") }

// identAsk sends lines and returns the answers up to the end of the
// connection, or one answer per line.
func identAsk(nc net.Conn, lines ...string) []string {
	defer nc.Close()
	nc.SetDeadline(time.Now().Add(Watchdog))
	go io.WriteString(nc, strings.Join(lines, "\r\n")+"\r\n")
	r := bufio.NewReader(nc)
	var l []string
	for len(l) < len(lines) {
		s, err := r.ReadString('\n')
		if s != "" {
			l = append(l, strings.TrimRight(s, "\r\n"))
		}
		if err != nil {
			break
		}
	}
	return l
}

// identParse splits an answer.
func identParse(q, a string) (id string, isErr bool) {
	rest, ok := strings.CutPrefix(a, q+" : ")
	if !ok {
		Failf("query %q: the answer %q does not start with the query", q, a)
	}
	if strings.HasPrefix(rest, "ERROR : ") {
		return "", true
	}
	f := strings.SplitN(rest, " : ", 3)
	if len(f) != 3 || f[0] != "USERID" || f[2] == "" {
		Failf("query %q: answer %q", q, a)
	}
	return f[2], false
}

func spellQuery(r *rand.Rand, local, remote string) string {
	return Pick(r, []string{"%s,%s", "%s, %s", "%s , %s", " %s,%s", "%s ,%s ", "%s\t,\t%s"}[:]) + "\x00" + local + "\x00" + remote
}

func queryLine(r *rand.Rand, local, remote int) string {
	f := strings.Split(spellQuery(r, fmt.Sprint(local), fmt.Sprint(remote)), "\x00")
	return fmt.Sprintf(f[0], f[1], f[2])
}

func p36Table(t *T) {
	r := t.Rng
	srv := identd.New()
	ln := &pipeListener{ch: make(chan net.Conn), done: make(chan struct{})}
	go srv.Serve(ln)
	t.CleanupLast(func() { ln.Close() })
	type tuple struct {
		lh     string
		lp     int
		rh     string
		rp     int
		unsure bool
	}
	lhs, rhs := []string{"10.0.0.1", "10.0.0.2", "2001:db8::1"}, []string{"192.0.2.9", "192.0.2.10", "2001:db8::9"}
	dial := func(local, remote string) net.Conn {
		a, b := net.Pipe()
		ln.ch <- &addrConn{b, net.JoinHostPort(local, "113"), net.JoinHostPort(remote, "55555")}
		return a
	}
	// Every worker owns its tuples, all collide.
	var mu sync.Mutex
	seq := 0
	worker := func(w, workers int, rr *rand.Rand) func() {
		return func() {
			own := map[tuple]string{}
			for k := 0; k < 40; k++ {
				// the local ports of a worker are its own, so that answers are
				// not affected by other workers
				tu := tuple{lh: Pick(rr, lhs), lp: 1000 + w + workers*rr.Intn(3), rh: Pick(rr, rhs), rp: 6667 + rr.Intn(2)}
				l, m := net.JoinHostPort(tu.lh, fmt.Sprint(tu.lp)), net.JoinHostPort(tu.rh, fmt.Sprint(tu.rp))
				switch rr.Intn(5) {
				case 0, 1:
					if _, dup := own[tu]; dup {
						break
					}
					mu.Lock()
					seq++
					id := fmt.Sprintf("id%d", seq)
					mu.Unlock()
					srv.Store(m, l, id)
					own[tu] = id
				case 2:
					srv.Delete(m, l)
					delete(own, tu)
				default:
					q := queryLine(rr, tu.lp, tu.rp)
					a := identAsk(dial(tu.lh, tu.rh), q)
					if len(a) != 1 {
						Failf("query %q: answers %q", q, a)
					}
					id, isErr := identParse(q, a[0])
					want, open := own[tu]
					others := 0
					other := ""
					for o, oid := range own {
						if o.lp == tu.lp && o.rh == tu.rh && o.rp == tu.rp && o.lh != tu.lh {
							others++
							other = oid
						}
					}
					switch {
					case open && id != want:
						Failf("query %q from %s to %s: %q, the connection belongs to %q", q, tu.rh, tu.lh, a[0], want)
					case !open && !isErr && !(others == 1 && id == other):
						Failf("query %q from %s to %s: %q, there is no such connection (%d from other local addresses)", q, tu.rh, tu.lh, a[0], others)
					}
					t.Count("answers checked", 1)
					t.State("table open=%v err=%v others=%d", open, isErr, others)
				}
			}
		}
	}
	var fs []func()
	n := 1 + r.Intn(4)
	for w := 0; w < n; w++ {
		fs = append(fs, worker(w, n, rand.New(rand.NewSource(r.Int63()))))
	}
	guarded(fs...)
	// what is not a query
	for _, q := range []string{"", "x", "1", "1,", ",1", "a,b", "0,5", "-1,5", "5,0", "1,2,3", "99999999999999999999,1", "70000,70000", strings.Repeat("1", 300) + ",5", ":::", "1 2"} {
		a := identAsk(dial("10.0.0.1", "192.0.2.9"), q)
		if len(a) == 1 {
			if _, isErr := identParse(q, a[0]); !isErr {
				Failf("query %q answered with %q", q, a[0])
			}
		} else if len(a) > 1 {
			Failf("query %q answered with %q", q, a)
		}
		t.Count("malformed queries", 1)
	}
	if a := identAsk(dial("10.0.0.1", "192.0.2.9"), strings.Repeat("9", 5000)); len(a) > 0 {
		for _, l := range a {
			if strings.Contains(l, "USERID") {
				Failf("endless line answered with %q", l)
			}
		}
	}
}

type p36Conn struct {
	c             *UpConn
	user          string
	local, remote int // of the bouncer, of the server
	host          string
}

func p36Server(t *T) {
	r := t.Rng
	w := NewWorld(t, "memory")
	srv := identd.New()
	ln, err := net.Listen("tcp4", "0.0.0.0:0")
	Must(err)
	go srv.Serve(ln)
	t.CleanupLast(func() { ln.Close() })
	w.Setup = func(s *soju.Server) { s.Identd = srv }
	perUser := r.Intn(2) == 0
	if perUser {
		_, n, _ := net.ParseCIDR(Pick(r, []string{"127.20.0.0/16", "127.9.8.0/24"}))
		w.Cfg = func(c *soju.Config) {
			c.UpstreamUserIPs = []*net.IPNet{n}
		}
	}
	port := ln.Addr().(*net.TCPAddr).Port
	dial := func(from, to string) net.Conn {
		var d net.Dialer
		if from != "127.0.0.1" {
			d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(from)}
		} else if to != "127.0.0.1" {
			d.Control = func(_, _ string, rc syscall.RawConn) error {
				return rc.Control(func(fd uintptr) {
					syscall.SetsockoptInt(int(fd), syscall.IPPROTO_IP, 24, 1) // choose the port late
					syscall.Bind(int(fd), &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
				})
			}
		}
		for i := 0; ; i++ {
			nc, err := d.Dial("tcp", fmt.Sprintf("%s:%d", to, port))
			if err == nil {
				return nc
			}
			if i > 20 || !errors.Is(err, syscall.EADDRINUSE) {
				Must(err)
			}
			time.Sleep(time.Duration(i) * 10 * time.Millisecond)
		}
	}
	ids := map[string]string{} // user -> identity
	ips := map[string]string{}
	var mu sync.Mutex
	var conns []*p36Conn
	var bad string
	names := []string{"alice", "bob", "carol"}
	var ups []*Upstream
	mk := func(user string, k int) *Upstream {
		up := NewUpstream(t, fmt.Sprintf("%s%d", user, k))
		if r.Intn(3) == 0 {
			up.TLS = &tls.Config{Certificates: []tls.Certificate{p23AllCerts()[0].cert}}
			up.Addr = "ircs://" + up.HostPort()
		}
		up.OnLine = func(c *UpConn, l Line) bool {
			if l.Command != "CAP" || l.P(0) != "LS" {
				return false
			}
			// the first thing a server does is to ask
			loc, rem := c.Addrs()
			x := &p36Conn{c, user, rem.(*net.TCPAddr).Port, loc.(*net.TCPAddr).Port, rem.(*net.TCPAddr).IP.String()}
			q := fmt.Sprintf("%d, %d", x.local, x.remote)
			a := identAsk(dial("127.0.0.1", "127.0.0.1"), q)
			// an error is right when the bouncer has closed the connection, which
			// is seen later than the answer
			if len(a) == 1 {
				for start := time.Now(); !c.Closed() && time.Since(start) < Watchdog/12; time.Sleep(5 * time.Millisecond) {
					if _, isErr := identParse(q, a[0]); !isErr {
						break
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			conns = append(conns, x)
			if len(a) != 1 {
				bad = fmt.Sprintf("query %q when connecting: %q", q, a)
				return false
			}
			id, isErr := identParse(q, a[0])
			if c.Closed() {
				return false
			}
			if isErr {
				bad = fmt.Sprintf("query %q when connecting: %q", q, a)
			} else if ids[user] == "" {
				ids[user] = id
			} else if ids[user] != id {
				bad = fmt.Sprintf("a connection of %s is answered with %q, was %q", user, id, ids[user])
			}
			if ips[user] == "" {
				ips[user] = x.host
			} else if ips[user] != x.host {
				bad = fmt.Sprintf("a connection of %s comes from %s, was %s", user, x.host, ips[user])
			}
			t.Count("queries on connecting", 1)
			return false
		}
		up.Start()
		ups = append(ups, up)
		return up
	}
	type unet struct {
		user, name string
		up         *Upstream
		on         bool
	}
	var nets []*unet
	for i, name := range names {
		u := w.AddUser(name, false)
		for k := 0; k <= i%2; k++ {
			up := mk(name, k)
			w.AddNetwork(u, fmt.Sprintf("net%d", k), up, func(*database.Network) {})
			nets = append(nets, &unet{name, fmt.Sprintf("net%d", k), up, true})
		}
	}
	w.Start()
	svc := map[string]*Client{}
	attach := func() {
		for _, name := range names {
			svc[name] = w.Connect(ClientOpts{User: name})
		}
	}
	attach()
	check := func(what string) {
		for _, n := range nets {
			if n.on {
				n.up.SyncLive(1)
			}
		}
		w.WaitUpstreams(int64(len(func() (l []*unet) {
			for _, n := range nets {
				if n.on {
					l = append(l, n)
				}
			}
			return
		}())))
		mu.Lock()
		if bad != "" {
			Failf("%s: %s", what, bad)
		}
		l := append([]*p36Conn(nil), conns...)
		mu.Unlock()
		seen := map[string]string{}
		for u, id := range ids {
			if seen[id] != "" {
				Failf("%s and %s share the identity %q", u, seen[id], id)
			}
			seen[id] = u
			if strings.Contains(strings.ToLower(id), u) {
				Failf("the identity %q exposes the name of %s", id, u)
			}
		}
		if perUser {
			seen := map[string]string{}
			for u, ip := range ips {
				if seen[ip] != "" {
					Failf("%s and %s share the address %s", u, seen[ip], ip)
				}
				seen[ip] = u
			}
		}
		if len(l) > 14 {
			l = l[len(l)-14:]
		}
		openPorts := map[string]bool{}
		for _, x := range l {
			if !x.c.Closed() {
				openPorts[fmt.Sprintf("%d,%d", x.local, x.remote)] = true
			}
		}
		for _, x := range l {
			key := fmt.Sprintf("%d,%d", x.local, x.remote)
			open := !x.c.Closed()
			if !open && openPorts[key] {
				continue
			}
			q := queryLine(r, x.local, x.remote)
			start := time.Now()
			for {
				a := identAsk(dial("127.0.0.1", x.host), q)
				if len(a) != 1 {
					Failf("%s: query %q: answers %q", what, q, a)
				}
				id, isErr := identParse(q, a[0])
				if open {
					if id != ids[x.user] && !x.c.Closed() {
						if time.Since(start) < Watchdog/12 {
							// it may be about to be closed
							time.Sleep(5 * time.Millisecond)
							continue
						}
						Failf("%s: query %q for an open connection of %s: %q, want %q", what, q, x.user, a[0], ids[x.user])
					}
					break
				}
				if isErr {
					break
				}
				if time.Since(start) > Watchdog/6 {
					Failf("%s: query %q for a closed connection of %s: %q", what, q, x.user, a[0])
				}
				time.Sleep(2 * time.Millisecond)
			}
			t.State("server open=%v peruser=%v", open, perUser)
			t.Count("queries about connections", 1)
			if !open {
				continue
			}
			// other places and ports
			for i, y := range []struct {
				from string
				l, p int
			}{{"127.0.0.77", x.local, x.remote}, {"127.0.0.1", x.remote, x.local}, {"127.0.0.1", x.local, x.remote + 1}, {"127.0.0.1", x.local + 65536, x.remote}} {
				if openPorts[fmt.Sprintf("%d,%d", y.l, y.p)] && y.from == "127.0.0.1" {
					continue
				}
				q := queryLine(r, y.l, y.p)
				a := identAsk(dial(y.from, "127.0.0.1"), q)
				if len(a) != 1 {
					Failf("%s: query %q: answers %q", what, q, a)
				}
				if _, isErr := identParse(q, a[0]); !isErr {
					Failf("%s: query %q from %s: %q, there is no such connection", what, q, y.from, a[0])
				}
				t.State("server other %d", i)
			}
		}
		// several queries in one connection
		var open []*p36Conn
		for _, x := range l {
			if !x.c.Closed() {
				open = append(open, x)
			}
		}
		if len(open) > 1 && !perUser {
			var qs []string
			for _, x := range open {
				qs = append(qs, queryLine(r, x.local, x.remote))
			}
			a := identAsk(dial("127.0.0.1", "127.0.0.1"), qs...)
			for i, x := range open {
				if i >= len(a) {
					Failf("%s: %d answers to %d queries", what, len(a), len(qs))
				}
				if id, _ := identParse(qs[i], a[i]); id != ids[x.user] && !x.c.Closed() {
					Failf("%s: query %q: %q, want %q", what, qs[i], a[i], ids[x.user])
				}
			}
		}
	}
	check("the start")
	for k := 0; k < 8; k++ {
		n := Pick(r, nets)
		what := ""
		switch r.Intn(6) {
		case 0, 1:
			what = "a lost connection"
			if c := n.up.Newest(); c != nil && n.on {
				c.Close()
				for start := time.Now(); n.up.Newest() == c; time.Sleep(time.Millisecond) {
					if time.Since(start) > Watchdog {
						panic(Stuck{"no new connection"})
					}
				}
			}
		case 2:
			n.on = !n.on
			what = fmt.Sprintf("enabled %v", n.on)
			if out := strings.Join(svc[n.user].Service(fmt.Sprintf("network update %s -enabled %v", n.name, n.on)), " "); !strings.HasPrefix(out, "updated") {
				Failf("%s: %s", what, out)
			}
		case 3:
			what = "updated"
			c := n.up.NumConns()
			if out := strings.Join(svc[n.user].Service(fmt.Sprintf("network update %s -username u%d", n.name, k)), " "); !strings.HasPrefix(out, "updated") {
				Failf("%s: %s", what, out)
			}
			if n.on {
				n.up.Ready(c)
			}
		case 4:
			what = "several lost at once"
			for _, m := range nets {
				if c := m.up.Newest(); c != nil && m.on {
					go c.Close()
				}
			}
		case 5:
			if r.Intn(2) > 0 {
				continue
			}
			what = "restart"
			w.Stop()
			old := map[*unet]int{}
			for _, m := range nets {
				old[m] = m.up.NumConns()
			}
			w.Start()
			for _, m := range nets {
				if m.on {
					m.up.Conn(old[m])
				}
			}
			attach()
		}
		check("after " + what)
		t.State("step %s", strings.Fields(what)[0])
	}
	w.CheckNoPanic()
}
