package checks

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"path/filepath"
	"strings"
	"time"

	"codeberg.org/emersion/soju"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P27", Level: "stress_oracle",
		Rule:   "web: WebSocket clients connect to the real handler from several loopback addresses with random trust lists, Forwarded and X-Forwarded-For headers (absent, IPv4, IPv6, quoted, obfuscated, malformed, in several spellings) and Origins; the address the bouncer shows (WHO) and logs is compared with an independent rule, forged addresses must appear nowhere, refused origins get no session. proxy: the real executable listening on TCP and a Unix socket, clients from several source addresses send PROXY headers (version 1 and 2, local, unknown, malformed, in pieces, repeated) or none; the trust list is changed by reloads. A situation is (case, trusted, header kind, outcome)",
		Assume: []string{"several loopback source addresses are available"},
		Cases: func(e *Env) []Case {
			c := Repeat(e, "web", e.N(150, 2000), p27Web)
			return append(c, Repeat(e, "proxy", e.N(40, 400), p27Proxy)...)
		},
	})
}

type p27Nets []*net.IPNet

func p27Trust(r *rand.Rand) (p27Nets, []string) {
	l := Subset(r, []string{"127.0.0.2/32", "127.0.0.4/31", "127.0.1.0/24", "10.0.0.0/8", "203.0.113.7/32", "2001:db8::/32", "127.0.0.5/32"}, 0.35)
	if r.Intn(15) == 0 {
		l = append(l, "127.0.0.0/8")
	}
	var ns p27Nets
	for _, s := range l {
		_, n, err := net.ParseCIDR(s)
		Must(err)
		ns = append(ns, n)
	}
	return ns, l
}

func (n p27Nets) has(ip string) bool {
	for _, x := range n {
		if x.Contains(net.ParseIP(ip)) {
			return true
		}
	}
	return false
}

var p27Sources = []string{"127.0.0.1", "127.0.0.2", "127.0.0.3", "127.0.0.4", "127.0.0.5", "127.0.1.9", "127.0.2.1"}

func p27Dial(src, dst string) (net.Conn, error) {
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.ParseIP(src)}}
	return d.Dial("tcp", dst)
}

// p27Shown is the host the bouncer shows for the client.
func p27Shown(cl *Client, nick string) string {
	for _, l := range cl.Lines() {
		if l.Command == "001" {
			nick = l.P(0)
		}
	}
	from := cl.Mark()
	cl.Send("WHO " + nick)
	cl.Sync()
	for _, l := range cl.Since(from) {
		if l.Command == "352" && l.P(5) == nick {
			return l.P(3)
		}
	}
	Failf("WHO %s is not answered: %v", nick, cl.Since(from))
	return ""
}

// p27Logged are the addresses logged for downstream connections.
func p27Logged(log, what string) []string {
	var out []string
	for _, l := range strings.Split(log, "\n") {
		i := strings.Index(l, "downstream \"")
		if i < 0 {
			continue
		}
		rest := l[i+len("downstream \""):]
		if j := strings.Index(rest, "\":"); j >= 0 {
			out = append(out, rest[:j])
		}
	}
	return out
}

// p27Fwd makes forwarding headers; addr is the address they carry ("" when
// they carry none or the form is outside what the rule decides: any=true).
func p27Fwd(r *rand.Rand, k int) (h http.Header, addr, kind string, any bool) {
	h = http.Header{}
	a4 := fmt.Sprintf("198.51.100.%d", 10+k%200)
	a6 := fmt.Sprintf("2001:db8:f::%x", 0x10+k)
	q := func(s string) string { return `"` + s + `"` }
	switch r.Intn(15) {
	case 0:
		return h, "", "none", false
	case 1:
		h.Set("Forwarded", "for="+a4)
		return h, a4, "fwd4", false
	case 2:
		h.Set("Forwarded", Pick(r, []string{"For=", "FOR="})+a4+Pick(r, []string{"; proto=https", ";by=203.0.113.43;host=x.test", ""}))
		return h, a4, "fwd4 params", false
	case 3:
		h.Set("Forwarded", "proto=https;for="+q(a4+":4711"))
		return h, a4 + ":4711", "fwd4 port", false
	case 4:
		h.Set("Forwarded", "for="+q("["+a6+"]:4711"))
		return h, "[" + a6 + "]:4711", "fwd6 port", false
	case 5:
		h.Set("Forwarded", "for="+q("["+a6+"]"))
		return h, "[" + a6 + "]", "fwd6", false
	case 6:
		h.Set("X-Forwarded-For", a4)
		return h, a4, "xff4", false
	case 7:
		h.Set("X-Forwarded-For", a6)
		return h, a6, "xff6", false
	case 8:
		h.Set("X-Forwarded-For", "192.0.2.99")
		h.Set("Forwarded", "for="+a4)
		return h, a4, "both", false
	case 9:
		h.Set("Forwarded", "proto=https;host=x.test")
		return h, "", "fwd without for", false
	case 10:
		h.Set("X-Forwarded-Proto", "https")
		h.Set("X-Forwarded-Host", "x.test")
		return h, "", "xff without for", false
	case 11:
		h.Set("X-Real-Ip", a4)
		h.Set("Client-Ip", a4)
		h.Set("True-Client-Ip", a4)
		h.Set("Cf-Connecting-Ip", a4)
		return h, "", "other headers", false
	case 12:
		h.Set("Forwarded", "for=_hidden"+fmt.Sprint(k))
		return h, "_hidden" + fmt.Sprint(k), "obfuscated", false
	case 13:
		h.Set("Forwarded", Pick(r, []string{"for", ";;;", "for=", "=", "for=\"" + a4, "for " + a4, "for=" + a4 + ", for=192.0.2.1"}))
		return h, "", "malformed", true
	default:
		h.Add("X-Forwarded-For", a4)
		h.Add("X-Forwarded-For", "192.0.2.98")
		return h, "", "two headers", true
	}
}

func hostOf(addr string) string {
	if h, _, err := net.SplitHostPort(addr); err == nil {
		return h
	}
	return addr
}

func p27Web(t *T) {
	r := t.Rng
	trust, names := p27Trust(r)
	w := NewWorld(t, "memory")
	w.Debug = true
	w.AddUser("alice", false)
	pats := Subset(r, []string{"good.example", "*.good.example", "app.test:8443"}, 0.5)
	set := func(c *soju.Config) {
		c.AcceptProxyIPs = c.AcceptProxyIPs[:0:0]
		for _, n := range trust {
			c.AcceptProxyIPs = append(c.AcceptProxyIPs, n)
		}
		c.HTTPOrigins = pats
	}
	w.Cfg = set
	w.Start()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	ln2, err := net.Listen("tcp", "127.0.1.9:0")
	Must(err)
	hs := &http.Server{Handler: w.Srv}
	go hs.Serve(ln)
	go hs.Serve(ln2)
	t.Cleanup(func() { hs.Close() })

	type conn struct {
		cl   *Client
		nick string
		want string // host; "" = not decided
	}
	var open []conn
	for k := 0; k < 6; k++ {
		if r.Intn(4) == 0 { // another list from now on
			trust, names = p27Trust(r)
			w.Srv.SetConfig(w.Config())
		}
		src := Pick(r, p27Sources)
		hdr, addr, kind, any := p27Fwd(r, k+10*r.Intn(20))
		host := Pick(r, []net.Listener{ln, ln2}).Addr().String()
		origin := ""
		allowed := true
		if r.Intn(2) == 0 {
			origin = Pick(r, []string{"https://good.example", "https://x.good.example", "https://app.test:8443", "https://app.test", "https://evil.example", "https://good.example.evil.test", "null", "http://" + host, "https://evil.example/good.example", "file://", "https://good.example@evil.example", "http://[::1", "evilgood.example", "https://evil.example?" + host})
			allowed = false
			if u, err := url.Parse(origin); err == nil {
				allowed = strings.EqualFold(u.Host, host)
				for _, p := range pats {
					if m, _ := filepath.Match(strings.ToLower(p), strings.ToLower(u.Host)); m {
						allowed = true
					}
				}
			}
			hdr.Set("Origin", origin)
		}
		logLen := len(w.Log.String())
		downs := w.Srv.Stats().Downstreams
		trusted := trust.has(src)
		what := fmt.Sprintf("connection from %s (trusted proxies %q) with %v", src, names, hdr)
		ws, resp, err := DialWS("ws://"+host+"/socket", func() (net.Conn, error) { return p27Dial(src, host) }, hdr)
		if !allowed {
			if err == nil {
				Failf("%s, allowed origins %q: the origin was accepted", what, pats)
			}
			if resp != nil && resp.StatusCode < 400 {
				Failf("%s, allowed origins %q: status %d", what, pats, resp.StatusCode)
			}
			if n := w.Srv.Stats().Downstreams; n != downs {
				Failf("%s: a session was opened for a refused origin", what)
			}
			t.State("origin refused, patterns %d", len(pats))
			t.Count("origins refused", 1)
			continue
		}
		if err != nil {
			Failf("%s, origin %q, allowed origins %q: refused: %v", what, origin, pats, err)
		}
		w.ExtDial = func(bool) (net.Conn, error) { return ws, nil }
		nick := fmt.Sprintf("nick%d", k)
		cl := w.Connect(ClientOpts{User: "alice", Nick: nick})
		shown := p27Shown(cl, nick)
		logged := p27Logged(w.Log.String()[logLen:], "alice")
		if len(logged) == 0 {
			panic(fmt.Errorf("no log line of the connection: %s", w.Log.String()[logLen:]))
		}
		switch {
		case any && trusted:
		case trusted && addr != "":
			if shown != hostOf(addr) {
				Failf("%s: shown as %q, the proxy forwarded %q", what, shown, addr)
			}
			for _, a := range logged {
				if a != addr && hostOf(a) != hostOf(addr) {
					Failf("%s: logged as %q, the proxy forwarded %q", what, a, addr)
				}
			}
		default:
			if shown != src {
				Failf("%s: shown as %q, the connection came from %s", what, shown, src)
			}
			for _, a := range logged {
				if hostOf(a) != src {
					Failf("%s: logged as %q, the connection came from %s", what, a, src)
				}
			}
			for _, forged := range []string{"198.51.100.", "2001:db8:f:", "_hidden"} {
				if l := w.Log.String()[logLen:]; strings.Contains(l, forged) {
					Failf("%s: the forged address is logged: %q", what, l)
				}
			}
		}
		if !(any && trusted) {
			open = append(open, conn{cl, nick, shown})
		}
		t.State("web trusted %v %s", trusted, kind)
		t.Count("web addresses decided", 1)
	}
	for _, c := range open {
		if s := p27Shown(c.cl, c.nick); s != c.want {
			Failf("%s is now shown as %q, was %q", c.nick, s, c.want)
		}
	}
	w.CheckNoPanic()
}

// p27Header makes a PROXY header for the claimed client address.
func p27Header(r *rand.Rand, k int) (b []byte, addr, kind string, any bool) {
	a4 := fmt.Sprintf("198.51.100.%d", 10+k)
	a6 := fmt.Sprintf("2001:db8:f::%x", 0x10+k)
	v2 := func(cmd, fam byte, payload []byte) []byte {
		b := append([]byte("\r\n\r\n\x00\r\nQUIT\n"), 0x20|cmd, fam, 0, 0)
		binary.BigEndian.PutUint16(b[14:], uint16(len(payload)))
		return append(b, payload...)
	}
	p4 := append(append(append([]byte{}, net.ParseIP(a4).To4()...), 203, 0, 113, 1), 0x10, 0x20, 0x1a, 0x0b)
	p6 := append(append(append([]byte{}, net.ParseIP(a6).To16()...), net.ParseIP("2001:db8::1").To16()...), 0x10, 0x20, 0x1a, 0x0b)
	switch r.Intn(12) {
	case 0, 1:
		return nil, "", "none", false
	case 2:
		return []byte("PROXY TCP4 " + a4 + " 203.0.113.1 4128 6667\r\n"), a4, "v1 tcp4", false
	case 3:
		return []byte("PROXY TCP6 " + a6 + " 2001:db8::1 4128 6667\r\n"), a6, "v1 tcp6", false
	case 4:
		return []byte("PROXY UNKNOWN\r\n"), "", "v1 unknown", false
	case 5:
		return v2(1, 0x11, p4), a4, "v2 tcp4", false
	case 6:
		return v2(1, 0x21, p6), a6, "v2 tcp6", false
	case 7:
		return v2(0, 0x00, nil), "", "v2 local", false
	case 8: // with trailing TLV data
		return v2(1, 0x11, append(p4, 0x04, 0x00, 0x03, 'a', 'b', 'c')), a4, "v2 tlv", false
	case 9:
		return []byte(Pick(r, []string{"PROXY TCP4 " + a4 + "\r\n", "PROXY TCP4 x y 1 2\r\n", "PROXY TCP4 " + a4 + " 203.0.113.1 99999 6667\r\n", "PROXY TCP4 " + a6 + " 2001:db8::1 1 2\r\n", "proxy tcp4 " + a4 + " 203.0.113.1 4128 6667\r\n", "PROXY\r\n"})), "", "v1 bad", true
	case 10:
		return Pick(r, [][]byte{v2(7, 0x11, p4), v2(1, 0x11, p4[:5]), v2(1, 0xff, p4)}), "", "v2 bad", true
	default:
		return []byte("PROXY TCP4 " + a4 + " 203.0.113.1 4128 6667\r\nPROXY TCP4 192.0.2.77 203.0.113.1 4128 6667\r\n"), a4, "twice", false
	}
}

func p27Proxy(t *T) {
	r := t.Rng
	p := NewProc(t, "memory")
	p.Debug = true
	p.AddUser("alice", false)
	port := FreePort()
	p.Listen = []string{fmt.Sprintf("irc+insecure://0.0.0.0:%d", port)}
	trust, names := p27Trust(r)
	extra := func() {
		p.Extra = nil
		if len(names) > 0 {
			p.Extra = []string{"accept-proxy-ip " + strings.Join(names, " ")}
		}
	}
	extra()
	p.Start()
	reload := func() {
		trust, names = p27Trust(r)
		extra()
		p.Reload()
	}
	Until("the TCP listener accepts", func() bool {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			c.Close()
		}
		return err == nil
	})
	// the log lines of one connection end before those of the next start
	settled := func(n int) {
		Until("earlier connections are closed", func() bool {
			c := 0
			for _, l := range strings.Split(p.Log.String(), "\n") {
				if strings.Contains(l, "downstream \"") && strings.HasSuffix(l, "connection closed") {
					c++
				}
			}
			return c >= n
		})
	}
	for k := 0; k < 8; k++ {
		settled(2 + k)
		if r.Intn(5) == 0 {
			reload()
		}
		src := Pick(r, p27Sources)
		unix := r.Intn(7) == 0
		head, addr, kind, any := p27Header(r, k+20*r.Intn(10))
		var nc net.Conn
		var err error
		if unix {
			nc, err = net.Dial("unix", p.SockPath())
			src = ""
		} else {
			nc, err = p27Dial(src, fmt.Sprintf("127.0.0.1:%d", port))
		}
		Must(err)
		trusted := !unix && trust.has(src)
		what := fmt.Sprintf("connection from %q (trusted proxies %q) with header %q", src, names, head)
		logLen := len(p.Log.String())
		// version 1 headers must be sent in one piece
		if n := len(head); n > 2 && r.Intn(3) == 0 && strings.HasPrefix(kind, "v2") {
			cut := 1 + r.Intn(n-1)
			nc.Write(head[:cut])
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			nc.Write(head[cut:])
		} else {
			nc.Write(head)
		}
		p.W.ExtDial = func(bool) (net.Conn, error) { return nc, nil }
		nick := fmt.Sprintf("nick%d", k)
		cl := p.W.Connect(ClientOpts{User: "alice", Nick: nick, NoWait: true})
		served := cl.Wait(0, "001 or the connection closed", func(l Line) bool { return l.Command == "001" }) >= 0
		if !served {
			if !any && (trusted || len(head) == 0) {
				Failf("%s: the connection was closed: %s", what, p.Log.String()[logLen:])
			}
			t.State("proxy trusted %v %s closed", trusted, kind)
		} else {
			shown := p27Shown(cl, nick)
			if trusted && !any && addr != "" {
				if !net.ParseIP(shown).Equal(net.ParseIP(addr)) {
					Failf("%s: shown as %q, the proxy forwarded %q", what, shown, addr)
				}
				for _, a := range p27Logged(p.Log.String()[logLen:], nick) {
					if ip := net.ParseIP(hostOf(a)); ip == nil || !ip.Equal(net.ParseIP(addr)) {
						Failf("%s: logged as %q, the proxy forwarded %q", what, a, addr)
					}
				}
			} else if trusted && any {
				if strings.Contains(shown, "192.0.2.") {
					Failf("%s: shown as %q", what, shown)
				}
			} else {
				if unix {
					if shown != "" && shown != "@" {
						Failf("%s: shown as %q", what, shown)
					}
				} else if shown != src {
					Failf("%s: shown as %q, the connection came from %s", what, shown, src)
				}
				for _, a := range p27Logged(p.Log.String()[logLen:], nick) {
					if !unix && hostOf(a) != src {
						Failf("%s: logged as %q, the connection came from %s", what, a, src)
					}
					if unix && a != "" && a != "@" {
						Failf("%s: logged as %q", what, a)
					}
				}
			}
			t.State("proxy trusted %v unix %v %s served", trusted, unix, kind)
		}
		cl.CloseWait()
		t.Count("PROXY connections decided", 1)
	}
	p.Term()
}
