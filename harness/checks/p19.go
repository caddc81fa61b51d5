package checks

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/database"
	"github.com/coder/websocket"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P19", Level: "stress_oracle",
		Rule:   "one execution = one attacker account (sometimes an administrator) and two others, each with a network; several attacker connections (unauthenticated, authenticated, bound or not, administration socket, WebSocket) send grammar-based, mutated and raw hostile lines; between bursts the monitor requires that the bouncer contained no internal panic, that the attacker's other client and the other users are answered, receive messages of their networks, reach their networks, can use the service, and that new logins work; at the end the bouncer must shut down. A situation is (connection state, command, shape of arguments)",
		Assume: nil,
		Cases: func(e *Env) []Case {
			l := Repeat(e, "client", e.N(700, 12000), p19Client)
			l = append(l, Repeat(e, "unauth", e.N(150, 3000), p19Unauth)...)
			l = append(l, Repeat(e, "admin", e.N(120, 2500), p19Admin)...)
			l = append(l, Repeat(e, "web", e.N(60, 1200), p19Web)...)
			l = append(l, Repeat(e, "endless", e.N(3, 12), p19Endless)...)
			return append(l, Repeat(e, "sasl", e.N(200, 4000), p19SASL)...)
		},
	})
}

// busyUpstream answers the queries a real server answers, choosing among the
// possible answers at random.
func busyUpstream(t *T, name string) *Upstream {
	r := NewLockedRand(t.Rng.Int63())
	up := NewUpstream(t, name)
	up.Echo = r.Intn(2) == 0
	up.Caps = Pick(t.Rng, upCapSets)
	if r.Intn(2) == 0 {
		up.Caps = append(append([]string{}, up.Caps...), "sasl=PLAIN,EXTERNAL", "draft/account-registration=before-connect,email-required")
	}
	if r.Intn(2) == 0 {
		up.ISupport = append(up.ISupport, "MONITOR=20")
	}
	if r.Intn(2) == 0 {
		up.ISupport = append(up.ISupport, "WHOX", "BOT=B")
	}
	up.Members = func(ch string) []string { return []string{"@op", "+voiced", "plain", "bob"} }
	up.OnLine = func(c *UpConn, l Line) bool {
		nick := c.CurNick()
		s := ":" + up.Host
		switch l.Command {
		case "LIST":
			c.Sendf("%s 321 %s Channel :Users", s, nick)
			c.Sendf("%s 322 %s #a 3 :topic", s, nick)
			c.Sendf("%s 323 %s :End", s, nick)
		case "WHO":
			c.Sendf("%s 352 %s %s u h srv op H@ :0 real", s, nick, "#a")
			c.Sendf("%s 315 %s %s :End", s, nick, nz(l.P(0)))
		case "WHOIS":
			if r.Intn(3) == 0 {
				c.Sendf("%s 401 %s %s :No such nick", s, nick, nz(l.P(len(l.Params)-1)))
			}
			c.Sendf("%s 318 %s %s :End", s, nick, nz(l.P(len(l.Params)-1)))
		case "AUTHENTICATE":
			if !c.Registered() {
				return false
			}
			switch r.Intn(6) {
			case 0:
				c.Sendf("%s 904 %s :failed", s, nick)
			case 1:
				c.Sendf("%s 903 %s :ok", s, nick)
			case 2:
				c.Sendf("%s 906 %s :aborted", s, nick)
			case 3:
				c.Sendf("%s 421 %s AUTHENTICATE :Unknown command", s, nick)
			default:
				c.Send("AUTHENTICATE +")
			}
		case "REGISTER", "VERIFY":
			if r.Intn(2) == 0 {
				c.Sendf("%s FAIL %s X acc :no", s, l.Command)
			} else {
				c.Sendf("%s %s SUCCESS acc :ok", s, l.Command)
			}
		case "MONITOR":
			if l.P(0) == "+" {
				for _, n := range strings.Split(l.P(1), ",") {
					if n != "" && r.Intn(2) == 0 {
						c.Sendf("%s 730 %s %s!u@h", s, nick, n)
					} else {
						c.Sendf("%s 731 %s %s", s, nick, nz(n))
					}
				}
			}
		case "TOPIC":
			if len(l.Params) > 1 {
				c.Sendf(":%s TOPIC %s :%s", c.Prefix(), nz(l.P(0)), l.P(1))
			}
		case "KICK":
			c.Sendf("%s 482 %s %s :not operator", s, nick, nz(l.P(0)))
		default:
			return false
		}
		return true
	}
	return up.Start()
}

func nz(s string) string {
	if s == "" || strings.ContainsAny(s, " ") || s[0] == ':' {
		return "*"
	}
	return s
}

// LockedRand is a random source for use by several goroutines.
type LockedRand struct {
	mu sync.Mutex
	n  uint64
}

func NewLockedRand(seed int64) *LockedRand { return &LockedRand{n: uint64(seed)} }

func (l *LockedRand) Intn(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.n = l.n*6364136223846793005 + 1442695040888963407
	return int((l.n >> 33) % uint64(n))
}

type p19World struct {
	t       *T
	w       *World
	up      map[string]*Upstream
	victims map[string]*Client
	second  *Client // the attacker's other client
	seq     int
}

func newP19(t *T, admin bool) *p19World {
	r := t.Rng
	p := &p19World{t: t, up: map[string]*Upstream{}, victims: map[string]*Client{}}
	w := NewWorld(t, Pick(r, []string{"memory", "fs", "db"}))
	p.w = w
	mk := func(user string, admin bool) {
		u := w.AddUser(user, admin)
		up := busyUpstream(t, "net"+user)
		p.up[user] = up
		n := w.AddNetwork(u, "neta", up)
		w.AddChannel(n, "#a")
		if user == "mallory" {
			w.AddChannel(n, "#b", func(c *database.Channel) { c.Detached = true; c.ReattachOn = database.FilterHighlight })
			if r.Intn(2) == 0 {
				w.AddNetwork(u, "n1", nil, func(n *database.Network) { n.Addr = "irc+insecure://127.0.0.1:1"; n.Enabled = r.Intn(2) == 0 })
			}
		}
	}
	mk("mallory", admin)
	mk("vera", true)
	mk("walt", false)
	if admin {
		w.AddUser("carol", false)
	}
	w.Start()
	for _, u := range []string{"mallory", "vera", "walt"} {
		p.up[u].Ready(0)
	}
	for _, u := range []string{"vera", "walt"} {
		p.victims[u] = w.Connect(ClientOpts{User: u, Network: "neta", Caps: []string{"message-tags"}})
	}
	p.second = w.Connect(ClientOpts{User: "mallory", Caps: []string{"soju.im/bouncer-networks"}})
	return p
}

// served checks that everyone else is still served.
func (p *p19World) served(what string) {
	p.seq++
	p.w.CheckNoPanic()
	for _, u := range []string{"vera", "walt"} {
		c := p.victims[u]
		uc := p.up[u].Last()
		text := fmt.Sprintf("probe-%d-%s", p.seq, u)
		from, ufrom := c.Mark(), uc.Mark()
		uc.Sendf(":friend!f@h PRIVMSG %s :%s", uc.CurNick(), text)
		if c.Wait(from, text, func(l Line) bool { return l.Command == "PRIVMSG" && l.P(1) == text }) < 0 {
			Failf("%s: the connection of %s was closed", what, u)
		}
		c.Sendf("PRIVMSG friend :%s", text)
		if uc.Wait(ufrom, text, func(l Line) bool { return l.Command == "PRIVMSG" && l.P(1) == text }) < 0 {
			Failf("%s: the network connection of %s was closed", what, u)
		}
	}
	if p.second.TrySync() < 0 {
		Failf("%s: the attacker's other client was disconnected", what)
	}
	if out := p.second.Service("network status"); len(out) == 0 {
		Failf("%s: the service does not answer the attacker's other client", what)
	}
	p.t.Count("probes", 1)
}

func (p *p19World) finish(what string) {
	p.served(what)
	for _, u := range []string{"vera", "walt"} {
		c := p.w.Connect(ClientOpts{User: u, Network: "neta"})
		c.Peer.Close()
	}
	c := p.w.Connect(ClientOpts{User: "mallory"})
	c.Sync()
	c.Peer.Close()
	p.w.CheckNoPanic()
	p.w.Stop()
	p.t.Count("shutdowns", 1)
}

func (p *p19World) fuzzer() *fuzzer {
	f := newFuzzer(p.t.Rng, []string{"mallory", "op", "voiced", "plain", "bob", "friend"}, []string{"#a", "#b", "#c", "&d"}, []string{"mallory", "neta", "n1", "a1", "mallory/neta", "mallory@x"})
	return f
}

func argShape(line string) string {
	n := strings.Count(line, " ")
	if n > 6 {
		n = 6
	}
	return fmt.Sprintf("%d/%s", n, sizeClass(len(line)))
}

func p19Client(t *T) {
	r := t.Rng
	p := newP19(t, r.Intn(4) == 0)
	f := p.fuzzer()
	opts := []ClientOpts{
		{User: "mallory", Network: "neta", Caps: []string{"message-tags", "batch", "echo-message", "sasl", "draft/chathistory", "draft/read-marker", "soju.im/webpush", "soju.im/search"}},
		{User: "mallory", Network: "neta", Client: "dev"},
		{User: "mallory", Caps: []string{"soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "sasl", "message-tags"}},
	}
	var conns []*Client
	var used []ClientOpts
	for i := 0; i < 2; i++ {
		o := Pick(r, opts)
		conns = append(conns, p.w.Connect(o))
		used = append(used, o)
	}
	for burst := 0; burst < 6; burst++ {
		for i := 0; i < 25; i++ {
			k := r.Intn(len(conns))
			c := conns[k]
			line := f.clientLine()
			t.State("client %s %s %d", lineCmd(line), argShape(line), len(used[k].Caps))
			t.Count("lines", 1)
			c.Raw(line + "\r\n")
			if c.Closed() || r.Intn(12) == 0 {
				if !c.Closed() {
					if r.Intn(3) == 0 {
						c.TrySync()
					} else if r.Intn(4) == 0 {
						c.Peer.Close()
					}
				}
				if c.Closed() {
					o := Pick(r, opts)
					o.Network = "" // the network may be gone by now
					nc := p.w.Connect(o)
					conns[k], used[k] = nc, o
					t.Count("attacker-reconnects", 1)
				}
			}
		}
		for _, c := range conns {
			if r.Intn(2) == 0 {
				c.TrySync()
			}
		}
		// The attacker's network may disconnect in the middle of it
		if r.Intn(4) == 0 {
			if uc := p.up["mallory"].Newest(); uc != nil {
				uc.Peer.Close()
			}
		}
		p.served(fmt.Sprintf("after burst %d", burst))
	}
	p.finish("at the end")
}

func lineCmd(line string) string {
	for strings.HasPrefix(line, "@") || strings.HasPrefix(line, ":") {
		i := strings.IndexByte(line, ' ')
		if i < 0 {
			return "-"
		}
		line = strings.TrimLeft(line[i:], " ")
	}
	f := strings.SplitN(line, " ", 3)
	c := strings.ToUpper(f[0])
	if len(c) > 16 {
		return "-"
	}
	for _, b := range []byte(c) {
		if b < '0' || b > 'Z' {
			return "-"
		}
	}
	if (c == "CAP" || c == "BOUNCER" || c == "CHATHISTORY" || c == "WEBPUSH" || c == "MONITOR") && len(f) > 1 && len(f[1]) < 16 {
		c += " " + f[1]
	}
	if i := strings.Index(line, "BouncerServ :"); c == "PRIVMSG" && i >= 0 {
		g := strings.SplitN(line[i+13:], " ", 3)
		if len(g) > 1 && len(g[0])+len(g[1]) < 30 {
			c += " svc " + g[0] + " " + g[1]
		}
	}
	return c
}

var preTemplates = []string{
	"CAP LS 302", "CAP LS", "CAP REQ :sasl", "CAP REQ :sasl", "CAP REQ {caps}", "CAP END", "CAP LIST",
	"AUTHENTICATE PLAIN", "AUTHENTICATE PLAIN", "AUTHENTICATE {mech}", "AUTHENTICATE {b64}", "AUTHENTICATE {b64}", "AUTHENTICATE GOOD", "AUTHENTICATE GOOD",
	"PASS pw-mallory", "PASS mallory:pw-mallory", "PASS {word}", "PASS mallory/neta:pw-mallory",
	"NICK mallory", "NICK {nick}", "USER mallory 0 * :x", "USER mallory/neta 0 * :x", "USER mallory/neta@dev 0 * :x", "USER {nick} 0 * {text}",
	"BOUNCER BIND {netid}", "BOUNCER BIND", "BOUNCER {word}", "AWAY {text}", "PING {word}", "JOIN #a", "PRIVMSG {target} {text}", "QUIT {text}",
}

func p19Unauth(t *T) {
	r := t.Rng
	p := newP19(t, false)
	f := p.fuzzer()
	for burst := 0; burst < 4; burst++ {
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			c := p.w.Dial(fmt.Sprintf("pre%d-%d", burst, k))
			n := 3 + r.Intn(20)
			var lines []string
			for i := 0; i < n; i++ {
				line := f.expand(Pick(r, preTemplates), 0.1)
				if r.Intn(25) == 0 {
					line = f.clientLine()
				}
				line = strings.Replace(line, "GOOD", B64("\x00mallory\x00pw-mallory"), 1)
				lines = append(lines, line)
				t.Count("lines", 1)
				t.State("unauth %s %s", lineCmd(line), argShape(line))
			}
			frag := r.Intn(2) == 0
			cut := r.Intn(50) + 1
			end := r.Intn(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				data := strings.Join(lines, "\r\n") + "\r\n"
				if frag { // arbitrary fragments
					for len(data) > 0 {
						n := cut
						if n > len(data) {
							n = len(data)
						}
						if c.Raw(data[:n]) != nil {
							break
						}
						data = data[n:]
					}
				} else {
					c.Raw(data)
				}
				switch end {
				case 0:
					c.Peer.Close()
				case 1:
					c.Raw("QUIT\r\n")
					time.Sleep(5 * time.Millisecond)
					c.Peer.Close()
				}
			}()
		}
		wg.Wait()
		p.served(fmt.Sprintf("after burst %d of unauthenticated connections", burst))
	}
	p.finish("at the end")
}

func p19Admin(t *T) {
	r := t.Rng
	p := newP19(t, false)
	f := p.fuzzer()
	adm := append([]string{
		"user create -username {n} -password pw", "user create -username {word} -password {word}", "user create -username {n}", "user create -username {n} -disable-password -admin {bool} -nick {nick}",
		"user update {n} -password x", "user update {n} -enabled {bool}", "user update {n} -max-networks {num}", "user delete {n}", "user delete {n} {word}", "user run {n} network status", "user run {n} {word} {word}", "user run mallory network create -addr {addr} -name {n}", "user run nobody help", "user status", "user status {word}",
		"server notice {text}", "server debug true", "server debug false", "server debug {word}",
	}, svcTemplates...)
	c := p.w.DialAdmin("adm")
	for burst := 0; burst < 4; burst++ {
		for i := 0; i < 20; i++ {
			var line string
			switch r.Intn(12) {
			case 0:
				line = f.garbage()
			case 1:
				line = f.clientLine()
			case 2:
				line = f.expand("BOUNCERSERV {word} {word}", 0.5)
			default:
				cmd := f.expand(Pick(r, adm), 0.15)
				// keep the accounts of the others intact
				if strings.Contains(cmd, "vera") || strings.Contains(cmd, "walt") || (strings.Contains(cmd, "user ") && strings.Contains(cmd, "mallory") && !strings.Contains(cmd, "run")) {
					continue
				}
				line = "BOUNCERSERV :" + strings.Replace(cmd, " :", " ", 1)
			}
			t.State("admin %s %s", lineCmd(line), argShape(line))
			t.Count("lines", 1)
			if c.Closed() {
				c = p.w.DialAdmin("adm")
			}
			c.Raw(line + "\r\n")
		}
		if r.Intn(3) == 0 {
			c.Peer.Close()
		}
		p.served(fmt.Sprintf("after burst %d on the administration socket", burst))
		if _, ok := p.w.Admin("server status"); !ok {
			Failf("the administration socket no longer answers")
		}
	}
	p.finish("at the end")
}

func p19Web(t *T) {
	r := t.Rng
	p := newP19(t, false)
	f := p.fuzzer()
	hs := httptest.NewServer(p.w.Srv)
	defer hs.Close()
	addr := strings.TrimPrefix(hs.URL, "http://")
	for burst := 0; burst < 3; burst++ {
		for k := 0; k < 4; k++ {
			switch r.Intn(4) {
			case 0: // raw bytes to the HTTP listener
				nc, err := net.Dial("tcp", addr)
				Must(err)
				nc.Write([]byte(Pick(r, []string{"GET /socket HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n", "GET /socket HTTP/1.1\r\nHost: x\r\n\r\n", "POST /uploads HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nab", f.garbage() + "\r\n\r\n", "GET " + strings.ReplaceAll(f.word(), " ", "_") + " HTTP/1.1\r\nHost: x\r\nX-Forwarded-For: " + f.word() + "\r\nForwarded: " + f.word() + "\r\n\r\n"})))
				nc.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
				io.Copy(io.Discard, nc)
				nc.Close()
				t.Count("http-raw", 1)
			default:
				ctx, cancel := context.WithTimeout(context.Background(), Watchdog)
				ws, _, err := websocket.Dial(ctx, "ws://"+addr+"/socket", &websocket.DialOptions{Subprotocols: Pick(r, [][]string{nil, {"text.ircv3.net"}, {"binary.ircv3.net"}, {"x"}})})
				if err != nil {
					cancel()
					t.Count("ws-refused", 1)
					continue
				}
				ws.SetReadLimit(1 << 20)
				go func() {
					for {
						if _, _, err := ws.Read(ctx); err != nil {
							return
						}
					}
				}()
				if r.Intn(3) > 0 {
					for _, l := range []string{"PASS pw-mallory", "NICK mallory", "USER mallory/neta 0 * :x"} {
						ws.Write(ctx, websocket.MessageText, []byte(l))
					}
				}
				for i := 0; i < 15; i++ {
					line := f.clientLine()
					if r.Intn(5) == 0 {
						line += Pick(r, []string{"\r\n", "\n", "\r\nPING x\r\n", "\x00"})
					}
					typ := websocket.MessageText
					if r.Intn(3) == 0 {
						typ = websocket.MessageBinary
					}
					t.Count("lines", 1)
					t.State("web %s %s", lineCmd(line), argShape(line))
					if ws.Write(ctx, typ, []byte(line)) != nil {
						break
					}
				}
				if r.Intn(2) == 0 {
					ws.Close(websocket.StatusNormalClosure, "")
				} else {
					ws.CloseNow()
				}
				cancel()
			}
		}
		p.served(fmt.Sprintf("after burst %d of WebSocket connections", burst))
	}
	resp, err := http.Get(hs.URL + "/")
	if err == nil {
		resp.Body.Close()
	}
	p.finish("at the end")
}

// endless sends bytes which never end a line: the peer must not be allowed to
// make the bouncer keep all of them.
func endless(t *T, p *Peer, head string) {
	const total = 96 << 20
	chunk := []byte(strings.Repeat("x", 1<<16))
	var before, after runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&before)
	p.Raw(head)
	sent := 0
	for sent < total {
		if p.Closed() || p.Raw(string(chunk)) != nil {
			t.Count("endless-closed", 1)
			return
		}
		sent += len(chunk)
	}
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.ReadMemStats(&after)
		if after.HeapAlloc < before.HeapAlloc+total/2 {
			t.Count("endless-dropped", 1)
			return
		}
		time.Sleep(300 * time.Millisecond)
	}
	Failf("%s: the bouncer keeps buffering an endless line: %d MiB sent, heap grew from %d to %d MiB", p.Name, total>>20, before.HeapAlloc>>20, after.HeapAlloc>>20)
}

func p19Endless(t *T) {
	p := newP19(t, false)
	c := p.w.Dial("endless")
	endless(t, c.Peer, Pick(t.Rng, []string{"", "NICK ", "@", "PASS :"}))
	p.served("after an endless line of an unauthenticated client")
	c = p.w.Connect(ClientOpts{User: "mallory", Network: "neta"})
	endless(t, c.Peer, Pick(t.Rng, []string{"", "PRIVMSG #a :", "@a="}))
	p.finish("after an endless line of an authenticated client")
}

// p19SASL mixes the authentication exchanges clients may start after having
// connected with every possible answer of the network.
func p19SASL(t *T) {
	r := t.Rng
	lr := NewLockedRand(r.Int63())
	p := &p19World{t: t, up: map[string]*Upstream{}, victims: map[string]*Client{}}
	w := NewWorld(t, "memory")
	p.w = w
	var acct []string
	for _, u := range []string{"mallory", "vera", "walt"} {
		rec := w.AddUser(u, u == "vera")
		up := NewUpstream(t, "net"+u)
		if u == "mallory" {
			up.Caps = append([]string{"sasl=" + Pick(r, []string{"PLAIN", "PLAIN,EXTERNAL", "EXTERNAL", ""}), "draft/account-registration"}, Pick(r, upCapSets)...)
			up.OnLine = func(c *UpConn, l Line) bool {
				if !c.Registered() {
					return false
				}
				nick := c.CurNick()
				switch l.Command {
				case "AUTHENTICATE":
					for i := lr.Intn(3); i >= 0; i-- {
						switch lr.Intn(9) {
						case 0:
							c.Sendf(":s 903 %s :ok", nick)
						case 1:
							c.Sendf(":s 904 %s :failed", nick)
						case 2:
							c.Sendf(":s 906 %s :aborted", nick)
						case 3:
							c.Sendf(":s 900 %s %s acc :logged in", nick, c.Prefix())
						case 4:
							c.Sendf(":s 421 %s AUTHENTICATE :Unknown", nick)
						case 5:
							c.Sendf(":s 908 %s PLAIN :mechs", nick)
						default:
							c.Send("AUTHENTICATE +")
						}
					}
				case "REGISTER", "VERIFY":
					switch lr.Intn(5) {
					case 0:
						c.Sendf(":s FAIL %s X acc :no", l.Command)
					case 1:
						c.Sendf(":s %s SUCCESS acc :ok", l.Command)
					case 2:
						c.Sendf(":s %s", l.Command)
					case 3:
						c.Sendf(":s 421 %s %s :Unknown", nick, l.Command)
					}
				default:
					return false
				}
				return true
			}
		}
		up.Start()
		p.up[u] = up
		w.AddNetwork(rec, "neta", up)
	}
	w.Start()
	for _, u := range []string{"mallory", "vera", "walt"} {
		p.up[u].Ready(0)
	}
	for _, u := range []string{"vera", "walt"} {
		p.victims[u] = w.Connect(ClientOpts{User: u, Network: "neta"})
	}
	p.second = w.Connect(ClientOpts{User: "mallory"})
	var conns []*Client
	for i := 0; i < 3; i++ {
		conns = append(conns, w.Connect(ClientOpts{User: "mallory", Network: "neta", Client: fmt.Sprint(i), Caps: []string{"sasl", "draft/account-registration"}}))
	}
	tm := []string{"AUTHENTICATE PLAIN", "AUTHENTICATE PLAIN", "AUTHENTICATE ANONYMOUS", "AUTHENTICATE EXTERNAL", "AUTHENTICATE *", "AUTHENTICATE GOOD", "AUTHENTICATE GOOD", "AUTHENTICATE {b64}", "AUTHENTICATE OAUTHBEARER", "REGISTER acc * pw", "REGISTER * * pw", "REGISTER acc", "VERIFY acc 1", "VERIFY", "REGISTER", "PRIVMSG NickServ :IDENTIFY acc pw", "PRIVMSG NickServ :SET PASSWORD", "PRIVMSG NickServ :REGISTER", "PRIVMSG NickServ :IDENTIFY", "CAP REQ :-sasl", "CAP REQ sasl", "QUIT"}
	f := p.fuzzer()
	for burst := 0; burst < 5; burst++ {
		for i := 0; i < 14; i++ {
			k := r.Intn(len(conns))
			line := f.expand(Pick(r, tm), 0.05)
			if strings.HasPrefix(line, "QUIT") && r.Intn(3) > 0 {
				continue
			}
			line = strings.Replace(line, "GOOD", B64("\x00acc\x00pw"), 1)
			acct = append(acct, lineCmd(line))
			conns[k].Raw(line + "\r\n")
			t.Count("lines", 1)
			if r.Intn(3) == 0 {
				conns[k].TrySync()
			}
			if conns[k].Closed() {
				conns[k] = w.Connect(ClientOpts{User: "mallory", Network: "neta", Caps: []string{"sasl", "draft/account-registration"}})
			}
			if n := len(acct); n >= 3 {
				t.State("sasl %s", strings.Join(acct[n-3:], ","))
			}
		}
		if r.Intn(3) == 0 {
			p.up["mallory"].Newest().Peer.Close()
		}
		p.served(fmt.Sprintf("after burst %d of authentication exchanges", burst))
	}
	p.finish("at the end")
}

var _ = soju.Config{}
