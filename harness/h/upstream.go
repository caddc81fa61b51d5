package h

import (
	"crypto/tls"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gopkg.in/irc.v4"
)

var upFence int64

// Upstream is a scripted IRC network server.
type Upstream struct {
	T    *T
	Name string
	Addr string // irc+insecure://127.0.0.1:port
	ln   net.Listener
	TLS  *tls.Config

	// Behaviour; set before the bouncer connects.
	Caps      []string // e.g. "echo-message", "sasl=PLAIN"
	ISupport  []string // besides the defaults
	NoSafe    bool     // do not advertise SAFERATE
	NoISup    bool
	CapLS     func(c *UpConn) []string // replaces the answer to CAP LS
	Attempts  atomic.Int64             // accepted connections, before any TLS handshake
	PeerCert  func(i int, der []byte)  // told the client certificate of connection i
	Welcome   func(c *UpConn)          // replaces the default welcome burst
	OnLine    func(c *UpConn, l Line) bool
	OnConn    func(c *UpConn)
	AutoJoin  bool // answer JOIN (default true)
	Host      string
	NoAutoReg bool        // do not answer registration at all
	Mute      atomic.Bool // the same, can be changed at any time
	Members   func(channel string) []string
	ChanKey   map[string]string
	Echo      bool // echo PRIVMSG/NOTICE/TAGMSG when echo-message enabled

	mu    sync.Mutex
	cond  *sync.Cond
	conns []*UpConn
}

// UpConn is one connection of the bouncer to the network.
type UpConn struct {
	*Peer
	Up       *Upstream
	Index    int
	mu       sync.Mutex
	Nick     string
	User     string
	Real     string
	Pass     string
	caps     map[string]bool
	capNeg   bool
	reg      bool
	welcomed bool
	gotNick  bool
	gotUser  bool
	joined   map[string]string // lower-case name -> key
}

// NewUpstream starts a network server listening on loopback.
func NewUpstream(t *T, name string) *Upstream {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	u := &Upstream{T: t, Name: name, ln: ln, AutoJoin: true, Host: name + ".example"}
	u.Addr = "irc+insecure://" + ln.Addr().String()
	u.cond = sync.NewCond(&u.mu)
	t.CleanupLast(u.Stop)
	return u
}

// Start begins accepting connections.
func (u *Upstream) Start() *Upstream {
	go func() {
		for {
			c, err := u.ln.Accept()
			if err != nil {
				return
			}
			go u.serve(c)
		}
	}()
	return u
}

func (u *Upstream) HostPort() string { return u.ln.Addr().String() }

func (u *Upstream) Stop() {
	u.ln.Close()
	u.mu.Lock()
	conns := append([]*UpConn(nil), u.conns...)
	u.mu.Unlock()
	for _, c := range conns {
		c.Peer.Close()
	}
}

func (u *Upstream) serve(nc net.Conn) {
	u.Attempts.Add(1)
	var peerCert []byte
	if u.TLS != nil {
		tc := tls.Server(nc, u.TLS)
		tc.SetDeadline(time.Now().Add(Watchdog))
		if err := tc.Handshake(); err != nil {
			u.T.Logf("upstream %s: TLS handshake: %v", u.Name, err)
			nc.Close()
			return
		}
		tc.SetDeadline(time.Time{})
		if l := tc.ConnectionState().PeerCertificates; len(l) > 0 {
			peerCert = l[0].Raw
		}
		nc = tc
	}
	uc := &UpConn{Up: u, caps: map[string]bool{}, joined: map[string]string{}}
	u.mu.Lock()
	uc.Index = len(u.conns)
	uc.Peer = newPeer(u.T, fmt.Sprintf("upstream %s#%d", u.Name, uc.Index), nc)
	uc.Peer.onLine = uc.handle
	u.conns = append(u.conns, uc)
	if u.PeerCert != nil {
		u.PeerCert(uc.Index, peerCert)
	}
	u.cond.Broadcast()
	u.mu.Unlock()
	if u.OnConn != nil {
		u.OnConn(uc)
	}
	uc.Peer.readLoop()
	nc.Close()
}

// Conn waits for the i-th connection of the bouncer.
func (u *Upstream) Conn(i int) *UpConn {
	start := time.Now()
	tm := time.AfterFunc(Watchdog, func() { u.mu.Lock(); u.cond.Broadcast(); u.mu.Unlock() })
	defer tm.Stop()
	u.mu.Lock()
	defer u.mu.Unlock()
	for len(u.conns) <= i {
		if time.Since(start) >= Watchdog {
			panic(Stuck{fmt.Sprintf("upstream %s: connection #%d never came", u.Name, i)})
		}
		u.cond.Wait()
	}
	return u.conns[i]
}

// NumConns returns how many connections were accepted.
func (u *Upstream) NumConns() int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return len(u.conns)
}

// Ready waits until connection i is registered and returns it.
func (u *Upstream) Ready(i int) *UpConn {
	c := u.Conn(i)
	c.Sync()
	return c
}

// Last returns the newest connection, registered.
func (u *Upstream) Last() *UpConn {
	n := u.NumConns()
	if n == 0 {
		n = 1
	}
	return u.Ready(n - 1)
}

func (c *UpConn) Registered() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.reg }

func (c *UpConn) CurNick() string { c.mu.Lock(); defer c.mu.Unlock(); return c.Nick }

func (c *UpConn) HasCap(name string) bool { c.mu.Lock(); defer c.mu.Unlock(); return c.caps[name] }

// DropCap forgets a capability the server withdraws.
func (c *UpConn) DropCap(name string) { c.mu.Lock(); defer c.mu.Unlock(); delete(c.caps, name) }

// Prefix returns the user's full prefix as the network sees it.
func (c *UpConn) Prefix() string { return c.CurNick() + "!user@host.example" }

// Sync waits until the bouncer has processed everything sent on this
// connection so far. On a connection that is not registered yet it first waits
// for the registration.
func (c *UpConn) Sync() {
	for start := time.Now(); !c.Registered(); {
		if c.Closed() {
			panic(Stuck{c.Peer.Name + ": closed before registration"})
		}
		if time.Since(start) > Watchdog {
			c.Dump()
			panic(Stuck{c.Peer.Name + ": never registered"})
		}
		time.Sleep(time.Millisecond)
	}
	if !c.TrySync() {
		c.Dump()
		panic(Stuck{c.Peer.Name + ": connection closed while waiting for PONG"})
	}
}

// TrySync is Sync returning false when the bouncer closed the connection.
func (c *UpConn) TrySync() bool {
	tok := fmt.Sprintf("fence-%d", atomic.AddInt64(&upFence, 1))
	from := c.Mark()
	c.Send("PING " + tok)
	return c.Wait(from, "PONG "+tok, func(l Line) bool {
		return l.Command == "PONG" && len(l.Params) > 0 && l.Params[len(l.Params)-1] == tok
	}) >= 0
}

func (c *UpConn) server() string { return ":" + c.Up.Host }

func (c *UpConn) handle(l Line) {
	if c.Up.OnLine != nil && c.Up.OnLine(c, l) {
		return
	}
	c.Default(l)
}

// Default is the behaviour of an ordinary IRC server.
func (c *UpConn) Default(l Line) {
	if (c.Up.NoAutoReg || c.Up.Mute.Load()) && !c.Registered() {
		return
	}
	srv := c.server()
	nick := c.CurNick()
	if nick == "" {
		nick = "*"
	}
	switch l.Command {
	case "CAP":
		switch strings.ToUpper(l.P(0)) {
		case "LS":
			c.mu.Lock()
			c.capNeg = true
			c.mu.Unlock()
			if c.Up.CapLS != nil {
				c.Send(c.Up.CapLS(c)...)
			} else {
				c.Sendf("%s CAP * LS :%s", srv, strings.Join(c.Up.Caps, " "))
			}
		case "REQ":
			if bad := c.unknownCaps(l.P(1)); len(bad) > 0 {
				c.Sendf("%s CAP %s NAK :%s", srv, nick, l.P(1))
				return
			}
			c.mu.Lock()
			for _, name := range strings.Fields(l.P(1)) {
				if strings.HasPrefix(name, "-") {
					delete(c.caps, name[1:])
				} else {
					c.caps[name] = true
				}
			}
			c.mu.Unlock()
			c.Sendf("%s CAP %s ACK :%s", srv, nick, l.P(1))
		case "END":
			c.mu.Lock()
			c.capNeg = false
			c.mu.Unlock()
			c.maybeWelcome()
		}
	case "PASS":
		c.mu.Lock()
		c.Pass = l.P(0)
		c.mu.Unlock()
	case "NICK":
		c.mu.Lock()
		old := c.Nick
		reg := c.reg
		c.Nick = l.P(0)
		c.gotNick = true
		c.mu.Unlock()
		if reg {
			c.Sendf(":%s!user@host.example NICK %s", old, l.P(0))
		} else {
			c.maybeWelcome()
		}
	case "USER":
		c.mu.Lock()
		c.User, c.Real = l.P(0), l.P(3)
		c.gotUser = true
		c.mu.Unlock()
		c.maybeWelcome()
	case "PING":
		c.Sendf("%s PONG %s :%s", srv, c.Up.Host, l.P(0))
	case "JOIN":
		if !c.Up.AutoJoin {
			return
		}
		keys := strings.Split(l.P(1), ",")
		for i, ch := range strings.Split(l.P(0), ",") {
			key := ""
			if i < len(keys) {
				key = keys[i]
			}
			c.DoJoin(ch, key)
		}
	case "PART":
		for _, ch := range strings.Split(l.P(0), ",") {
			c.mu.Lock()
			delete(c.joined, strings.ToLower(ch))
			c.mu.Unlock()
			c.Sendf(":%s PART %s", c.Prefix(), ch)
		}
	case "PRIVMSG", "NOTICE", "TAGMSG":
		if c.HasCap("echo-message") {
			tags := irc.Tags{}
			for k, v := range l.Tags {
				if k == "label" || strings.HasPrefix(k, "+") {
					tags[k] = v
				}
			}
			m := irc.Message{Tags: tags, Prefix: irc.ParsePrefix(c.Prefix()), Command: l.Command, Params: l.Params}
			c.Send(m.String())
		} else if lab, ok := l.Tags["label"]; ok && c.HasCap("labeled-response") {
			c.Sendf("@label=%s %s ACK", lab, srv)
		}
	case "AWAY":
		if l.P(0) == "" {
			c.Sendf("%s 305 %s :back", srv, nick)
		} else {
			c.Sendf("%s 306 %s :away", srv, nick)
		}
	case "MODE":
		if strings.HasPrefix(l.P(0), "#") && len(l.Params) == 1 {
			c.Sendf("%s 324 %s %s +nt", srv, nick, l.P(0))
		}
	case "QUIT":
		c.Sendf("ERROR :bye")
		c.Peer.Close()
	}
}

// unknownCaps returns the requested capabilities that were not offered.
func (c *UpConn) unknownCaps(req string) []string {
	var bad []string
	for _, name := range strings.Fields(req) {
		name = strings.TrimPrefix(name, "-")
		ok := false
		for _, offered := range c.Up.Caps {
			if o, _, _ := strings.Cut(offered, "="); o == name {
				ok = true
			}
		}
		c.mu.Lock()
		ok = ok || c.caps[name]
		c.mu.Unlock()
		if !ok {
			bad = append(bad, name)
		}
	}
	return bad
}

// DoJoin makes the bouncer's user join ch with a default member list.
func (c *UpConn) DoJoin(ch, key string) {
	c.mu.Lock()
	if want, ok := c.Up.ChanKey[strings.ToLower(ch)]; ok && want != key {
		c.mu.Unlock()
		c.Sendf("%s 475 %s %s :Cannot join channel (+k)", c.server(), c.CurNick(), ch)
		return
	}
	c.joined[strings.ToLower(ch)] = key
	c.mu.Unlock()
	srv, nick := c.server(), c.CurNick()
	lines := []string{fmt.Sprintf(":%s JOIN %s", c.Prefix(), ch)}
	if c.HasCap("extended-join") {
		lines[0] += " * :" + c.Real
	}
	members := []string{"@" + nick}
	if c.Up.Members != nil {
		members = append(members, c.Up.Members(ch)...)
	}
	lines = append(lines, fmt.Sprintf("%s 353 %s = %s :%s", srv, nick, ch, strings.Join(members, " ")))
	lines = append(lines, fmt.Sprintf("%s 366 %s %s :End of /NAMES list.", srv, nick, ch))
	c.Send(lines...)
}

func (c *UpConn) maybeWelcome() {
	c.mu.Lock()
	ok := c.gotNick && c.gotUser && !c.capNeg && !c.reg && !c.welcomed
	if ok {
		c.welcomed = true
	}
	c.mu.Unlock()
	if !ok {
		return
	}
	if c.Up.Welcome != nil {
		c.Up.Welcome(c)
	} else {
		c.SendWelcome()
	}
	// Only now: a fence must not be sent before the welcome
	c.SetRegistered()
}

// SetRegistered marks the connection registered (for custom welcomes).
func (c *UpConn) SetRegistered() { c.mu.Lock(); c.reg = true; c.mu.Unlock() }

// SetNick changes the network's idea of the user's nick.
func (c *UpConn) SetNick(n string) { c.mu.Lock(); c.Nick = n; c.mu.Unlock() }

// SendWelcome sends the default registration burst.
func (c *UpConn) SendWelcome() {
	srv, nick := c.server(), c.CurNick()
	lines := []string{
		fmt.Sprintf("%s 001 %s :Welcome %s", srv, nick, nick),
		fmt.Sprintf("%s 002 %s :Your host is %s", srv, nick, c.Up.Host),
		fmt.Sprintf("%s 003 %s :created", srv, nick),
		fmt.Sprintf("%s 004 %s %s fake ioswg ntkl", srv, nick, c.Up.Host),
	}
	if !c.Up.NoISup {
		toks := append([]string(nil), c.Up.ISupport...)
		if !c.Up.NoSafe {
			toks = append(toks, "soju.im/SAFERATE")
		}
		for len(toks) > 0 {
			n := 10
			if n > len(toks) {
				n = len(toks)
			}
			lines = append(lines, fmt.Sprintf("%s 005 %s %s :are supported", srv, nick, strings.Join(toks[:n], " ")))
			toks = toks[n:]
		}
	}
	lines = append(lines, fmt.Sprintf("%s 422 %s :No MOTD", srv, nick))
	c.Send(lines...)
}

// Got returns the lines received from the bouncer with the given command
// after position from.
func (p *Peer) Got(from int, cmds ...string) []Line {
	var out []Line
	for _, l := range p.Since(from) {
		for _, c := range cmds {
			if l.Command == c {
				out = append(out, l)
			}
		}
	}
	return out
}

// TrySyncReg waits for the registration and then synchronises; it returns
// false when the connection ended first.
func (c *UpConn) TrySyncReg() bool {
	for start := time.Now(); !c.Registered(); {
		if c.Closed() {
			return false
		}
		if time.Since(start) > Watchdog {
			c.Dump()
			panic(Stuck{c.Peer.Name + ": never registered"})
		}
		time.Sleep(time.Millisecond)
	}
	return c.TrySync()
}

// Newest returns the newest connection, or nil, without waiting for anything.
func (u *Upstream) Newest() *UpConn {
	u.mu.Lock()
	defer u.mu.Unlock()
	if len(u.conns) == 0 {
		return nil
	}
	return u.conns[len(u.conns)-1]
}

// SyncLive waits until there is a registered connection which answers n fences.
func (u *Upstream) SyncLive(n int) *UpConn {
	for start := time.Now(); ; {
		u.mu.Lock()
		conns := append([]*UpConn(nil), u.conns...)
		u.mu.Unlock()
	next:
		for i := len(conns) - 1; i >= 0; i-- {
			c := conns[i]
			if c.Closed() || !c.Registered() {
				continue
			}
			for k := 0; k < n; k++ {
				if !c.TrySync() {
					continue next
				}
			}
			return c
		}
		if time.Since(start) > Watchdog {
			for _, c := range conns {
				c.Dump()
			}
			panic(Stuck{u.Name + ": no working connection"})
		}
		time.Sleep(time.Millisecond)
	}
}

// CloseAll drops every connection.
func (u *Upstream) CloseAll() {
	u.mu.Lock()
	conns := append([]*UpConn(nil), u.conns...)
	u.mu.Unlock()
	for _, c := range conns {
		c.Peer.Close()
	}
}

// Live counts the registered connections which answer.
func (u *Upstream) Live() int {
	u.mu.Lock()
	conns := append([]*UpConn(nil), u.conns...)
	u.mu.Unlock()
	n := 0
	for _, c := range conns {
		if !c.Closed() && c.Registered() && c.TrySync() {
			n++
		}
	}
	return n
}
