package h

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"github.com/prometheus/client_golang/prometheus"
)

// LogBuf collects the server log.
type LogBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *LogBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	if len(l.b) < 8<<20 {
		l.b = append(l.b, p...)
	}
	l.mu.Unlock()
	return len(p), nil
}

func (l *LogBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b)
}

// FastAuth accepts users whose password is in the table; it avoids bcrypt in
// the checks that are not about authentication.
type FastAuth struct {
	mu sync.Mutex
	pw map[string]string
}

func (a *FastAuth) Set(user, pass string) { a.mu.Lock(); a.pw[user] = pass; a.mu.Unlock() }

func (a *FastAuth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
	a.mu.Lock()
	defer a.mu.Unlock()
	if p, ok := a.pw[username]; ok && p == password {
		return nil
	}
	return errors.New("bad password")
}

// World is one running bouncer.
type World struct {
	T      *T
	Srv    *soju.Server
	DB     database.Database
	DBPath string
	Store  string // "memory", "fs", "db"
	Log    *LogBuf
	Auth   *FastAuth
	Cfg    func(*soju.Config)
	WrapDB func(database.Database) database.Database
	Debug  bool
	Reg    *prometheus.Registry
	Setup  func(*soju.Server)
	LogSub string // directory, below the scratch one, holding the log directory
	// ExtDial connects to a bouncer running in another process.
	ExtDial func(admin bool) (net.Conn, error)

	ln      net.Listener
	adminLn net.Listener
	down    bool
	mu      sync.Mutex
	userID  map[string]int64
}

// NewWorld prepares a bouncer with a database file in the case's scratch
// directory; nothing runs until Start.
func NewWorld(t *T, store string) *World {
	w := &World{T: t, Store: store, Log: &LogBuf{}, Auth: &FastAuth{pw: map[string]string{}}, userID: map[string]int64{}}
	w.DBPath = filepath.Join(t.Dir(), fmt.Sprintf("soju-%p.db", w))
	w.openDB()
	t.Cleanup(func() { w.Stop() })
	return w
}

func (w *World) openDB() {
	db, err := database.Open("sqlite3", w.DBPath)
	Must(err)
	w.DB = db
}

// AddUser creates a user record (before Start).
func (w *World) AddUser(name string, admin bool, mod ...func(*database.User)) *database.User {
	u := database.NewUser(name)
	u.Admin = admin
	for _, f := range mod {
		f(u)
	}
	w.Auth.Set(name, "pw-"+name)
	Must(w.DB.StoreUser(context.Background(), u))
	w.userID[name] = u.ID
	return u
}

// AddNetwork creates a network record for user (before Start).
func (w *World) AddNetwork(u *database.User, name string, up *Upstream, mod ...func(*database.Network)) *database.Network {
	n := database.NewNetwork("")
	if up != nil {
		n.Addr = up.Addr
	}
	n.Name = name
	for _, f := range mod {
		f(n)
	}
	Must(w.DB.StoreNetwork(context.Background(), u.ID, n))
	return n
}

func (w *World) AddChannel(n *database.Network, name string, mod ...func(*database.Channel)) *database.Channel {
	ch := &database.Channel{Name: name}
	for _, f := range mod {
		f(ch)
	}
	Must(w.DB.StoreChannel(context.Background(), n.ID, ch))
	return ch
}

func (w *World) StoreDir() string { return filepath.Join(w.T.Dir(), w.LogSub, "logs") }

// Config builds the server configuration.
func (w *World) Config() *soju.Config {
	cfg := &soju.Config{
		Hostname:        "soju.test",
		MsgStoreDriver:  w.Store,
		MaxUserNetworks: -1,
		Auth:            &auth.Authenticator{Plain: w.Auth},
	}
	if w.Store == "fs" {
		cfg.MsgStorePath = w.StoreDir()
		os.MkdirAll(cfg.MsgStorePath, 0755)
	}
	if w.Cfg != nil {
		w.Cfg(cfg)
	}
	return cfg
}

// Start runs the bouncer.
func (w *World) Start() *World {
	if w.DB == nil {
		w.openDB()
	}
	db := w.DB
	if w.WrapDB != nil {
		db = w.WrapDB(db)
	}
	srv := soju.NewServer(db)
	srv.Logger = soju.NewLogger(w.Log, w.Debug)
	srv.SetConfig(w.Config())
	w.Reg = prometheus.NewRegistry()
	srv.MetricsRegistry = w.Reg
	if w.Setup != nil {
		w.Setup(srv)
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	aln, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	w.ln, w.adminLn = ln, aln
	Must(srv.Start())
	a, b := NewServing(ln), NewServing(aln)
	go srv.Serve(a, srv.Handle)
	go srv.Serve(b, srv.HandleAdmin)
	<-a.Ready
	<-b.Ready
	w.Srv = srv
	w.mu.Lock()
	w.down = false
	w.mu.Unlock()
	return w
}

// Stop shuts the bouncer down cleanly.
func (w *World) Stop() {
	w.mu.Lock()
	srv, down := w.Srv, w.down
	w.down = true
	w.mu.Unlock()
	if srv == nil || down {
		return
	}
	done := make(chan struct{})
	go func() {
		srv.Shutdown()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(Watchdog):
		panic(Stuck{"Shutdown did not return"})
	}
	w.DB = nil
}

// Restart stops and starts the bouncer on the same data.
func (w *World) Restart() {
	w.Stop()
	w.Start()
}

// Panics returns how many panics the server contained.
func (w *World) Panics() int {
	mfs, err := w.Reg.Gather()
	Must(err)
	for _, mf := range mfs {
		if strings.Contains(mf.GetName(), "panic") {
			n := 0.0
			for _, m := range mf.GetMetric() {
				n += m.GetCounter().GetValue()
			}
			return int(n)
		}
	}
	return 0
}

// PanicLog extracts the panic text from the log.
func (w *World) PanicLog() string {
	s := w.Log.String()
	i := strings.Index(s, "panic")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// CheckNoPanic fails if the server contained a panic.
func (w *World) CheckNoPanic() {
	if n := w.Panics(); n > 0 {
		Failf("the bouncer had %d internal panics: %s", n, w.PanicLog())
	}
}

// ClientOpts describes a client connection.
type ClientOpts struct {
	User    string
	Network string
	Client  string
	Pass    string
	Nick    string
	Caps    []string
	Ack     bool // acknowledge delivery pings automatically
	NoWait  bool // do not wait for the end of registration
	NetID   string
}

// Client is a scripted IRC client.
type Client struct {
	*Peer
	W    *World
	Opts ClientOpts
	ack  atomic.Bool
	// AckFunc decides for each delivery ping whether to acknowledge.
	ackMu   sync.Mutex
	acked   []string
	pending []string
	Caps    map[string]bool
	RegMark int // position right after registration burst fence
}

var clientSeq int64

func (w *World) dial(admin bool) (net.Conn, error) {
	if w.ExtDial != nil {
		return w.ExtDial(admin)
	}
	if admin {
		return net.Dial("tcp", w.adminLn.Addr().String())
	}
	return net.Dial("tcp", w.ln.Addr().String())
}

// Dial opens a raw client connection without registering.
func (w *World) Dial(name string) *Client {
	nc, err := w.dial(false)
	Must(err)
	return w.wrap(name, nc)
}

// DialAdmin opens a connection to the administration listener.
func (w *World) DialAdmin(name string) *Client {
	nc, err := w.dial(true)
	Must(err)
	return w.wrap(name, nc)
}

func (w *World) Addr() string { return w.ln.Addr().String() }

func (w *World) wrap(name string, nc net.Conn) *Client {
	c := &Client{W: w, Peer: newPeer(w.T, "client "+name, nc), Caps: map[string]bool{}}
	c.Peer.onLine = c.onLine
	go c.Peer.readLoop()
	w.T.Cleanup(func() { nc.Close() })
	return c
}

func (c *Client) onLine(l Line) {
	switch l.Command {
	case "PING":
		tok := l.P(len(l.Params) - 1)
		if strings.HasPrefix(tok, "soju-msgid-") {
			c.ackMu.Lock()
			c.pending = append(c.pending, tok)
			c.ackMu.Unlock()
			if c.ack.Load() {
				c.AckAll()
			}
			return
		}
		c.Raw("PONG :" + tok + "\r\n")
	case "CAP":
		if strings.ToUpper(l.P(1)) == "ACK" {
			c.ackMu.Lock()
			for _, n := range strings.Fields(l.P(2)) {
				if strings.HasPrefix(n, "-") {
					delete(c.Caps, n[1:])
				} else {
					c.Caps[n] = true
				}
			}
			c.ackMu.Unlock()
		}
	}
}

// AckAll acknowledges all delivery pings received so far.
func (c *Client) AckAll() int {
	c.ackMu.Lock()
	p := c.pending
	c.pending = nil
	c.ackMu.Unlock()
	for _, tok := range p {
		c.Raw("PONG :" + tok + "\r\n")
	}
	return len(p)
}

// Pending returns the unacknowledged delivery pings.
func (c *Client) Pending() []string {
	c.ackMu.Lock()
	defer c.ackMu.Unlock()
	return append([]string(nil), c.pending...)
}

// AckSome acknowledges the given tokens.
func (c *Client) AckSome(toks []string) {
	c.ackMu.Lock()
	rest := c.pending[:0:0]
	m := map[string]int{}
	for _, t := range toks {
		m[t]++
	}
	for _, p := range c.pending {
		if m[p] > 0 {
			m[p]--
			continue
		}
		rest = append(rest, p)
	}
	c.pending = rest
	c.ackMu.Unlock()
	for _, tok := range toks {
		c.Raw("PONG :" + tok + "\r\n")
	}
}

func (c *Client) SetAck(v bool) { c.ack.Store(v) }

func (o *ClientOpts) username() string {
	s := o.User
	if o.Network != "" {
		s += "/" + o.Network
	}
	if o.Client != "" {
		s += "@" + o.Client
	}
	return s
}

// Connect opens a client connection and registers.
func (w *World) Connect(o ClientOpts) *Client {
	n := atomic.AddInt64(&clientSeq, 1)
	c := w.Dial(fmt.Sprintf("%s[%d]", o.username(), n))
	c.Opts = o
	c.ack.Store(o.Ack)
	c.Register(o)
	return c
}

// Register performs the registration exchange.
func (c *Client) Register(o ClientOpts) {
	pass := o.Pass
	if pass == "" {
		pass = "pw-" + o.User
	}
	nick := o.Nick
	if nick == "" {
		nick = o.User
	}
	var lines []string
	if o.Caps != nil || o.NetID != "" {
		lines = append(lines, "CAP LS 302")
		for _, cp := range o.Caps {
			lines = append(lines, "CAP REQ :"+cp)
		}
	}
	if o.NetID != "" {
		// SASL is needed before BIND
		c.Send(append(lines, "CAP REQ :sasl", "CAP REQ :soju.im/bouncer-networks")...)
		c.SASLPlain(o.username(), pass)
		c.Send("NICK "+nick, "USER "+o.username()+" 0 * :"+o.User, "BOUNCER BIND "+o.NetID, "CAP END")
	} else {
		lines = append(lines, "PASS "+pass, "NICK "+nick, "USER "+o.username()+" 0 * :Real "+o.User)
		if o.Caps != nil {
			lines = append(lines, "CAP END")
		}
		c.Send(lines...)
	}
	if o.NoWait {
		return
	}
	if c.Wait(0, "001", func(l Line) bool { return l.Command == "001" }) < 0 {
		c.Dump()
		panic(Stuck{c.Peer.Name + ": connection closed during registration; log: " + tailStr(c.W.Log.String(), 1500)})
	}
	c.Sync()
	c.RegMark = c.Mark()
}

// Sync waits until the bouncer has processed everything this client sent and
// until everything queued to this client before that has arrived. It returns
// the position of the fence reply.
func (c *Client) Sync() int {
	i := c.TrySync()
	if i < 0 {
		c.Dump()
		panic(Stuck{c.Peer.Name + ": connection closed while waiting for PONG"})
	}
	if err := c.ParseErr(); err != nil {
		Failf("%s: %v", c.Peer.Name, err)
	}
	return i
}

// TrySync is Sync returning -1 when the connection was closed.
func (c *Client) TrySync() int {
	tok := fmt.Sprintf("cfence-%d", atomic.AddInt64(&upFence, 1))
	from := c.Mark()
	c.Send("PING " + tok)
	return c.Wait(from, "PONG "+tok, func(l Line) bool {
		return l.Command == "PONG" && l.P(len(l.Params)-1) == tok
	})
}

// SyncAck acknowledges delivery pings until none is outstanding.
func (c *Client) SyncAck() {
	c.Sync()
	for c.AckAll() > 0 {
		c.Sync()
	}
}

// Disconnect closes the client connection and waits until the bouncer has
// processed it (the connection disappears from another client's view is not
// observable, so the bouncer is fenced through stats).
func (c *Client) Disconnect() {
	c.Peer.CloseWait()
}

// Service sends a BouncerServ command and returns the reply lines.
func (c *Client) Service(cmd string) []string {
	from := c.Mark()
	c.Send("PRIVMSG BouncerServ :" + cmd)
	end := c.Sync()
	var out []string
	for i, l := range c.Since(from) {
		if from+i >= end {
			break
		}
		if l.Command == "PRIVMSG" && l.Prefix != nil && l.Prefix.Name == "BouncerServ" {
			out = append(out, l.P(1))
		}
	}
	return out
}

// Admin runs a command on the administration socket.
func (w *World) Admin(cmd string) (lines []string, ok bool) {
	c := w.DialAdmin("admin")
	defer c.Peer.Close()
	c.Send("BOUNCERSERV :" + cmd)
	i := c.Wait(0, "BOUNCERSERV reply", func(l Line) bool { return l.Command == "BOUNCERSERV" || l.Command == "FAIL" })
	if i < 0 {
		return nil, false
	}
	ls := c.Lines()
	for _, l := range ls[:i] {
		if l.Command == "PRIVMSG" {
			lines = append(lines, l.P(1))
		}
	}
	last := ls[i]
	ok = last.Command == "BOUNCERSERV" && last.P(0) == "OK"
	if !ok {
		lines = append(lines, last.Raw)
	}
	return lines, ok
}

// Stats waits until the number of client connections known to the server is n.
func (w *World) WaitDownstreams(n int64) {
	start := time.Now()
	for w.Srv.Stats().Downstreams != n {
		if time.Since(start) > Watchdog {
			panic(Stuck{fmt.Sprintf("server still counts %d client connections, want %d", w.Srv.Stats().Downstreams, n)})
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// WaitUpstreams waits until the number of network connections is n.
func (w *World) WaitUpstreams(n int64) {
	start := time.Now()
	for w.Srv.Stats().Upstreams != n {
		if time.Since(start) > Watchdog {
			panic(Stuck{fmt.Sprintf("server still counts %d network connections, want %d", w.Srv.Stats().Upstreams, n)})
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// SASLPlain performs a SASL PLAIN exchange.
func (c *Client) SASLPlain(user, pass string) bool {
	from := c.Mark()
	c.Send("AUTHENTICATE PLAIN")
	if c.Wait(from, "AUTHENTICATE +", func(l Line) bool { return l.Command == "AUTHENTICATE" || l.Command == "904" }) < 0 {
		return false
	}
	c.Send("AUTHENTICATE " + B64("\x00"+user+"\x00"+pass))
	i := c.Wait(from, "SASL result", func(l Line) bool { return l.Command == "903" || l.Command == "904" || l.Command == "906" })
	return i >= 0 && c.Lines()[i].Command == "903"
}

// Settle waits until everything the clients sent has reached the network, the
// network's automatic answers have come back and everything resulting from it
// has arrived at the clients.
func Settle(ucs []*UpConn, cls []*Client) {
	for _, c := range cls {
		c.Sync()
	}
	for _, uc := range ucs {
		uc.Sync() // the clients' lines have arrived and were answered
	}
	for _, uc := range ucs {
		uc.Sync() // the answers were processed
	}
	for _, c := range cls {
		c.Sync()
	}
}

// UserID returns the database identifier of a user added with AddUser.
func (w *World) UserID(name string) int64 { return w.userID[name] }

// Serving is a listener which tells when the server has taken it over: one
// handed to Serve while Shutdown runs would stay open.
type Serving struct {
	net.Listener
	Ready chan struct{}
	once  sync.Once
}

func NewServing(ln net.Listener) *Serving { return &Serving{Listener: ln, Ready: make(chan struct{})} }

func (s *Serving) Accept() (net.Conn, error) {
	s.once.Do(func() { close(s.Ready) })
	return s.Listener.Accept()
}
