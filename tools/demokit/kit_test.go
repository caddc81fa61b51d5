package soju_test

// A small self-contained driver: a scripted IRC network, scripted clients and
// a real bouncer, all over loopback.

import (
	"bufio"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"net"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

const kitWait = 20 * time.Second

var kitSeq int64

type kitAuth struct{}

func (kitAuth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
	if password == "pw-"+username {
		return nil
	}
	return errors.New("bad password")
}

type peer struct {
	t      *testing.T
	name   string
	c      net.Conn
	mu     sync.Mutex
	lines  []*irc.Message
	closed bool
	onLine func(m *irc.Message)
}

func newPeer(t *testing.T, name string, c net.Conn, onLine func(p *peer, m *irc.Message)) *peer {
	p := &peer{t: t, name: name, c: c}
	go func() {
		r := bufio.NewReaderSize(c, 1<<16)
		for {
			s, err := r.ReadString('\n')
			if err != nil {
				break
			}
			m, err := irc.ParseMessage(strings.TrimRight(s, "\r\n"))
			if err != nil {
				continue
			}
			p.mu.Lock()
			p.lines = append(p.lines, m)
			p.mu.Unlock()
			if onLine != nil {
				onLine(p, m)
			}
		}
		p.mu.Lock()
		p.closed = true
		p.mu.Unlock()
	}()
	return p
}

func (p *peer) send(lines ...string) { p.c.Write([]byte(strings.Join(lines, "\r\n") + "\r\n")) }
func (p *peer) mark() int            { p.mu.Lock(); defer p.mu.Unlock(); return len(p.lines) }
func (p *peer) isClosed() bool       { p.mu.Lock(); defer p.mu.Unlock(); return p.closed }
func (p *peer) since(i int) []*irc.Message {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]*irc.Message(nil), p.lines[i:]...)
}

func (p *peer) got(from int, cmd string) (out []*irc.Message) {
	for _, m := range p.since(from) {
		if m.Command == cmd {
			out = append(out, m)
		}
	}
	return
}

// find waits for a matching line.
func (p *peer) find(from int, what string, f func(m *irc.Message) bool) *irc.Message {
	p.t.Helper()
	end := time.Now().Add(kitWait)
	for {
		for _, m := range p.since(from) {
			if f(m) {
				return m
			}
		}
		if time.Now().After(end) || p.isClosed() {
			p.t.Fatalf("%s: no %s; received:\n%v", p.name, what, p.since(0))
		}
		time.Sleep(time.Millisecond)
	}
}

func (p *peer) waitCmd(from int, cmd string) *irc.Message {
	p.t.Helper()
	return p.find(from, cmd, func(m *irc.Message) bool { return m.Command == cmd })
}

// sync waits until the bouncer has processed everything sent so far.
func (p *peer) sync() {
	p.t.Helper()
	tok := fmt.Sprintf("k%d", atomic.AddInt64(&kitSeq, 1))
	from := p.mark()
	p.send("PING " + tok)
	p.find(from, "PONG "+tok, func(m *irc.Message) bool {
		return m.Command == "PONG" && m.Params[len(m.Params)-1] == tok
	})
}

type up struct {
	t        *testing.T
	ln       net.Listener
	addr     string
	caps     []string
	isupport []string
	hook     func(u *up, p *peer, m *irc.Message) bool // true: handled
	members  string
	mu       sync.Mutex
	conns    []*peer
	nick     string
	enabled  map[string]bool
	registered map[*peer]bool
}

func newUp(t *testing.T, caps ...string) *up {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	u := &up{t: t, ln: ln, addr: "irc+insecure://" + ln.Addr().String(), caps: caps, enabled: map[string]bool{}, registered: map[*peer]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			p := newPeer(t, "network", c, u.handle)
			u.mu.Lock()
			u.conns = append(u.conns, p)
			u.mu.Unlock()
			t.Cleanup(func() { c.Close() })
		}
	}()
	t.Cleanup(func() { ln.Close() })
	return u
}

func (u *up) handle(p *peer, m *irc.Message) {
	if u.hook != nil && u.hook(u, p, m) {
		return
	}
	u.mu.Lock()
	nick := u.nick
	u.mu.Unlock()
	me := nick + "!user@host"
	switch m.Command {
	case "CAP":
		switch m.Params[0] {
		case "LS":
			p.send(":srv CAP * LS :" + strings.Join(u.caps, " "))
		case "REQ":
			u.mu.Lock()
			for _, n := range strings.Fields(m.Params[1]) {
				u.enabled[n] = true
			}
			u.mu.Unlock()
			p.send(":srv CAP * ACK :" + m.Params[1])
		case "END":
			u.welcome(p)
		}
	case "NICK":
		u.mu.Lock()
		u.nick = m.Params[0]
		reg := u.registered[p]
		u.mu.Unlock()
		if reg {
			p.send(":" + me + " NICK " + m.Params[0])
		}
	case "PING":
		p.send(":srv PONG srv " + m.Params[0])
	case "JOIN":
		for _, ch := range strings.Split(m.Params[0], ",") {
			p.send(":"+me+" JOIN "+ch, ":srv 353 "+nick+" = "+ch+" :@"+nick+" "+u.members, ":srv 366 "+nick+" "+ch+" :end")
		}
	case "PART":
		for _, ch := range strings.Split(m.Params[0], ",") {
			p.send(":" + me + " PART " + ch)
		}
	case "PRIVMSG", "NOTICE", "TAGMSG":
		u.mu.Lock()
		echo := u.enabled["echo-message"]
		u.mu.Unlock()
		if echo {
			e := m.Copy()
			e.Prefix = irc.ParsePrefix(me)
			p.send(e.String())
		}
	}
}

func (u *up) welcome(p *peer) {
	u.mu.Lock()
	nick := u.nick
	u.registered[p] = true
	u.mu.Unlock()
	p.send(":srv 001 "+nick+" :hi", ":srv 004 "+nick+" srv v i n", ":srv 005 "+nick+" soju.im/SAFERATE "+strings.Join(u.isupport, " ")+" :ok", ":srv 422 "+nick+" :no motd")
}

// conn returns the i-th connection once registered and settled.
func (u *up) conn(i int) *peer {
	u.t.Helper()
	end := time.Now().Add(kitWait)
	for {
		u.mu.Lock()
		var p *peer
		if len(u.conns) > i && u.registered[u.conns[i]] {
			p = u.conns[i]
		}
		u.mu.Unlock()
		if p != nil {
			p.sync()
			p.sync()
			return p
		}
		if time.Now().After(end) {
			u.t.Fatalf("network: connection %d did not register", i)
		}
		time.Sleep(time.Millisecond)
	}
}

func (u *up) numConns() int { u.mu.Lock(); defer u.mu.Unlock(); return len(u.conns) }

type kit struct {
	t     *testing.T
	dir   string
	store string
	db    database.Database
	srv   *soju.Server
	ln    net.Listener
	aln   net.Listener
	cfg   func(*soju.Config)
}

func newKit(t *testing.T, store string) *kit {
	k := &kit{t: t, dir: t.TempDir(), store: store}
	k.open()
	return k
}

func (k *kit) open() {
	db, err := database.Open("sqlite3", filepath.Join(k.dir, "soju.db"))
	if err != nil {
		k.t.Fatal(err)
	}
	k.db = db
}

func (k *kit) user(name string, admin bool) *database.User {
	u := database.NewUser(name)
	u.Admin = admin
	if err := k.db.StoreUser(context.Background(), u); err != nil {
		k.t.Fatal(err)
	}
	return u
}

func (k *kit) network(u *database.User, name string, up *up, chans ...string) *database.Network {
	n := database.NewNetwork(up.addr)
	n.Name = name
	if err := k.db.StoreNetwork(context.Background(), u.ID, n); err != nil {
		k.t.Fatal(err)
	}
	for _, ch := range chans {
		if err := k.db.StoreChannel(context.Background(), n.ID, &database.Channel{Name: ch}); err != nil {
			k.t.Fatal(err)
		}
	}
	return n
}

func (k *kit) start() {
	if k.db == nil {
		k.open()
	}
	srv := soju.NewServer(k.db)
	cfg := &soju.Config{Hostname: "soju.test", MsgStoreDriver: k.store, MaxUserNetworks: -1, Auth: &auth.Authenticator{Plain: kitAuth{}}}
	if k.store == "fs" {
		cfg.MsgStorePath = filepath.Join(k.dir, "logs")
	}
	if k.cfg != nil {
		k.cfg(cfg)
	}
	srv.SetConfig(cfg)
	if err := srv.Start(); err != nil {
		k.t.Fatal(err)
	}
	k.ln, _ = net.Listen("tcp", "127.0.0.1:0")
	k.aln, _ = net.Listen("tcp", "127.0.0.1:0")
	go srv.Serve(k.ln, srv.Handle)
	go srv.Serve(k.aln, srv.HandleAdmin)
	k.srv = srv
	k.t.Cleanup(func() { k.stop() })
}

func (k *kit) stop() {
	if k.srv != nil {
		srv := k.srv
		k.srv, k.db = nil, nil
		done := make(chan struct{})
		go func() { srv.Shutdown(); close(done) }()
		select {
		case <-done:
		case <-time.After(kitWait):
			k.t.Errorf("shutdown hangs")
		}
	}
}

func (k *kit) dial() *peer {
	c, err := net.Dial("tcp", k.ln.Addr().String())
	if err != nil {
		k.t.Fatal(err)
	}
	k.t.Cleanup(func() { c.Close() })
	return newPeer(k.t, "client", c, func(p *peer, m *irc.Message) {
		if m.Command == "PING" && !strings.HasPrefix(m.Params[0], "soju-msgid") {
			p.send("PONG " + m.Params[0])
		}
	})
}

// connect registers a client; login is user[/network][@client].
func (k *kit) connect(login string, caps ...string) *peer {
	k.t.Helper()
	c := k.dial()
	name := login
	if i := strings.IndexAny(name, "/@"); i >= 0 {
		name = name[:i]
	}
	c.send("CAP LS 302")
	for _, cp := range caps {
		c.send("CAP REQ :" + cp)
	}
	c.send("PASS pw-"+name, "NICK "+name, "USER "+login+" 0 * :real", "CAP END")
	c.waitCmd(0, "001")
	c.sync()
	return c
}

// ack acknowledges all delivery pings received so far.
func (p *peer) ack() {
	p.t.Helper()
	for _, m := range p.got(0, "PING") {
		if strings.HasPrefix(m.Params[0], "soju-msgid") {
			p.send("PONG " + m.Params[0])
		}
	}
	p.sync()
}

// service runs a BouncerServ command.
func (p *peer) service(cmd string) (out []string) {
	p.t.Helper()
	from := p.mark()
	p.send("PRIVMSG BouncerServ :" + cmd)
	p.sync()
	for _, m := range p.got(from, "PRIVMSG") {
		if m.Prefix != nil && m.Prefix.Name == "BouncerServ" {
			out = append(out, m.Params[1])
		}
	}
	return
}

// quit closes the connection and waits until the bouncer noticed.
func (k *kit) quit(p *peer) {
	n := k.srv.Stats().Downstreams
	p.c.Close()
	end := time.Now().Add(kitWait)
	for k.srv.Stats().Downstreams >= n {
		if time.Now().After(end) {
			k.t.Fatal("the bouncer did not notice the disconnection")
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
}

func texts(ms []*irc.Message) (out []string) {
	for _, m := range ms {
		out = append(out, m.Params[1])
	}
	return
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

var _ = b64
