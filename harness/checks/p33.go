package checks

import (
	"bytes"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hkdf"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"database/sql"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P33", Level: "stress_oracle",
		Rule:   "One execution = two users with networks, clients registering, replacing and removing push endpoints (valid, with several failure modes), private messages, highlights, invitations, messages which must not be pushed, read markers, network updates, restarts. A push service decrypts every push with the keys of the registration, verifies its signature and headers, and matches it with the events that had to be pushed: each exactly once, nothing else. Registrations of local addresses must be refused without any connection attempt. A situation is (event, number of subscriptions of the network, endpoint behaviour)",
		Assume: []string{"the addresses of the push service are public ones, redirected by the process's default HTTP transport and resolver", "pushes of typing notifications and other TAGMSG are neither required nor forbidden"},
		Cases:  func(e *Env) []Case { return Repeat(e, "push", e.N(700, 8000), p33Push) },
	})
}

var b64u = base64.RawURLEncoding

// pushService is a push service shared by the executions of the process.
var pushService struct {
	once  sync.Once
	addr  string
	mu    sync.Mutex
	paths map[string]*pushEndpoint
	dials []string
	hosts map[string]string // path part to the host dialled
}

// p33Public are the names and addresses of the push service.
var p33Public = []string{"push.example", "push2.example:8443", "198.51.100.7", "[2001:db8::5]", "203.0.113.9:4443", "push.example:443"}

func p33Local(host string) bool {
	h := hostOf(host)
	if ip := net.ParseIP(strings.Trim(h, "[]")); ip != nil {
		return !strings.HasPrefix(ip.String(), "198.51.100.") && !strings.HasPrefix(ip.String(), "203.0.113.") && !strings.HasPrefix(ip.String(), "2001:db8:")
	}
	return strings.HasPrefix(h, "evil") || h == "localhost"
}

// dnsAnswer answers a query with the addresses of the name.
func dnsAnswer(q []byte) []byte {
	if len(q) < 12 {
		return nil
	}
	var labels []string
	i := 12
	for i < len(q) && q[i] != 0 {
		n := int(q[i])
		if i+1+n > len(q) {
			return nil
		}
		labels = append(labels, strings.ToLower(string(q[i+1:i+1+n])))
		i += 1 + n
	}
	if i+5 > len(q) {
		return nil
	}
	end := i + 5
	typ := binary.BigEndian.Uint16(q[i+1:])
	addrs := map[string][]string{
		"push.example": {"203.0.113.5"}, "push2.example": {"203.0.113.6", "2001:db8::6"},
		"evil.example": {"127.0.0.1"}, "evil2.example": {"203.0.113.5", "10.1.2.3"}, "evil6.example": {"::1"}, "evil7.example": {"2001:db8::6", "fd00::1"},
	}[strings.Join(labels, ".")]
	a := append([]byte(nil), q[:end]...)
	a[2], a[3] = 0x81, 0x80
	copy(a[4:], []byte{0, 1, 0, 0, 0, 0, 0, 0})
	if addrs == nil {
		a[3] = 0x83
		return a
	}
	n := 0
	for _, s := range addrs {
		ip := net.ParseIP(s)
		v4 := ip.To4()
		switch {
		case typ == 1 && v4 != nil:
			a = append(a, 0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 1, 0, 4)
			a = append(a, v4...)
			n++
		case typ == 28 && v4 == nil:
			a = append(a, 0xc0, 12, 0, 28, 0, 1, 0, 0, 0, 1, 0, 16)
			a = append(a, ip.To16()...)
			n++
		}
	}
	a[7] = byte(n)
	return a
}

func startPushService() {
	s := &pushService
	s.once.Do(func() {
		s.paths = map[string]*pushEndpoint{}
		pc, err := net.ListenPacket("udp", "127.0.0.1:0")
		Must(err)
		go func() {
			b := make([]byte, 2048)
			for {
				n, from, err := pc.ReadFrom(b)
				if err != nil {
					return
				}
				if a := dnsAnswer(b[:n]); a != nil {
					pc.WriteTo(a, from)
				}
			}
		}()
		net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, network, _ string) (net.Conn, error) {
			if !strings.HasPrefix(network, "udp") {
				return nil, errors.New("no DNS over TCP here")
			}
			return net.Dial("udp", pc.LocalAddr().String())
		}}
		var hosts []string
		for _, h := range p33Public {
			hosts = append(hosts, strings.Trim(hostOf(h), "[]"))
		}
		ln, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{NewCert(CertOpts{Hosts: hosts})}})
		Must(err)
		s.addr = ln.Addr().String()
		go http.Serve(ln, http.HandlerFunc(servePush))
		http.DefaultTransport.(*http.Transport).DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
			s.mu.Lock()
			s.dials = append(s.dials, addr)
			s.mu.Unlock()
			if p33Local(addr) {
				return nil, fmt.Errorf("no route to %s", addr)
			}
			return (&net.Dialer{}).DialContext(ctx, "tcp", s.addr)
		}
	})
}

// pushSub is what one registration must receive.
type pushSub struct {
	user, net string
	url       string
	path      string
	priv      *ecdh.PrivateKey
	auth      []byte
	active    bool
	want      map[string]int
	anyway    map[string]int // allowed
}

func (s *pushSub) name() string { return s.user + "/" + s.net + s.path }

// pushEndpoint is one URL of the push service; several registrations may use
// it.
type pushEndpoint struct {
	mu    sync.Mutex
	mode  string
	vapid string
	host  string
	subs  []*pushSub
	old   []*pushSub // registrations with replaced keys
	oldAt time.Time
	got   []string // subscription name + payload
	errs  []string
	hits  int
}

var errOldKeys = errors.New("old keys")

func servePush(w http.ResponseWriter, r *http.Request) {
	s := &pushService
	s.mu.Lock()
	e := s.paths[r.URL.Path]
	s.mu.Unlock()
	if e == nil {
		http.NotFound(w, r)
		return
	}
	body, _ := io.ReadAll(r.Body)
	e.mu.Lock()
	e.hits++
	mode := e.mode
	sub, payload, err := e.open(r, body)
	if err == errOldKeys {
	} else if err != nil {
		e.errs = append(e.errs, err.Error())
	} else {
		e.got = append(e.got, sub.name()+"\x00"+payload)
	}
	e.mu.Unlock()
	switch mode {
	case "ok":
		w.WriteHeader(201)
	case "ok200":
		w.Write([]byte("fine"))
	case "slow":
		time.Sleep(30 * time.Millisecond)
		w.WriteHeader(202)
	case "404":
		w.WriteHeader(404)
	case "500":
		w.WriteHeader(500)
	case "429":
		w.WriteHeader(429)
	case "abort":
		panic(http.ErrAbortHandler)
	}
}

// open verifies and decrypts a push.
func (e *pushEndpoint) open(r *http.Request, body []byte) (*pushSub, string, error) {
	if r.Method != "POST" || r.Header.Get("Content-Encoding") != "aes128gcm" || r.Header.Get("TTL") == "" {
		return nil, "", fmt.Errorf("%s with headers %v", r.Method, r.Header)
	}
	if r.Host != e.host && r.Host+":443" != e.host {
		return nil, "", fmt.Errorf("push for %s sent to %s", e.host, r.Host)
	}
	if err := e.checkVAPID(r.Header.Get("Authorization")); err != nil {
		return nil, "", err
	}
	var last error
	for _, s := range e.subs {
		p, err := s.decrypt(body)
		if err != nil {
			last = err
			continue
		}
		m, err := irc.ParseMessage(p)
		if err != nil || strings.ContainsAny(p, "\r\n\x00") {
			return nil, "", fmt.Errorf("payload %q is not an IRC message", p)
		}
		urgent := m.Command == "PRIVMSG" || m.Command == "NOTICE" || m.Command == "INVITE"
		if u := r.Header.Get("Urgency"); urgent && u != "high" {
			return nil, "", fmt.Errorf("urgency %q of %q", u, p)
		}
		return s, p, nil
	}
	if time.Since(e.oldAt) < 20*time.Second { // it may have been on its way
		for _, s := range e.old {
			if _, err := s.decrypt(body); err == nil {
				return nil, "", errOldKeys
			}
		}
	}
	return nil, "", fmt.Errorf("%d bytes pushed, readable by no current registration: %v", len(body), last)
}

func (e *pushEndpoint) checkVAPID(h string) error {
	fs := map[string]string{}
	if !strings.HasPrefix(h, "vapid ") {
		return fmt.Errorf("authorization %q", h)
	}
	for _, f := range strings.Split(h[6:], ",") {
		k, v, _ := strings.Cut(strings.TrimSpace(f), "=")
		fs[k] = v
	}
	if strings.TrimRight(fs["k"], "=") != strings.TrimRight(e.vapid, "=") {
		return fmt.Errorf("pushed with the server key %q, announced %q", fs["k"], e.vapid)
	}
	pb, err := b64u.DecodeString(strings.TrimRight(e.vapid, "="))
	if err != nil {
		return err
	}
	x, y := elliptic.Unmarshal(elliptic.P256(), pb)
	parts := strings.Split(fs["t"], ".")
	if x == nil || len(parts) != 3 {
		return fmt.Errorf("bad key or token %q", h)
	}
	sig, err := b64u.DecodeString(parts[2])
	if err != nil || len(sig) != 64 {
		return fmt.Errorf("bad signature %q", parts[2])
	}
	d := sha256.Sum256([]byte(parts[0] + "." + parts[1]))
	if !ecdsa.Verify(&ecdsa.PublicKey{Curve: elliptic.P256(), X: x, Y: y}, d[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])) {
		return errors.New("the signature does not verify")
	}
	cb, err := b64u.DecodeString(parts[1])
	if err != nil {
		return err
	}
	var c struct {
		Aud string
		Exp int64
		Sub string
	}
	if err := json.Unmarshal(cb, &c); err != nil {
		return err
	}
	if c.Aud != "https://"+e.host {
		return fmt.Errorf("token for %q, want %q", c.Aud, "https://"+e.host)
	}
	if d := time.Until(time.Unix(c.Exp, 0)); d < 0 || d > 24*time.Hour+time.Minute {
		return fmt.Errorf("token valid for %v", d)
	}
	if c.Sub == "" {
		return fmt.Errorf("token without a contact")
	}
	return nil
}

func (s *pushSub) decrypt(b []byte) (string, error) {
	if len(b) < 21 || len(b) < 21+int(b[20]) || b[20] != 65 {
		return "", errors.New("short record")
	}
	salt, rs, pub, ct := b[:16], binary.BigEndian.Uint32(b[16:20]), b[21:21+65], b[86:]
	if int(rs) < len(ct) {
		return "", errors.New("more than one record")
	}
	pk, err := ecdh.P256().NewPublicKey(pub)
	if err != nil {
		return "", err
	}
	secret, err := s.priv.ECDH(pk)
	if err != nil {
		return "", err
	}
	ikm, err := hkdf.Key(sha256.New, secret, s.auth, "WebPush: info\x00"+string(s.priv.PublicKey().Bytes())+string(pub), 32)
	Must(err)
	cek, err := hkdf.Key(sha256.New, ikm, salt, "Content-Encoding: aes128gcm\x00", 16)
	Must(err)
	nonce, err := hkdf.Key(sha256.New, ikm, salt, "Content-Encoding: nonce\x00", 12)
	Must(err)
	blk, err := aes.NewCipher(cek)
	Must(err)
	gcm, err := cipher.NewGCM(blk)
	Must(err)
	p, err := gcm.Open(nil, nonce, ct, nil)
	if err != nil {
		return "", err
	}
	p = bytes.TrimRight(p, "\x00")
	if len(p) == 0 || p[len(p)-1] != 2 {
		return "", errors.New("no delimiter")
	}
	return string(p[:len(p)-1]), nil
}

type p33User struct {
	name string
	rec  *database.User
	nets []*p33Net
}

type p33Net struct {
	u     *p33User
	name  string
	up    *Upstream
	id    int64
	cl    *Client
	subs  []*pushSub
	marks map[string]time.Time // read markers
	push  map[string]time.Time // conversations with pushes
	det   string               // detached channel without relay
	lost  bool                 // pushed conversations may have been forgotten
	sent  []p33Sent
}

type p33Sent struct {
	key string
	at  time.Time
}

type p33 struct {
	t     *T
	r     *rand.Rand
	w     *World
	us    []*p33User
	eps   map[string]*pushEndpoint
	vapid string
	seq   int
	now   time.Time
}

func p33Push(t *T) {
	startPushService()
	p := &p33{t: t, r: t.Rng, eps: map[string]*pushEndpoint{}, now: time.Now().Add(-time.Hour).UTC().Truncate(time.Millisecond)}
	p.w = NewWorld(t, Pick(p.r, []string{"memory", "db"}))
	for i, name := range []string{"alice", "bob"} {
		u := &p33User{name: name, rec: p.w.AddUser(name, false)}
		for j := 0; j < 2-i; j++ {
			n := &p33Net{u: u, name: fmt.Sprintf("net%d", j), marks: map[string]time.Time{}, push: map[string]time.Time{}, det: "#quiet"}
			n.up = NewUpstream(t, name+n.name)
			n.up.Caps = []string{"server-time", "message-tags", "echo-message"}
			n.up.ISupport = []string{"STATUSMSG=@+", "CHANTYPES=#"}
			n.up.Start()
			rec := p.w.AddNetwork(u.rec, n.name, n.up)
			n.id = rec.ID
			relay := Pick(p.r, []database.MessageFilter{database.FilterDefault, database.FilterNone, database.FilterMessage})
			p.w.AddChannel(rec, "#chan", func(c *database.Channel) { c.RelayDetached = relay }) // of no effect while attached
			p.w.AddChannel(rec, n.det, func(c *database.Channel) { c.Detached = true; c.RelayDetached = database.FilterNone })
			p.w.AddChannel(rec, "#det", func(c *database.Channel) { c.Detached = true })
			u.nets = append(u.nets, n)
		}
		p.us = append(p.us, u)
	}
	t.CleanupLast(func() {
		pushService.mu.Lock()
		for path := range p.eps {
			delete(pushService.paths, path)
		}
		pushService.mu.Unlock()
	})
	p.w.Start()
	p.attach()
	for k := 0; k < 22; k++ {
		p.step()
		t.Count("steps", 1)
	}
	p.settle("the end")
	time.Sleep(10 * time.Millisecond) // late pushes nobody expects
	p.settle("the end")
	for _, e := range p.eps {
		t.Count("pushes decrypted and matched", e.hits)
	}
	p.w.CheckNoPanic()
}

func (p *p33) nets() []*p33Net {
	var l []*p33Net
	for _, u := range p.us {
		l = append(l, u.nets...)
	}
	return l
}

func (p *p33) attach() {
	for _, n := range p.nets() {
		n.up.Last().Sync()
		n.cl = p.w.Connect(ClientOpts{User: n.u.name, Network: n.name, Caps: []string{"soju.im/webpush", "draft/read-marker"}})
		n.cl.Sync()
		v := ""
		for _, l := range n.cl.Lines() {
			if l.Command == "005" {
				for _, tok := range l.Params {
					if strings.HasPrefix(tok, "VAPID=") {
						v = tok[6:]
					}
				}
			}
		}
		if v == "" || p.vapid != "" && v != p.vapid {
			Failf("the announced server key is %q, was %q", v, p.vapid)
		}
		p.vapid = v
	}
}

// settle waits for the pushes owed and looks for pushes not owed.
func (p *p33) settle(what string) {
	start := time.Now()
	for {
		missing := ""
		for _, e := range p.eps {
			e.mu.Lock()
			errs, got := e.errs, append([]string(nil), e.got...)
			e.mu.Unlock()
			if len(errs) > 0 {
				Failf("%s: push service: %s", what, errs[0])
			}
			count := map[string]int{}
			for _, g := range got {
				count[g]++
			}
			for g, n := range count {
				name, payload, _ := strings.Cut(g, "\x00")
				want, any := 0, 0
				for _, s := range e.subs {
					if s.name() == name {
						want += s.want[payloadKey(payload)]
						any += s.anyway[payloadKey(payload)]
					}
				}
				if strings.Contains(payload, " TAGMSG ") {
					continue // these may be pushed, sooner or later
				}
				if n > want+any {
					Failf("%s: %s got %d times, expected %d: %q", what, name, n, want, payload)
				}
			}
			for _, s := range e.subs {
				for k, n := range s.want {
					have := 0
					for g, c := range count {
						name, payload, _ := strings.Cut(g, "\x00")
						if name == s.name() && payloadKey(payload) == k {
							have += c
						}
					}
					if have > n+s.anyway[k] {
						Failf("%s: %s got %q %d times instead of %d", what, s.name(), k, have, n)
					}
					if have < n {
						missing = fmt.Sprintf("%s got %q %d times instead of %d", s.name(), k, have, n)
					}
				}
			}
		}
		if missing == "" {
			return
		}
		if time.Since(start) > Watchdog/3 {
			Failf("%s: %s", what, missing)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// payloadKey drops what may differ: the order of tags and tags other than
// msgid and time.
func payloadKey(s string) string {
	m, err := irc.ParseMessage(s)
	if err != nil {
		return s
	}
	k := fmt.Sprintf("%q %q ", m.Tags["msgid"], m.Tags["time"])
	m.Tags = nil
	return k + m.String()
}

func (n *p33Net) active() []*pushSub {
	var l []*pushSub
	for _, s := range n.subs {
		if s.active {
			l = append(l, s)
		}
	}
	return l
}

func (p *p33) owe(n *p33Net, raw string) {
	n.sent = append(n.sent, p33Sent{payloadKey(raw), time.Now()})
	for _, s := range n.active() {
		s.want[payloadKey(raw)]++
	}
}

func (p *p33) newSub(n *p33Net, path, host string) *pushSub {
	s := &pushSub{user: n.u.name, net: n.name, want: map[string]int{}, anyway: map[string]int{}}
	k, err := ecdh.P256().GenerateKey(crand.Reader)
	Must(err)
	s.priv = k
	s.auth = make([]byte, 16)
	crand.Read(s.auth)
	s.path = path
	s.url = "https://" + host + path
	return s
}

func (s *pushSub) keys(r *rand.Rand) string {
	enc := Pick(r, []*base64.Encoding{base64.RawURLEncoding, base64.RawURLEncoding, base64.StdEncoding, base64.URLEncoding})
	l := []string{"p256dh=" + enc.EncodeToString(s.priv.PublicKey().Bytes()), "auth=" + enc.EncodeToString(s.auth)}
	if r.Intn(2) == 0 {
		l[0], l[1] = l[1], l[0]
	}
	return strings.Join(l, ";")
}

var p33Note = payloadKey("NOTE WEBPUSH REGISTERED :Push notifications enabled")

// register sends a registration and returns whether it was accepted.
func (p *p33) register(n *p33Net, u, keys string) bool {
	from := n.cl.Mark()
	n.cl.Sendf("WEBPUSH %s %s %s", Pick(p.r, []string{"REGISTER", "REGISTER", "register"}), u, keys)
	n.cl.Sync()
	ok, bad := 0, 0
	for _, l := range n.cl.Since(from) {
		switch {
		case l.Command == "WEBPUSH" && l.P(0) == "REGISTER" && l.P(1) == u:
			ok++
		case l.Command == "FAIL" && l.P(0) == "WEBPUSH":
			bad++
		}
	}
	if ok+bad != 1 {
		n.cl.Dump()
		Failf("%d answers to a registration", ok+bad)
	}
	return ok == 1
}

func (p *p33) countDB(n *p33Net) int {
	l, err := p.w.DB.ListWebPushSubscriptions(context.Background(), n.u.rec.ID, n.id)
	Must(err)
	return len(l)
}

// waitDB waits until the database has the active registrations of n.
func (p *p33) waitDB(n *p33Net, what string) {
	for start := time.Now(); ; time.Sleep(time.Millisecond) {
		want := map[string]bool{}
		for _, s := range n.active() {
			want[s.url] = true
		}
		l, err := p.w.DB.ListWebPushSubscriptions(context.Background(), n.u.rec.ID, n.id)
		Must(err)
		bad := len(l) != len(want)
		for _, s := range l {
			bad = bad || !want[s.Endpoint]
		}
		if !bad {
			return
		}
		if time.Since(start) > Watchdog/3 {
			Failf("%s: %s/%s: registrations %v, want %v", what, n.u.name, n.name, l, want)
		}
	}
}

func (p *p33) step() {
	r := p.r
	n := Pick(r, p.nets())
	k := r.Intn(20)
	if len(n.active()) == 0 && r.Intn(2) == 0 {
		k = 0
	}
	uc := n.up.Last()
	switch {
	case k < 4: // a new registration
		p.settle("before a registration")
		if len(n.active()) > 4 {
			return
		}
		p.seq++
		host := Pick(r, p33Public)
		path := fmt.Sprintf("/%s/%d", p.t.Case.Name, p.seq)
		e := &pushEndpoint{mode: "ok", vapid: p.vapid, host: host}
		if r.Intn(6) == 0 && len(p.eps) > 0 { // an endpoint used elsewhere
			var l []string
			for q := range p.eps {
				l = append(l, q)
			}
			sort.Strings(l)
			path = Pick(r, l)
			e = p.eps[path]
			host = e.host
			for _, s := range e.subs {
				if s.user == n.u.name && s.net == n.name {
					return // it would replace the registration
				}
			}
			if e.mode == "404" || e.mode == "500" {
				return
			}
		}
		s := p.newSub(n, path, host)
		e.mu.Lock()
		e.mode = Pick(r, []string{"ok", "ok200", "slow", "ok"})
		e.subs = append(e.subs, s)
		e.mu.Unlock()
		p.eps[path] = e
		pushService.mu.Lock()
		pushService.paths[path] = e
		pushService.mu.Unlock()
		s.want[p33Note] = 1
		if !p.register(n, s.url, s.keys(r)) {
			n.cl.Dump()
			Failf("valid endpoint %q refused", s.url)
		}
		s.active = true
		for _, x := range n.sent { // the pushes may be on their way
			if time.Since(x.at) < 20*time.Second {
				s.anyway[x.key]++
			}
		}
		n.subs = append(n.subs, s)
		p.settle("registration")
		p.t.State("register %s %d", host, len(n.active()))
		p.waitDB(n, "registration")
	case k < 6: // refused registrations
		p.refused(n)
		p.waitDB(n, "refused registration")
	case k < 7: // again
		if len(n.active()) == 0 {
			return
		}
		s := Pick(r, n.active())
		e := p.eps[s.path]
		p.settle("before another registration")
		if r.Intn(2) == 0 { // same keys: nothing needs to be pushed
			s.anyway[p33Note]++
			l := "auth=" + b64u.EncodeToString(s.auth) + ";p256dh=" + b64u.EncodeToString(s.priv.PublicKey().Bytes())
			if !p.register(n, s.url, l) {
				n.cl.Dump()
				Failf("endpoint refused when registered again")
			}
			p.t.State("register again")
			break
		}
		ns := p.newSub(n, s.path, "x")
		ns.url = s.url
		e.mu.Lock()
		for i := range e.subs {
			if e.subs[i] == s {
				e.subs[i] = ns
			}
		}
		e.got, e.mode = nil, "ok"
		e.old, e.oldAt = append(e.old, s), time.Now()
		for _, o := range e.subs {
			o.want = map[string]int{} // what may come may also come late
		}
		e.mu.Unlock()
		ns.want[p33Note] = 1
		if !p.register(n, ns.url, ns.keys(r)) {
			n.cl.Dump()
			Failf("endpoint refused when its keys are replaced")
		}
		ns.active = true
		for i := range n.subs {
			if n.subs[i] == s {
				n.subs[i] = ns
			}
		}
		p.settle("keys replaced")
		p.waitDB(n, "keys replaced")
		p.t.State("replace %d", len(n.active()))
	case k < 8: // removal
		p.settle("before a removal")
		u := "https://push.example/nothing"
		if a := n.active(); len(a) > 0 && r.Intn(4) > 0 {
			s := Pick(r, a)
			u = s.url
			s.active = false
		}
		from := n.cl.Mark()
		n.cl.Sendf("WEBPUSH %s %s", Pick(r, []string{"UNREGISTER", "UNREGISTER", "Unregister"}), u)
		n.cl.Sync()
		ok := false
		for _, l := range n.cl.Since(from) {
			ok = ok || l.Command == "WEBPUSH" && l.P(0) == "UNREGISTER" && l.P(1) == u
		}
		if !ok {
			n.cl.Dump()
			Failf("UNREGISTER %s not acknowledged", u)
		}
		p.waitDB(n, "removal")
		p.t.State("unregister %d", len(n.active()))
	case k < 9: // an endpoint fails
		if len(n.active()) == 0 {
			return
		}
		p.settle("before a failure")
		s := Pick(r, n.active())
		e := p.eps[s.path]
		mode := Pick(r, []string{"404", "500", "429", "abort"})
		if len(e.subs) > 1 {
			mode = "500"
		}
		e.mu.Lock()
		e.mode = mode
		e.mu.Unlock()
		old := mode != "404" && r.Intn(3) == 0 && len(e.subs) == 1
		if old {
			db, err := sql.Open("sqlite3", p.w.DBPath)
			Must(err)
			_, err = db.Exec("UPDATE WebPushSubscription SET updated_at = ? WHERE endpoint = ?", time.Now().Add(-31*24*time.Hour).UTC().Format("2006-01-02T15:04:05.000Z"), s.url)
			Must(err)
			db.Close()
		}
		if mode == "abort" { // the client may try again
			for i := 1; i < 6; i++ {
				line := p.dm(n, uc, r)
				p.owe(n, line)
				s.anyway[payloadKey(line)] += 5
				uc.Send(line)
				uc.Sync()
				break
			}
		} else {
			line := p.dm(n, uc, r)
			p.owe(n, line)
			uc.Send(line)
			uc.Sync()
		}
		p.settle("with the endpoint answering " + mode)
		if mode == "404" || old {
			s.active = false
		}
		p.waitDB(n, "after the endpoint answered "+mode)
		e.mu.Lock()
		if mode != "404" {
			e.mode = "ok"
		}
		e.mu.Unlock()
		p.t.State("failure %s old=%v %d", mode, old, len(n.active()))
	case k < 10: // read markers
		p.marker(n)
	case k < 11:
		p.settle("before a network update")
		l := n.up.NumConns()
		out := strings.Join(n.cl.Service("network update -username u"+fmt.Sprint(p.seq)), " ")
		p.seq++
		if !strings.HasPrefix(out, "updated") {
			Failf("network update: %s", out)
		}
		n.up.Ready(l).Sync()
		n.up.Last().Sync()
		p.t.State("network update")
	case k < 12:
		if r.Intn(3) > 0 {
			return
		}
		p.settle("before a restart")
		p.w.Stop()
		p.w.Start()
		for _, o := range p.nets() {
			for start := time.Now(); ; time.Sleep(time.Millisecond) {
				if c := o.up.Newest(); !c.Closed() && c.Registered() && c.TrySync() {
					break
				}
				if time.Since(start) > Watchdog {
					panic(Stuck{"no connection after a restart"})
				}
			}
			o.lost = true
		}
		p.attach()
		p.t.State("restart")
	default: // events
		for i := 1 + r.Intn(4); i > 0; i-- {
			p.event(Pick(r, p.nets()))
		}
		if r.Intn(2) == 0 {
			p.settle("events")
		}
	}
}

func (p *p33) tags(r *rand.Rand) (string, time.Time) {
	p.now = p.now.Add(time.Duration(1+r.Intn(3000)) * time.Millisecond)
	s := "@time=" + p.now.Format("2006-01-02T15:04:05.000Z")
	p.seq++
	if r.Intn(3) > 0 {
		s += fmt.Sprintf(";msgid=id%d", p.seq)
	}
	switch r.Intn(6) {
	case 0:
		s += ";+draft/reply=" + strings.Repeat("x", 20)
	case 1:
		s += ";+long=" + strings.Repeat("y", Pick(r, []int{1000, 1900, 2500, 4000}))
	}
	return s, p.now
}

func (p *p33) text(r *rand.Rand) string {
	return Pick(r, []string{"hello", "\u00fc\u20ac", "\x01ACTION waves\x01", strings.Repeat("long ", 80), "a  b", ":)"}) + fmt.Sprintf(" %d", p.seq)
}

func (p *p33) dm(n *p33Net, uc *UpConn, r *rand.Rand) string {
	tags, tm := p.tags(r)
	n.push["mallory"] = tm
	return fmt.Sprintf("%s :mallory!m@h %s %s :%s", tags, Pick(r, []string{"PRIVMSG", "NOTICE"}), uc.CurNick(), p.text(r))
}

func (p *p33) event(n *p33Net) {
	r := p.r
	uc := n.up.Last()
	nick := uc.CurNick()
	tags, tm := p.tags(r)
	cmd := Pick(r, []string{"PRIVMSG", "PRIVMSG", "NOTICE"})
	from := Pick(r, []string{"mallory", "carol", "Dave"})
	src := from + "!u@h"
	hl := Pick(r, []string{nick + ": ping", "ping " + nick, nick, "well, " + nick + "!", "x " + nick + " y"}) + " " + p.text(r)
	must, may := false, false
	line, key := "", ""
	kind := r.Intn(15)
	switch kind {
	case 0, 1, 2:
		p.now = p.now.Add(time.Millisecond)
		line, must, key = p.dm(n, uc, r), true, ""
		p.t.State("dm %d", len(n.active()))
	case 3, 4:
		line, must, key = fmt.Sprintf("%s :%s %s #chan :%s", tags, src, cmd, hl), true, "#chan"
	case 5:
		line = fmt.Sprintf("%s :%s %s #chan :%s", tags, src, cmd, p.text(r)) // no highlight
	case 6:
		line = fmt.Sprintf("%s :%s %s #chan :%s", tags, uc.Prefix(), cmd, hl) // our own
	case 7:
		line = fmt.Sprintf("%s :%s PRIVMSG %s :own message %d", tags, uc.Prefix(), Pick(r, []string{"mallory", nick}), p.seq)
		may = strings.Contains(line, "PRIVMSG "+nick+" ") && false
	case 8:
		line = fmt.Sprintf("%s :%s NOTICE %s :server notice", tags, Pick(r, []string{n.up.Host, "BouncerServ!u@h"}), Pick(r, []string{nick, "*", "$$*"}))
	case 9:
		line = fmt.Sprintf("%s :%s %s %s :%s", tags, src, cmd, n.det, hl) // detached, no relay
	case 10:
		line, must, key = fmt.Sprintf("%s :%s %s #det :%s", tags, src, cmd, hl), true, "#det"
	case 11:
		line, must, key = fmt.Sprintf("%s :%s %s @#chan :%s", tags, src, cmd, hl), true, "#chan"
	case 12:
		line, must = fmt.Sprintf("%s :%s INVITE %s #other%d", tags, src, nick, p.seq), true
	case 13:
		line = fmt.Sprintf("%s :%s INVITE %s #other%d", tags, src, "someone", p.seq)
	default:
		line, may = fmt.Sprintf("%s;+typing=active :%s TAGMSG %s", tags, src, Pick(r, []string{nick, "#chan"})), true
	}
	if must {
		p.t.State("event %d subs %d", kind, len(n.active()))
		p.owe(n, line)
		if key != "" {
			n.push[key] = tm
		} else if kind < 3 {
		}
		p.t.Count("events to push", len(n.active()))
	} else {
		p.t.State("not pushed %d subs %d", kind, len(n.active()))
		p.t.Count("events not to push", 1)
	}
	if may {
		for _, s := range n.active() {
			s.anyway[payloadKey(line)]++
		}
		if strings.Contains(line, "TAGMSG "+nick) {
			n.push[from] = tm
		}
	}
	uc.Send(line)
	uc.Sync()
}

// marker reads a conversation.
func (p *p33) marker(n *p33Net) {
	r := p.r
	target := Pick(r, []string{"mallory", "#chan", "#det", "nobody"})
	tm := p.now.Add(time.Duration(r.Intn(20000)-5000) * time.Millisecond)
	pt, has := n.push[target]
	if has && r.Intn(2) == 0 {
		tm = pt
	}
	stamp := tm.UTC().Format("2006-01-02T15:04:05.000Z")
	advance := n.marks[target].Before(tm)
	if advance {
		n.marks[target] = tm
	}
	raw := fmt.Sprintf("MARKREAD %s timestamp=%s", target, stamp)
	if advance && has {
		for _, s := range n.active() {
			if n.lost {
				s.anyway[payloadKey(raw)]++
			} else {
				s.want[payloadKey(raw)]++
			}
		}
		if !tm.Before(pt) {
			delete(n.push, target)
		}
	}
	n.cl.Sendf("MARKREAD %s timestamp=%s", target, stamp)
	n.cl.Sync()
	p.t.State("marker advance=%v pushed=%v before=%v", advance, has, has && tm.Before(pt))
}

func (p *p33) refused(n *p33Net) {
	r := p.r
	s := p.newSub(n, "/refused", "push.example")
	keys := s.keys(r)
	u := s.url
	dial := false
	kind := r.Intn(6)
	switch kind {
	case 0:
		u = "https://" + Pick(r, []string{"127.0.0.1", "127.1.2.3:8443", "10.0.0.1", "192.168.1.1", "172.16.0.9:80", "[::1]", "[::1]:443", "[fd00::1]", "[::ffff:127.0.0.1]", "0.0.0.0", "0.0.0.0:443", "[::]", "169.254.169.254", "[fe80::1]", "224.0.0.1",
			"localhost", "localhost:443", "evil.example", "evil2.example", "evil6.example:443", "evil7.example", "nx.example", "user@127.0.0.1", "127.0.0.1:443@127.0.0.1"}) + "/x"
	case 1:
		u = Pick(r, []string{"http://push.example/x", "ftp://push.example/x", "push.example/x", "https://", "//push.example/x", "HTTP://push.example", "https:push.example/x"})
	case 2:
		keys = Pick(r, []string{"auth=xxxx", "p256dh=xxxx", "x=y", "auth", "auth=;p256dh="})
	case 3:
		keys = "auth=" + b64u.EncodeToString(s.auth) + ";p256dh=" + Pick(r, []string{"AAAA", "!!!!", b64u.EncodeToString(bytes.Repeat([]byte{4}, 65)), ""})
	default: // the endpoint doesn't work
		p.seq++
		path := fmt.Sprintf("/%s/bad%d", p.t.Case.Name, p.seq)
		u = "https://push.example" + path
		dial = true
		e := &pushEndpoint{mode: Pick(r, []string{"404", "500", "429", "abort"}), vapid: p.vapid, host: "push.example", subs: []*pushSub{s}}
		s.path, s.url = path, u
		s.anyway[p33Note] = 100
		p.eps[path] = e
		pushService.mu.Lock()
		pushService.paths[path] = e
		pushService.mu.Unlock()
	}
	pushService.mu.Lock()
	from := len(pushService.dials)
	pushService.mu.Unlock()
	if p.register(n, u, keys) {
		n.cl.Dump()
		Failf("registration accepted: %s %s", u, keys)
	}
	if pu, err := url.Parse(u); err == nil && !dial && p33Local(pu.Host) {
		h := pu.Host
		pushService.mu.Lock()
		for _, d := range pushService.dials[from:] {
			if p33Local(d) {
				pushService.mu.Unlock()
				Failf("registration of %s (%s) made the bouncer connect to %s", u, h, d)
			}
		}
		pushService.mu.Unlock()
	}
	p.t.State("refused %d %s", kind, strings.SplitN(strings.TrimSuffix(u, "/x"), "/push-", 2)[0])
}
