package checks

import (
	"context"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P23", Level: "stress_oracle",
		Rule:   "tls: one execution = a network reached by TLS through phases; in each the server presents a certificate (valid, other host, unknown authority, expired, another key) and the network's pinned fingerprint is none, right, wrong, of the authority, SHA-256 or SHA-512; the monitor counts connection attempts and what arrives after the handshake: nothing may arrive when the certificate neither verifies nor matches, and the session must come up, with its password, otherwise. sasl: one execution = a network whose saved credentials are changed by the service, by clients authenticating or registering an account on the network (accepted, refused, interrupted), by NickServ commands, and reset; after every step the database is compared with a model, and on every (re)connection, with all forms of capability announcements, the authentication made by the bouncer is decoded and compared. A situation is (certificate, pin) resp. (announcement, mechanism, operation, outcome)",
		Assume: []string{"certificate verification uses the process's system pool, replaced by the harness's own authority"},
		Cases: func(e *Env) []Case {
			l := Repeat(e, "tls", e.N(160, 3000), p23TLS)
			return append(l, Repeat(e, "sasl", e.N(500, 12000), p23SASL)...)
		},
	})
}

type p23Cert struct {
	kind  string
	cert  tls.Certificate
	valid bool
}

var p23Certs struct {
	once sync.Once
	l    []p23Cert
}

func p23AllCerts() []p23Cert {
	p23Certs.once.Do(func() {
		ok := []string{"127.0.0.1"}
		p23Certs.l = []p23Cert{
			{"valid", NewCert(CertOpts{Hosts: ok}), true},
			{"valid2", NewCert(CertOpts{Hosts: ok}), true},
			{"otherhost", NewCert(CertOpts{Hosts: []string{"127.0.0.2", "irc.example"}}), false},
			{"untrusted", NewCert(CertOpts{Hosts: ok, Untrusted: true}), false},
			{"expired", NewCert(CertOpts{Hosts: ok, Expired: true}), false},
		}
	})
	return p23Certs.l
}

func fp256(b []byte) string { s := sha256.Sum256(b); return hex.EncodeToString(s[:]) }
func fp512(b []byte) string { s := sha512.Sum512(b); return hex.EncodeToString(s[:]) }

func p23TLS(t *T) {
	r := t.Rng
	certs := p23AllCerts()
	w := NewWorld(t, "memory")
	u := w.AddUser("alice", false)
	up := NewUpstream(t, "net")
	up.Addr = "ircs://" + up.HostPort()
	var mu sync.Mutex
	cur := Pick(r, certs)
	up.TLS = &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
		mu.Lock()
		defer mu.Unlock()
		c := cur.cert
		return &c, nil
	}}
	if r.Intn(3) == 0 {
		up.TLS.MaxVersion = tls.VersionTLS12
	}
	up.Caps = []string{"sasl=PLAIN,EXTERNAL"}
	up.OnLine = evilSASL
	up.Start()
	pin := func(c p23Cert) (string, string, bool) {
		leaf, ca := c.cert.Certificate[0], c.cert.Certificate[1]
		other := Pick(r, certs).cert.Certificate[0]
		same := string(other) == string(leaf)
		switch r.Intn(10) {
		case 0, 1, 2:
			return "none", "", c.valid
		case 3:
			return "sha256", fp256(leaf), true
		case 4:
			return "sha512", fp512(leaf), true
		case 5:
			return "other256", fp256(other), same
		case 6:
			return "other512", fp512(other), same
		case 7:
			return "authority", fp512(ca), true
		case 8:
			f := []byte(fp256(leaf)) // one digit off
			i := r.Intn(len(f))
			if f[i] == '0' {
				f[i] = '1'
			} else {
				f[i] = '0'
			}
			return "close", string(f), false
		default:
			return "wronghash", fp512([]byte(fp256(leaf))), false
		}
	}
	kind, fp, ok := pin(cur)
	stored := func(fp string) string {
		switch len(fp) {
		case 64:
			return "sha-256:" + fp
		case 128:
			return "sha-512:" + fp
		}
		return ""
	}
	w.AddNetwork(u, "net", up, func(n *database.Network) {
		n.CertFP = stored(fp)
		n.Pass = "server-pass"
		n.SASL.Mechanism = "PLAIN"
		n.SASL.Plain.Username, n.SASL.Plain.Password = "acc", "sasl-pass"
		if r.Intn(3) == 0 {
			own := certs[0].cert
			key, err := x509.MarshalPKCS8PrivateKey(own.PrivateKey)
			Must(err)
			n.SASL.Mechanism = "EXTERNAL"
			n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = own.Certificate[0], key
		}
		t.State("tls with SASL %s", n.SASL.Mechanism)
	})
	w.Start()
	c := w.Connect(ClientOpts{User: "alice"})
	good := 0
	for phase := 0; ; phase++ {
		t.State("tls %s %s", cur.kind, kind)
		if ok {
			var uc *UpConn
			for {
				uc = up.Conn(good)
				good++
				if uc.TrySyncReg() {
					break
				}
			}
			if uc.Pass != "server-pass" {
				Failf("phase %d (%s certificate, %s fingerprint): the server password is %q", phase, cur.kind, kind, uc.Pass)
			}
			t.Count("sessions established", 1)
		} else {
			n0 := up.Attempts.Load()
			start := time.Now()
			for up.Attempts.Load() < n0+3 {
				if time.Since(start) > Watchdog {
					panic(Stuck{"the bouncer stopped trying to connect"})
				}
				time.Sleep(time.Millisecond)
			}
			t.Count("refused connections", 3)
		}
		if n := up.NumConns(); n > good {
			bad := up.Conn(n - 1)
			if !ok {
				Failf("phase %d: the bouncer accepted a server with a %s certificate and a %s fingerprint; it sent %v", phase, cur.kind, kind, bad.Lines())
			}
		}
		if phase == 3 {
			break
		}
		// Next phase: change the pin (which reconnects) and the certificate
		for _, x := range []int{0} {
			_ = x
			next := Pick(r, certs)
			k2, fp2, ok2 := pin(next)
			// While the settings change, only what satisfies neither may
			// be relied on: stop the network meanwhile.
			if l := c.Service("network update net -enabled false"); len(l) == 0 || !strings.Contains(l[0], "updated") {
				Failf("network update: %v", l)
			}
			w.WaitUpstreams(0)
			good = up.NumConns()
			mu.Lock()
			cur = next
			mu.Unlock()
			arg := fp2
			if r.Intn(2) == 0 {
				arg = strings.ToUpper(arg)
			}
			if r.Intn(3) == 0 && arg != "" {
				var parts []string
				for i := 0; i < len(arg); i += 2 {
					parts = append(parts, arg[i:i+2])
				}
				arg = strings.Join(parts, ":")
			}
			if l := c.Service(fmt.Sprintf("network update net -enabled true -certfp %q", arg)); len(l) == 0 || !strings.Contains(l[0], "updated") {
				Failf("network update: %v", l)
			}
			kind, fp, ok = k2, fp2, ok2
		}
	}
	w.CheckNoPanic()
}

type p23Model struct{ mech, user, pass string }

func p23SASL(t *T) {
	r := t.Rng
	w := NewWorld(t, "memory")
	u := w.AddUser("alice", false)
	up := NewUpstream(t, "net")
	useTLS := r.Intn(3) == 0
	if useTLS {
		up.Addr = "ircs://" + up.HostPort()
		up.TLS = &tls.Config{Certificates: []tls.Certificate{p23AllCerts()[0].cert}, ClientAuth: tls.RequestClientCert}
	}
	var mu sync.Mutex
	certs := map[int][]byte{}
	up.PeerCert = func(i int, der []byte) { mu.Lock(); certs[i] = der; mu.Unlock() }
	type style struct {
		name  string
		caps  []string
		lines func(nick string) []string
		nak   bool
	}
	filler := []string{"away-notify", "account-notify", "cap-notify", "draft/account-registration"}
	mk := func(name string, saslCap string, form int, nak bool) style {
		s := style{name: fmt.Sprintf("%s/%d/%v", name, form, nak), caps: append([]string{}, filler...), nak: nak}
		if saslCap != "" {
			s.caps = append(s.caps, saslCap)
		}
		all := s.caps
		s.lines = func(nick string) []string {
			p := ":" + up.Host
			switch form {
			case 0:
				return []string{p + " CAP * LS :" + strings.Join(all, " ")}
			case 1:
				return []string{p + " CAP * LS * :" + strings.Join(all[:2], " "), p + " CAP * LS :" + strings.Join(all[2:], " ")}
			case 2:
				return []string{p + " CAP " + nick + " LS * :" + strings.Join(all[:2], " "), p + " CAP " + nick + " LS :" + strings.Join(all[2:], " ")}
			case 3:
				return []string{p + " CAP * LS * :" + all[len(all)-1], p + " CAP * LS * :" + strings.Join(all[:2], " "), p + " CAP * LS :" + strings.Join(all[2:len(all)-1], " ")}
			default:
				return []string{p + " CAP " + nick + " LS :" + strings.Join(all, " ")}
			}
		}
		return s
	}
	saslCaps := []string{"sasl", "sasl=PLAIN", "sasl=EXTERNAL", "sasl=PLAIN,EXTERNAL", "sasl=SCRAM-SHA-256,plain", ""}
	supports := func(s style, mech string) bool {
		for _, c := range s.caps {
			k, v, has := strings.Cut(c, "=")
			if k != "sasl" {
				continue
			}
			if !has {
				return true
			}
			for _, m := range strings.Split(v, ",") {
				if strings.EqualFold(m, mech) {
					return true
				}
			}
		}
		return false
	}
	var st style
	newStyle := func() {
		s := Pick(r, saslCaps)
		mu.Lock()
		st = mk(nz(s), s, r.Intn(5), r.Intn(6) == 0)
		mu.Unlock()
	}
	newStyle()
	cst := func() style { mu.Lock(); defer mu.Unlock(); return st }
	up.CapLS = func(c *UpConn) []string {
		s := cst()
		c.Up.Caps = s.caps // what REQ is checked against
		return s.lines("alice")
	}
	outcome := "ok" // how the server answers authentications
	accept := func() string { mu.Lock(); defer mu.Unlock(); return outcome }
	setOutcome := func(s string) { mu.Lock(); outcome = s; mu.Unlock() }
	up.OnLine = func(c *UpConn, l Line) bool {
		nick := nz(c.CurNick())
		switch l.Command {
		case "CAP":
			if l.P(0) == "REQ" && cst().nak && strings.Contains(l.P(1), "sasl") {
				c.Sendf(":%s CAP %s NAK :%s", up.Host, nick, l.P(1))
				return true
			}
		case "AUTHENTICATE":
			switch p := l.P(0); {
			case p == "PLAIN" || p == "EXTERNAL":
				if accept() == "refuse-early" {
					c.Sendf(":%s 904 %s :no", up.Host, nick)
				} else {
					c.Send("AUTHENTICATE +")
				}
			case p == "*":
				c.Sendf(":%s 906 %s :aborted", up.Host, nick)
			case len(p) == 400:
			default:
				switch accept() {
				case "ok":
					c.Sendf(":%s 900 %s %s acc :logged in", up.Host, nick, nick+"!u@h")
					c.Sendf(":%s 903 %s :ok", up.Host, nick)
				case "locked":
					c.Sendf(":%s 902 %s :locked", up.Host, nick)
				case "long":
					c.Sendf(":%s 905 %s :too long", up.Host, nick)
				case "vanish":
					c.Peer.Close()
				case "silent":
				default:
					c.Sendf(":%s 904 %s :failed", up.Host, nick)
				}
			}
			return true
		case "REGISTER":
			switch accept() {
			case "ok":
				c.Sendf(":%s REGISTER %s %s :done", up.Host, Pick(t.Rng, []string{"SUCCESS", "VERIFICATION_REQUIRED"}), l.P(0))
			case "vanish":
				c.Peer.Close()
			default:
				c.Sendf(":%s FAIL REGISTER BAD_ACCOUNT_NAME %s :no", up.Host, l.P(0))
			}
			return true
		}
		return false
	}
	up.Start()
	var m p23Model
	if r.Intn(2) == 0 {
		m = p23Model{"PLAIN", "stored", "stored-pw"}
	}
	net := w.AddNetwork(u, "net", up, func(n *database.Network) {
		n.SASL.Mechanism, n.SASL.Plain.Username, n.SASL.Plain.Password = m.mech, m.user, m.pass
	})
	w.Start()
	idx := 0
	verify := func(uc *UpConn, what string) {
		// The authentication the bouncer made when connecting
		var mech, payload string
		n := 0
		for _, l := range uc.Lines() {
			if l.Command == "CAP" && l.P(0) == "END" {
				break
			}
			if l.Command != "AUTHENTICATE" {
				continue
			}
			if mech == "" {
				mech = l.P(0)
			} else {
				n++
				payload += strings.TrimSuffix(l.P(0), "+")
			}
		}
		s := cst()
		want := ""
		if m.mech != "" && supports(s, m.mech) && !s.nak {
			want = m.mech
		}
		t.State("connect %s %s", s.name, m.mech)
		t.Count("connections checked", 1)
		if mech != want {
			uc.Dump()
			Failf("%s: the network announces %q, the saved mechanism is %q, but the bouncer authenticated with %q", what, s.caps, m.mech, mech)
		}
		if mech == "PLAIN" {
			b, err := base64.StdEncoding.DecodeString(payload)
			wantP := "\x00" + m.user + "\x00" + m.pass
			if err != nil || string(b) != wantP {
				uc.Dump()
				Failf("%s: authenticated with %q, saved credentials are %q", what, b, wantP)
			}
			if wn := len(base64.StdEncoding.EncodeToString([]byte(wantP)))/400 + 1; n != wn {
				Failf("%s: %d response lines, want %d", what, n, wn)
			}
		} else if payload != "" {
			Failf("%s: unexpected response %q", what, payload)
		}
		if useTLS {
			mu.Lock()
			cert := certs[uc.Index]
			mu.Unlock()
			var saved []byte
			if m.mech == "EXTERNAL" {
				rec := p23Net(w, u, net.ID)
				saved = rec.SASL.External.CertBlob
			}
			if string(cert) != string(saved) {
				Failf("%s: client certificate of %d bytes presented, saved one has %d bytes", what, len(cert), len(saved))
			}
		}
	}
	connected := func(what string) *UpConn {
		for {
			uc := up.Conn(idx)
			if uc.TrySyncReg() {
				verify(uc, what)
				return uc
			}
			idx++
		}
	}
	uc := connected("start")
	checkDB := func(what string) {
		rec := p23Net(w, u, net.ID)
		if rec.SASL.Mechanism != m.mech || (m.mech == "PLAIN" && (rec.SASL.Plain.Username != m.user || rec.SASL.Plain.Password != m.pass)) || (m.mech == "" && (rec.SASL.Plain.Username != "" || rec.SASL.Plain.Password != "")) {
			Failf("%s: saved credentials are %q %q %q, want %q", what, rec.SASL.Mechanism, rec.SASL.Plain.Username, rec.SASL.Plain.Password, m)
		}
		t.Count("saved credentials compared", 1)
	}
	c := w.Connect(ClientOpts{User: "alice", Network: "net", Caps: []string{"sasl", "cap-notify", "draft/account-registration"}})
	c2 := w.Connect(ClientOpts{User: "alice", Network: "net", Client: "other"})
	n := 6 + r.Intn(10)
	for i := 0; i < n; i++ {
		user, pass := fmt.Sprintf("u%d", i), Pick(r, []string{fmt.Sprintf("p%d", i), strings.Repeat("x", Pick(r, []int{290, 296, 297, 298, 299, 300, 700})) + fmt.Sprint(i)})
		what := fmt.Sprintf("step %d", i)
		nick := uc.CurNick()
		savable := m.mech == "" || m.mech == "PLAIN"
		reconnected := false
		switch op := r.Intn(9); op {
		case 0:
			what += " sasl set-plain"
			c2.Service("sasl set-plain -network net " + user + " " + pass)
			m = p23Model{"PLAIN", user, pass}
		case 1:
			if r.Intn(2) == 0 {
				what += " sasl reset"
				c2.Service("sasl reset -network net")
				m = p23Model{}
			} else {
				what += " certfp generate"
				c2.Service("certfp generate -network net -key-type " + Pick(r, []string{"ed25519", "ecdsa"}))
				m = p23Model{mech: "EXTERNAL"}
			}
		case 2, 3: // NickServ
			cmds := []struct{ line, user, pass string }{
				{"IDENTIFY " + pass, nick, pass}, {"identify " + user + " " + pass, user, pass},
				{"REGISTER " + pass + " a@b", nick, pass}, {"SET PASSWORD " + pass, nick, pass}, {"set password " + pass, nick, pass},
				{"SET EMAIL " + pass, "", ""}, {"SET ENFORCE on", "", ""}, {"INFO " + user, "", ""}, {"HELP", "", ""}, {"IDENTIFY", "", ""}, {"GHOST x " + pass, "", ""}, {"SET PASSWORD", "", ""}, {"hello IDENTIFY " + pass, "", ""},
			}
			x := Pick(r, cmds)
			what += " NickServ " + strings.SplitN(x.line, " ", 3)[0]
			t.State("nickserv %s %s", x.line[:3], m.mech)
			c.Sendf("PRIVMSG %s :%s", Pick(r, []string{"NickServ", "nickserv"}), x.line)
			c.Sync()
			if x.pass != "" && savable {
				m = p23Model{"PLAIN", x.user, x.pass}
			}
		case 4, 5: // authentication by a client
			out := Pick(r, []string{"ok", "ok", "fail", "refuse-early", "locked", "long", "vanish"})
			what += " AUTHENTICATE " + out
			t.State("authenticate %s %s", out, m.mech)
			if !uc.HasCap("sasl") || !supports(cst(), "PLAIN") {
				break
			}
			if m.mech != "" && supports(cst(), m.mech) && out == "vanish" {
				out = "fail" // it would vanish again on reconnection
			}
			setOutcome(out)
			from := c.Mark()
			c.Send("CAP REQ sasl", "AUTHENTICATE PLAIN")
			c.Sync()
			for _, l := range p23Chunks("\x00" + user + "\x00" + pass) {
				c.Send(l)
			}
			if out == "vanish" {
				uc.Peer.WaitClosed("vanish")
				idx++
				setOutcome("ok")
				uc = connected(what)
				reconnected = true
			} else {
				i := c.Wait(from, "SASL outcome", func(l Line) bool {
					return l.Command == "903" || l.Command == "904" || l.Command == "902" || l.Command == "905" || l.Command == "906"
				})
				if i < 0 {
					Failf("%s: client disconnected", what)
				}
				got := c.Lines()[i].Command
				if (got == "903") != (out == "ok") {
					Failf("%s: the client is told %q", what, c.Lines()[i].Raw)
				}
				if out == "ok" && savable {
					m = p23Model{"PLAIN", user, pass}
				}
			}
			setOutcome("ok")
		case 6: // account registration
			if !uc.HasCap("draft/account-registration") {
				break
			}
			out := Pick(r, []string{"ok", "ok", "fail"})
			setOutcome(out)
			what += " REGISTER " + out
			t.State("register %s %s", out, m.mech)
			from := c.Mark()
			c.Sendf("REGISTER %s * :%s", user, pass)
			if c.Wait(from, "REGISTER outcome", func(l Line) bool { return l.Command == "REGISTER" || l.Command == "FAIL" }) < 0 {
				Failf("%s: client disconnected", what)
			}
			if out == "ok" && savable {
				m = p23Model{"PLAIN", user, pass}
			}
			setOutcome("ok")
		case 7: // unsolicited results
			what += " unsolicited"
			uc.Sendf(":%s 903 %s :ok", up.Host, nick)
			uc.Sendf(":%s 904 %s :no", up.Host, nick)
			uc.Sync()
		default: // the server refuses the saved credentials
			what += " refused at connection"
			newStyle()
			setOutcome(Pick(r, []string{"fail", "refuse-early", "locked"}))
			uc.Peer.Close()
			idx++
			for {
				x := up.Conn(idx)
				if x.TrySyncReg() {
					uc = x
					break
				}
				idx++
			}
			setOutcome("ok")
			reconnected = true
			t.State("refused %s", m.mech)
		}
		c.Sync()
		checkDB(what)
		if !reconnected && r.Intn(2) == 0 {
			newStyle()
			uc.Peer.Close()
			idx++
			uc = connected(what + ", reconnected")
			checkDB(what + ", reconnected")
		}
	}
	if r.Intn(2) == 0 {
		w.Stop()
		w.Start()
		idx = up.NumConns()
		for uc.Closed() == false {
			time.Sleep(time.Millisecond)
		}
		idx = uc.Index + 1
		connected("restarted")
	}
	w.CheckNoPanic()
}

func p23Net(w *World, u *database.User, id int64) database.Network {
	l, err := w.DB.ListNetworks(context.Background(), u.ID)
	Must(err)
	for _, n := range l {
		if n.ID == id {
			return n
		}
	}
	Failf("the network is gone")
	panic("")
}

func p23Chunks(s string) []string {
	b := B64(s)
	var l []string
	for {
		n := min(400, len(b))
		if n == 0 {
			return append(l, "AUTHENTICATE +")
		}
		l = append(l, "AUTHENTICATE "+b[:n])
		b = b[n:]
		if n < 400 {
			return l
		}
	}
}
