package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P13", Level: "exploration",
		Rule:   "one execution = one bouncer with several accounts (enabled, disabled, administrator, without password, similar names) under one authenticator (internal, HTTP, OAuth 2.0, table), and many connection attempts: PASS, SASL PLAIN with and without an authorization identity, bearer tokens, chunked, malformed, aborted and repeated exchanges, commands and BIND before authentication, with right, wrong, swapped and truncated credentials; a model gives the account (or none) each attempt is entitled to; every attempt must end in exactly that, nothing belonging to any account may appear before that, and refused attempts must leave the database unchanged. A situation is (authenticator, method, credential kind, account kind, outcome)",
		Assume: []string{"bcrypt and the token server are trusted"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "auth", e.N(120, 3000), p13Auth)
		},
	})
}

type p13Acct struct {
	name, pass string
	admin      bool
	disabled   bool
	unknown    bool // not in the database
	netID      string
}

var p13Hash sync.Map // password -> hash

func hashOf(pw string) string {
	if h, ok := p13Hash.Load(pw); ok {
		return h.(string)
	}
	u := database.NewUser("x")
	Must(u.SetPassword(pw))
	p13Hash.Store(pw, u.Password)
	return u.Password
}

func p13Auth(t *T) {
	r := t.Rng
	driver := Pick(r, []string{"internal", "fast", "fast", "http", "oauth2", "oauth2"})
	accts := []*p13Acct{
		{name: "alice", pass: "alice-Secret"},
		{name: "bob", pass: "bob pass:wörd"},
		{name: "Alice", pass: "other-Alice"},
		{name: "root", pass: "root-pw", admin: true},
		{name: "off", pass: "off-pw", disabled: true},
		{name: "offroot", pass: "offroot-pw", admin: true, disabled: true},
		{name: "nopw", pass: ""},
	}
	enableOnAuth := driver != "internal" && r.Intn(2) == 0
	table := map[string]string{}
	tokens := map[string]string{} // token -> user
	for _, a := range accts {
		if a.pass != "" {
			table[a.name] = a.pass
			tokens["tok-"+a.name] = a.name
			for _, n := range p13TokenLens {
				tokens["tok-"+a.name+p13Pad(a.name, n)] = a.name
			}
		}
	}
	// an account the authenticator knows but the bouncer does not
	ghost := &p13Acct{name: "ghost", pass: "ghost-pw", unknown: true}
	table["ghost"] = ghost.pass
	tokens["tok-ghost"] = "ghost"
	var mode sync.Map // username or token -> special behaviour of the auth server
	w := NewWorld(t, "memory")
	w.Auth.Set("ghost", ghost.pass)
	var ha *auth.Authenticator
	switch driver {
	case "http":
		srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			u, p, ok := req.BasicAuth()
			if m, has := mode.Load(u); has {
				rw.WriteHeader(m.(int))
				return
			}
			if want, known := table[u]; !ok || !known || want != p {
				rw.WriteHeader(403)
				return
			}
			rw.WriteHeader(200)
		}))
		t.CleanupLast(srv.Close)
		var err error
		ha, err = auth.New("http", srv.URL)
		Must(err)
	case "oauth2":
		var base string
		srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			if strings.Contains(req.URL.Path, ".well-known") {
				json.NewEncoder(rw).Encode(map[string]interface{}{"issuer": base, "introspection_endpoint": base + "/introspect", "introspection_endpoint_auth_methods_supported": []string{"none", "client_secret_basic"}})
				return
			}
			req.ParseForm()
			tok := req.PostForm.Get("token")
			rw.Header().Set("Content-Type", "application/json")
			switch {
			case tok == "tok-500":
				rw.WriteHeader(500)
				fmt.Fprint(rw, `{"active":true,"username":"alice"}`)
			case tok == "tok-nouser":
				fmt.Fprint(rw, `{"active":true}`)
			case tok == "tok-inactive":
				fmt.Fprint(rw, `{"active":false,"username":"alice"}`)
			case tok == "tok-garbage":
				fmt.Fprint(rw, `{"active":tr`)
			case tokens[tok] != "":
				json.NewEncoder(rw).Encode(map[string]interface{}{"active": true, "username": tokens[tok]})
			default:
				fmt.Fprint(rw, `{"active":false}`)
			}
		}))
		base = srv.URL
		t.CleanupLast(srv.Close)
		var err error
		ha, err = auth.New("oauth2", srv.URL)
		Must(err)
		if ha.Plain == nil {
			// as the configuration loader does
			ha.Plain = auth.OAuthPlainAuthenticator{OAuthBearer: ha.OAuthBearer}
		}
	case "internal":
		ha = auth.NewInternal()
	}
	w.Cfg = func(c *soju.Config) {
		if ha != nil {
			c.Auth = ha
		}
		c.EnableUsersOnAuth = enableOnAuth
	}
	up := NewUpstream(t, "up")
	up.Start()
	for _, a := range accts {
		a := a
		u := w.AddUser(a.name, a.admin, func(u *database.User) {
			u.Enabled = !a.disabled
			if driver == "internal" && a.pass != "" {
				u.Password = hashOf(a.pass)
			}
		})
		if a.pass == "" {
			w.Auth.Set(a.name, "\x00none")
		} else {
			w.Auth.Set(a.name, a.pass)
		}
		n := w.AddNetwork(u, "net", up, func(n *database.Network) {
			n.Enabled = false
			n.Realname = "secret-of-" + a.name + "."
			n.Nick = "nick-" + a.name + "-"
		})
		a.netID = fmt.Sprint(n.ID)
	}
	w.Start()
	if driver == "http" {
		for _, code := range []int{201, 302, 401, 500} {
			if r.Intn(3) == 0 {
				mode.Store("bob", code)
			}
		}
	}
	// accepts is the configured authenticator's verdict.
	accepts := func(user, pass string) bool {
		switch driver {
		case "oauth2":
			return pass != "" && tokens[pass] == user
		case "http":
			if _, ok := mode.Load(user); ok {
				return false
			}
		}
		if driver == "internal" && user == ghost.name {
			return false
		}
		want, ok := table[user]
		return ok && want == pass
	}
	find := func(name string) *p13Acct {
		for _, a := range append(accts, ghost) {
			if a.name == name {
				return a
			}
		}
		return nil
	}
	n := 25
	if driver == "internal" {
		n = 10
	}
	conc := 1 + r.Intn(3)
	var fs []func()
	for k := 0; k < conc; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		fs = append(fs, func() {
			for i := 0; i < n; i++ {
				p13Attempt(t, w, rr, driver, enableOnAuth, accts, ghost, accepts, find, tokens)
			}
		})
	}
	before := snapshotUsers(w.DB)
	guarded(fs...)
	after := snapshotUsers(w.DB)
	if enableOnAuth {
		// accounts may have been created or enabled: only the rest must be unchanged
		for _, name := range []string{"ghost", "off", "offroot"} {
			delete(before, name)
			delete(after, name)
		}
	}
	if d := snapDiff(before, after); d != "" {
		Failf("authentication attempts changed the database:\n%s", d)
	}
	w.CheckNoPanic()
}

// p13TokenLens are what is appended to a token to make it long: the answer then
// takes several messages, the last of them sometimes exactly full.
var p13TokenLens = []int{200, 255, 258, 261, 264, 267, 555, 558, 561, 564, 567, 900, 2500, 6000}

func p13Pad(name string, n int) string {
	return strings.Repeat("."+name, n)[:n]
}

func p13Attempt(t *T, w *World, r *rand.Rand, driver string, enableOnAuth bool, accts []*p13Acct, ghost *p13Acct, accepts func(u, p string) bool, find func(string) *p13Acct, tokens map[string]string) {
	all := append(append([]*p13Acct{}, accts...), ghost)
	c := w.Dial("attempt")
	defer c.Close()
	var desc []string
	note := func(format string, a ...interface{}) { desc = append(desc, fmt.Sprintf(format, a...)) }
	secret := func(a *p13Acct) string {
		if driver == "oauth2" {
			return "tok-" + a.name
		}
		return a.pass
	}
	cred := func() (user, pass, kind string) {
		a := Pick(r, all)
		user, pass, kind = a.name, secret(a), "right"
		switch r.Intn(10) {
		case 0, 1:
			kind = "wrong"
			pass = pass + "x"
		case 2:
			kind = "swapped"
			b := Pick(r, all)
			pass = secret(b)
			if pass == secret(a) {
				kind = "right"
			}
		case 3:
			kind = "short"
			if len(pass) > 1 {
				pass = pass[:len(pass)-1]
			} else {
				pass = "x"
			}
		case 4:
			kind = "unknown"
			user = Pick(r, []string{"nobody", "ALICE", "alice ", "roo", "", "*"})
		case 5:
			kind = "empty"
			pass = ""
		}
		return
	}
	suffix := func() string {
		return Pick(r, []string{"", "", "/net", "@phone", "/net@phone", "@phone/net"})
	}
	authed := ""     // account by SASL
	boundName := ""  // network suffix of the SASL username
	clientName := "" // client suffix of the SASL username
	split := func(s string) (user, cl, net string) {
		i := strings.IndexAny(s, "/@")
		if i < 0 {
			return s, "", ""
		}
		user, s = s[:i], s[i:]
		for s != "" {
			k := s[0]
			s = s[1:]
			j := strings.IndexAny(s, "/@")
			v := s
			if j >= 0 {
				v, s = s[:j], s[j:]
			} else {
				s = ""
			}
			if k == '@' {
				cl = v
			} else {
				net = v
			}
		}
		return
	}
	useCap := r.Intn(5) > 0
	method := "none"
	credKind := "-"
	// commands before authentication
	bind := ""
	junk := func() {
		if r.Intn(4) == 0 {
			cmd := Pick(r, []string{"BOUNCER LISTNETWORKS", "JOIN #x", "PRIVMSG BouncerServ :user status", "BOUNCER BIND 1", "BOUNCER DELNETWORK 1", "CHATHISTORY LATEST #x * 10", "WHO *", "AWAY :x", "BOUNCER ADDNETWORK host=127.0.0.1;port=1", "PING x", "PRIVMSG BouncerServ :user delete alice", "BOUNCERSERV :user status"})
			c.Send(cmd)
			if cmd == "BOUNCER BIND 1" && authed != "" {
				bind = "1"
			}
		}
	}
	junk()
	saslOK := false
	if useCap {
		c.Send("CAP LS 302", "CAP REQ :soju.im/bouncer-networks")
		junk()
		if r.Intn(10) > 0 {
			c.Send("CAP REQ :sasl")
			saslOK = true
		}
		for k, m := 0, r.Intn(4); k < m; k++ {
			from := c.Mark()
			mech := Pick(r, []string{"PLAIN", "PLAIN", "PLAIN", "plain", "ANONYMOUS", "OAUTHBEARER", "EXTERNAL"})
			if driver == "oauth2" && r.Intn(2) == 0 {
				mech = "OAUTHBEARER"
			}
			c.Send("AUTHENTICATE " + mech)
			i := c.Wait(from, "answer to AUTHENTICATE", func(l Line) bool {
				return l.Command == "AUTHENTICATE" || l.Command == "904" || l.Command == "906"
			})
			if i < 0 {
				break
			}
			if c.Lines()[i].Command != "AUTHENTICATE" {
				note("AUTHENTICATE %s refused", mech)
				t.State("%s|sasl-refused|%s|%v", driver, mech, saslOK)
				continue
			}
			if !saslOK {
				c.Dump()
				Failf("AUTHENTICATE was accepted without the sasl capability")
			}
			from = c.Mark()
			send := func(s string) {
				b := B64(s)
				for len(b) >= 400 {
					c.Send("AUTHENTICATE " + b[:400])
					b = b[400:]
				}
				if b == "" {
					b = "+"
				}
				c.Send("AUTHENTICATE " + b)
			}
			want := ""
			wantNet, wantClient := "", ""
			kind := ""
			switch strings.ToUpper(mech) {
			case "PLAIN":
				u, p, ck := cred()
				kind = ck
				sfx := suffix()
				full := u + sfx
				authz := ""
				switch r.Intn(6) {
				case 0:
					authz = full
				case 1, 2:
					// the unknown account only where it cannot come to exist
					from := all
					if enableOnAuth {
						from = accts
					}
					authz = Pick(r, from).name + suffix()
					kind += "+impersonate"
				case 3:
					authz = Pick(r, []string{"nobody", "*"})
					kind += "+impersonate-unknown"
				}
				if strings.ContainsRune(p, 0) {
					p = ""
				}
				if accepts(u, p) && u != "" {
					want, wantClient, wantNet = split(full)
					if authz != "" && authz != full {
						a := find(u)
						ok := a != nil && a.admin && !a.unknown && (!a.disabled || enableOnAuth)
						tu, tc, tn := split(authz)
						b := find(tu)
						if !ok || b == nil || b.unknown {
							want = ""
						} else {
							want, wantClient, wantNet = tu, tc, tn
						}
					}
				}
				note("SASL PLAIN authz=%q authc=%q pass=%q", authz, full, p)
				switch r.Intn(12) {
				case 0:
					c.Send("AUTHENTICATE *")
					want, kind = "", "aborted"
				case 1:
					c.Send("AUTHENTICATE !!!")
					want, kind = "", "malformed"
				case 2:
					send(full + "\x00" + p) // missing field
					want, kind = "", "malformed"
				case 3:
					send(authz + "\x00" + full + "\x00" + p + strings.Repeat("y", 400))
					want, kind = "", "long"
				default:
					send(authz + "\x00" + full + "\x00" + p)
				}
			case "OAUTHBEARER":
				a := Pick(r, all)
				tok := "tok-" + a.name
				who := a.name
				kind = "right"
				if r.Intn(3) == 0 { // real tokens are long
					tok += p13Pad(a.name, Pick(r, p13TokenLens))
					kind = "right, long"
				}
				switch r.Intn(8) {
				case 0:
					tok, who, kind = Pick(r, []string{"tok-500", "tok-nouser", "tok-inactive", "tok-garbage", "tok-", "nothing"}), "", "bad"
				case 1:
					kind = "mismatch"
					for who == a.name {
						who = Pick(r, all).name
					}
				case 2:
					who = ""
				}
				if driver == "oauth2" && tokens[tok] != "" && (who == "" || who == tokens[tok]) {
					want = tokens[tok]
				}
				gs := "n,"
				if who != "" {
					gs += "a=" + who
				}
				note("SASL OAUTHBEARER user=%q token=%q", who, tok)
				send(gs + ",\x01host=x\x01port=1\x01auth=Bearer " + tok + "\x01\x01")
			case "ANONYMOUS":
				kind = "anonymous"
				note("SASL ANONYMOUS")
				send("trace")
			}
			i = c.Wait(from, "end of SASL", func(l Line) bool {
				return l.Command == "903" || l.Command == "904" || l.Command == "906" || l.Command == "FAIL" || l.Command == "AUTHENTICATE" || l.Command == "ERROR"
			})
			res := ""
			if i >= 0 {
				res = c.Lines()[i].Command
			}
			if (res == "903") != (want != "") {
				c.Dump()
				Failf("%s authenticator: %s ended with %q, want success=%v", driver, desc[len(desc)-1], res, want != "")
			}
			if res == "903" {
				authed, boundName, clientName = want, wantNet, wantClient
			}
			t.State("%s|sasl|%s|%s|%v", driver, strings.ToUpper(mech), kind, want != "")
			t.Count("sasl_exchanges", 1)
			if i < 0 {
				if kind != "malformed" && kind != "long" {
					c.Dump()
					Failf("%s authenticator: the connection was closed after %s", driver, desc[len(desc)-1])
				}
				return // closing the connection is a refusal too
			}
			if res == "AUTHENTICATE" || res == "ERROR" {
				break
			}
			method, credKind = "sasl", kind
		}
		if r.Intn(5) == 0 {
			a := Pick(r, accts)
			c.Send("BOUNCER BIND "+a.netID, "PING bound")
			if authed != "" {
				bind = a.netID
			}
		}
	}
	user, pass, kind := cred()
	sfx := suffix()
	full := user + sfx
	if user == "" || strings.ContainsAny(user, " ") {
		user, full = "nobody", "nobody"
	}
	_, fc, fn := split(full)
	usePass := r.Intn(3) > 0
	if authed == "" && r.Intn(4) > 0 {
		usePass = true
	}
	if usePass && pass != "" {
		note("PASS %q USER %q", pass, full)
		c.Send("PASS :" + pass)
		if method == "none" {
			method, credKind = "pass", kind
		}
	} else {
		note("USER %q without PASS", full)
		pass = ""
	}
	id := authed
	if id == "" && pass != "" && accepts(user, pass) {
		id = user
		boundName, clientName = fn, fc
	}
	mismatch := false
	if clientName != "" && fc != "" && clientName != fc || boundName != "" && fn != "" && boundName != fn {
		mismatch = true
	}
	if boundName == "" {
		boundName = fn
	}
	junk()
	c.Send("NICK someone", "USER "+full+" 0 * :x")
	if useCap {
		c.Send("CAP END")
	}
	// trailing commands of an impatient client
	c.Send("BOUNCER LISTNETWORKS", "AWAY :still here", "PING end")
	end := c.Wait(0, "end of the attempt", func(l Line) bool {
		return l.Command == "PONG" && l.P(len(l.Params)-1) == "end"
	})
	lines := c.Lines()
	welcome := -1
	for i, l := range lines {
		if l.Command == "001" {
			welcome = i
			break
		}
	}
	a := find(id)
	ok := id != "" && !mismatch && a != nil
	if ok && a.unknown {
		ok = enableOnAuth
	}
	if ok && a.disabled {
		ok = enableOnAuth
	}
	if ok && bind != "" && bind != a.netID {
		ok = false
	}
	if ok && bind == "" && boundName != "" && a.unknown {
		ok = false // no such network
	}
	fail := func(format string, x ...interface{}) {
		c.Dump()
		Failf("%s authenticator (create accounts: %v), %s: %s", driver, enableOnAuth, strings.Join(desc, "; "), fmt.Sprintf(format, x...))
	}
	if (welcome >= 0) != ok {
		fail("access granted=%v, want %v as %q", welcome >= 0, ok, id)
	}
	for i, l := range lines {
		for _, b := range accts {
			if strings.Contains(l.Raw, "secret-of-"+b.name+".") || strings.Contains(l.Raw, "nick-"+b.name+"-") {
				if !ok || i < welcome || b.name != id {
					fail("the connection received %q", l.Raw)
				}
			}
		}
	}
	t.State("%s|%s|%s|%v|%v", driver, method, credKind, ok, a != nil && a.disabled)
	t.Count("attempts", 1)
	if !ok {
		if end >= 0 {
			fail("the refused connection still answers commands")
		}
		return
	}
	t.Count("granted", 1)
	if end < 0 {
		fail("the connection was closed although access was granted")
	}
	if a.unknown {
		return
	}
	seen := false
	for _, l := range lines {
		if l.Command == "BOUNCER" && l.P(0) == "NETWORK" {
			if l.P(1) != a.netID {
				fail("the connection of %q lists %q", id, l.Raw)
			}
			seen = true
		}
	}
	if !seen {
		fail("the networks of %q are not listed", id)
	}
}
