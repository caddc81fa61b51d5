package checks

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"mime"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/fileupload"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P26", Level: "stress_oracle",
		Rule:   "fs: random sequences of uploads (valid, wrong, missing, disabled and other users' credentials; ordinary and path-like user and file names; every kind of content type and body), fetches (whole, ranges, HEAD), interrupted and malformed transfers, other methods and raw hostile request paths against the real handler; after every operation the monitor walks the whole scratch tree (only accepted files, below one directory per user, nothing else changed) and compares every file served with what was accepted. size: the 50 MiB limit at and one past the boundary, announced and chunked. race: many simultaneous uploads of one name. origin: random allow lists and origins against an independent rule. backend: what reaches an HTTP backend and what its answers become. binary: the same through the real executable and its configuration. A situation is (case, kind of credentials, name, type, outcome)",
		Assume: []string{"upload directory is only written by the bouncer"},
		Cases: func(e *Env) []Case {
			c := Repeat(e, "fs", e.N(110, 3000), p26FS)
			c = append(c, Repeat(e, "size", e.N(1, 5), p26Size)...)
			c = append(c, Repeat(e, "race", e.N(6, 200), p26Race)...)
			c = append(c, Repeat(e, "origin", e.N(30, 1000), p26Origin)...)
			c = append(c, Repeat(e, "backend", e.N(15, 500), p26Backend)...)
			return append(c, Repeat(e, "binary", e.N(2, 30), p26Binary)...)
		},
	})
}

type p26Auth struct {
	pw  map[string]string
	tok map[string]string
}

func (a p26Auth) AuthPlain(ctx context.Context, db database.Database, username, password string) error {
	if p, ok := a.pw[username]; ok && p == password {
		return nil
	}
	return errors.New("bad password")
}

func (a p26Auth) AuthOAuthBearer(ctx context.Context, db database.Database, token string) (string, error) {
	if u, ok := a.tok[token]; ok {
		return u, nil
	}
	return "", errors.New("bad token")
}

type p26Up struct {
	user, loc string
	body      []byte
	name      string
}

type p26Site struct {
	t        *T
	dir, up  string
	srv      *httptest.Server
	auth     p26Auth
	active   int64
	started  int64
	users    []string
	disabled map[string]bool
	outside  string
	mu       sync.Mutex
	got      []*p26Up
	dirOf    map[string]string
}

func p26New(t *T, users []string, mod func(*fileupload.Handler)) *p26Site {
	s := &p26Site{t: t, dir: t.Dir(), users: users, disabled: map[string]bool{}, dirOf: map[string]string{}}
	s.auth = p26Auth{map[string]string{}, map[string]string{}}
	w := NewWorld(t, "memory")
	for i, u := range users {
		w.AddUser(u, i == 0)
		s.auth.pw[u] = "pw-" + u
		s.auth.tok["tok-"+ShortHash(u)] = u
	}
	dis := "disabled"
	w.AddUser(dis, false, func(u *database.User) { u.Enabled = false })
	s.auth.pw[dis] = "pw-" + dis
	s.auth.tok["tok-"+ShortHash(dis)] = dis
	s.disabled[dis] = true

	s.up = filepath.Join(s.dir, "a", "b", "up")
	Must(os.MkdirAll(s.up, 0700))
	for _, f := range []string{"secret.txt", "a/secret.txt", "a/b/secret.txt", "a/b/up-evil.txt", "a/b/upload/secret.txt"} {
		Must(os.MkdirAll(filepath.Dir(filepath.Join(s.dir, f)), 0700))
		Must(os.WriteFile(filepath.Join(s.dir, f), []byte("SECRET-CANARY "+f), 0600))
	}
	u, err := fileupload.New("fs", s.up)
	Must(err)
	hd := &fileupload.Handler{Uploader: u, Auth: &auth.Authenticator{Plain: s.auth, OAuthBearer: s.auth}, DB: w.DB}
	if mod != nil {
		mod(hd)
	}
	s.outside = s.outsideTree()
	var inner http.Handler = hd
	if t.Rng.Intn(2) == 0 {
		// as mounted by the executable
		mux := http.NewServeMux()
		mux.Handle("/uploads", hd)
		mux.Handle("/uploads/", hd)
		inner = mux
	}
	s.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, rq *http.Request) {
		atomic.AddInt64(&s.started, 1)
		atomic.AddInt64(&s.active, 1)
		defer atomic.AddInt64(&s.active, -1)
		inner.ServeHTTP(rw, rq)
	}))
	s.srv.Config.ErrorLog = nil
	s.srv.Start()
	t.Cleanup(func() { s.srv.CloseClientConnections(); s.srv.Close() })
	return s
}

func (s *p26Site) outsideTree() string {
	var b strings.Builder
	filepath.Walk(s.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || strings.Contains(filepath.Base(p), ".db") || strings.HasSuffix(p, "-journal") {
			return nil
		}
		if p == s.up {
			fmt.Fprintf(&b, "%s\n", p)
			return filepath.SkipDir
		}
		c := ""
		if fi.Mode().IsRegular() {
			d, _ := os.ReadFile(p)
			c = string(d)
		}
		fmt.Fprintf(&b, "%s %v %q\n", p, fi.Mode(), c)
		return nil
	})
	return b.String()
}

// quiet waits until no request is being handled.
func (s *p26Site) quiet(started int64) {
	Until("request handlers finish", func() bool {
		return atomic.LoadInt64(&s.started) >= started && atomic.LoadInt64(&s.active) == 0
	})
}

// tree checks the upload directory against the accepted uploads.
func (s *p26Site) tree(after string) {
	if o := s.outsideTree(); o != s.outside {
		Failf("%s changed files outside the upload directory: %s", after, StrDiff(s.outside, o))
	}
	type key struct{ sum, dir string }
	have := map[[32]byte][]string{}
	n := 0
	filepath.Walk(s.up, func(p string, fi os.FileInfo, err error) error {
		Must(err)
		if fi.IsDir() {
			return nil
		}
		if !fi.Mode().IsRegular() {
			Failf("%s left %s, which is not a file", after, p)
		}
		if fi.Mode().Perm()&0077 != 0 {
			Failf("upload %s is accessible to other accounts: %v", p, fi.Mode())
		}
		d, err := os.ReadFile(p)
		Must(err)
		rel, _ := filepath.Rel(s.up, p)
		have[sha256.Sum256(d)] = append(have[sha256.Sum256(d)], rel)
		n++
		return nil
	})
	s.mu.Lock()
	defer s.mu.Unlock()
	if n != len(s.got) {
		Failf("after %s the upload directory has %d files, %d uploads were accepted: %v", after, n, len(s.got), have)
	}
	owner := map[string]string{}
	for _, g := range s.got {
		l := have[sha256.Sum256(g.body)]
		if len(l) == 0 {
			Failf("after %s the upload of %q at %s is missing or altered on disk", after, g.user, g.loc)
		}
		if len(g.body) < 16 {
			continue // several uploads may have equal bytes
		}
		if len(l) != 1 {
			Failf("after %s one upload is stored as %v", after, l)
		}
		parts := strings.Split(filepath.ToSlash(l[0]), "/")
		if len(parts) != 2 {
			Failf("upload of %q is stored as %q: not in a directory of its own user", g.user, l[0])
		}
		if d, ok := s.dirOf[g.user]; ok && d != parts[0] {
			Failf("uploads of %q are stored in %q and %q", g.user, d, parts[0])
		}
		s.dirOf[g.user] = parts[0]
		if o, ok := owner[parts[0]]; ok && o != g.user {
			Failf("uploads of %q and %q share the directory %q", g.user, o, parts[0])
		}
		owner[parts[0]] = g.user
	}
	s.t.Count("tree walks", 1)
}

type p26Req struct {
	method, path, auth, origin, ctype, cdisp string
	body                                     []byte
	chunked                                  bool
	hdr                                      map[string]string
}

func (s *p26Site) do(q p26Req) (*http.Response, []byte) { return p26Do(s.srv.URL, nil, q) }

func p26Do(base string, cl *http.Client, q p26Req) (*http.Response, []byte) {
	var body io.Reader
	if q.body != nil {
		body = bytes.NewReader(q.body)
		if q.chunked {
			body = struct{ io.Reader }{body}
		}
	}
	rq, err := http.NewRequest(q.method, base+q.path, body)
	Must(err)
	for k, v := range map[string]string{"Authorization": q.auth, "Origin": q.origin, "Content-Type": q.ctype, "Content-Disposition": q.cdisp} {
		if v != "" {
			rq.Header.Set(k, v)
		}
	}
	for k, v := range q.hdr {
		rq.Header.Set(k, v)
	}
	if cl == nil {
		cl = &http.Client{}
	}
	cl.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	cl.Timeout = Watchdog
	rs, err := cl.Do(rq)
	if err != nil {
		if strings.Contains(err.Error(), "Timeout") {
			panic(Stuck{err.Error()})
		}
		panic(fmt.Errorf("request failed: %v", err))
	}
	defer rs.Body.Close()
	d, err := io.ReadAll(rs.Body)
	if err != nil && q.method != "HEAD" {
		Failf("%s %s: the response body ended early: %v", q.method, q.path, err)
	}
	return rs, d
}

func basicAuth(u, p string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
}

// p26Headers checks the headers every answer must have.
func p26Headers(what string, rs *http.Response) {
	csp := rs.Header.Get("Content-Security-Policy")
	sandbox, noScript := false, false
	for _, d := range strings.Split(csp, ";") {
		f := strings.Fields(d)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "sandbox":
			sandbox = true
			for _, x := range f[1:] {
				if x == "allow-scripts" || x == "allow-same-origin" {
					Failf("%s: the sandbox allows scripts or the origin: %q", what, csp)
				}
			}
		case "script-src":
			noScript = len(f) == 2 && f[1] == "'none'"
		}
	}
	if !sandbox || !noScript {
		Failf("%s: content is not sandboxed: Content-Security-Policy %q", what, csp)
	}
}

func p26Passive(ct string) bool {
	mt, _, err := mime.ParseMediaType(ct)
	if err != nil {
		return false
	}
	if mt == "application/pdf" || mt == "text/plain" {
		return true
	}
	major, minor, _ := strings.Cut(mt, "/")
	return (major == "image" && !strings.Contains(minor, "svg") && !strings.Contains(minor, "xml")) || major == "audio" || major == "video"
}

// fetch checks what is served for an accepted upload.
func (s *p26Site) fetch(g *p26Up) {
	what := fmt.Sprintf("GET %s (uploaded by %q as %q)", g.loc, g.user, g.name)
	rs, d := s.do(p26Req{method: "GET", path: g.loc})
	if rs.StatusCode != 200 {
		Failf("%s: status %d %q", what, rs.StatusCode, d)
	}
	if !bytes.Equal(d, g.body) {
		Failf("%s: %d bytes served, %d uploaded: %s", what, len(d), len(g.body), StrDiff(string(g.body), string(d)))
	}
	if rs.ContentLength >= 0 && rs.ContentLength != int64(len(g.body)) {
		Failf("%s: Content-Length %d", what, rs.ContentLength)
	}
	p26Headers(what, rs)
	ct := rs.Header.Get("Content-Type")
	disp, params, err := mime.ParseMediaType(rs.Header.Get("Content-Disposition"))
	if err != nil {
		Failf("%s: Content-Disposition %q: %v", what, rs.Header.Get("Content-Disposition"), err)
	}
	if disp != "attachment" && !p26Passive(ct) {
		Failf("%s: %q content is served %s", what, ct, disp)
	}
	s.t.State("served %s %s", disp, strings.Split(ct, ";")[0])
	if base := path.Base(g.name); g.name != "" && base != "." && base != "/" && base != ".." {
		if !strings.HasPrefix(params["filename"], base) {
			Failf("%s: file name shown is %q", what, params["filename"])
		}
	}
	if n := len(g.body); n > 3 && s.t.Rng.Intn(3) == 0 {
		a := s.t.Rng.Intn(n - 1)
		b := a + s.t.Rng.Intn(n-a)
		rs, d := s.do(p26Req{method: "GET", path: g.loc, hdr: map[string]string{"Range": fmt.Sprintf("bytes=%d-%d", a, b)}})
		if rs.StatusCode != 206 || !bytes.Equal(d, g.body[a:b+1]) {
			Failf("%s: range %d-%d: status %d, %d bytes", what, a, b, rs.StatusCode, len(d))
		}
	}
	if s.t.Rng.Intn(4) == 0 {
		rs, d := s.do(p26Req{method: "HEAD", path: g.loc})
		if rs.StatusCode != 200 || len(d) != 0 || rs.ContentLength != int64(len(g.body)) {
			Failf("%s: HEAD: status %d length %d", what, rs.StatusCode, rs.ContentLength)
		}
	}
	s.t.Count("fetches compared", 1)
}

func p26FileName(r *rand.Rand, dir string) string {
	return Pick(r, []string{
		"", "photo.png", "page.html", "x.svg", "notes", "archive.tar.gz", "a-b.txt", "-", "--x", "UP.HTML", "s.xhtml", "x.js", "x.mjs", "x.xml", "x.pdf", "x.jpeg", "x.wasm", "x.unknown", "p.php",
		"../x.txt", "../../secret.txt", "../../../secret.txt", "/etc/passwd", dir + "/abs.txt", "..", ".", "/", "//", "a/..", "a/../..", "..\\..\\x", "C:\\x.txt", "a/b/c.txt",
		"%2e%2e%2fx", "x%00y", "x?y=1", "x#frag", "sp ace.txt", "tab\tx", "new\nline.txt", "cr\r\nX-Evil: 1", "nul\x00x", "quote\"x", "semi;x=1", "é.txt", "日本.png", "\xff\xfe.txt", "\u202egnp.exe", "x:y", "a=b&c", "+plus+", "*", "~", strings.Repeat("n", 150) + ".txt", strings.Repeat("n", 300), ".htaccess", ".hidden", "x.txt/", "x.html.", "x.html ", "x.png.html",
	})
}

func p26CDisp(r *rand.Rand, name string) string {
	if name == "" && r.Intn(2) == 0 {
		return ""
	}
	plain := true
	for i := 0; i < len(name); i++ {
		if name[i] < ' ' || name[i] > '~' {
			plain = false
		}
	}
	if plain && r.Intn(2) == 0 {
		return `attachment; filename="` + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(name) + `"`
	}
	var b strings.Builder
	b.WriteString("attachment; filename*=utf-8''")
	for i := 0; i < len(name); i++ {
		fmt.Fprintf(&b, "%%%02X", name[i])
	}
	return b.String()
}

func p26Body(r *rand.Rand, id int) []byte {
	head := Pick(r, []string{"", "<html><script>alert(1)</script>", "<!DOCTYPE html>", "<?xml version=\"1.0\"?><svg xmlns=\"http://www.w3.org/2000/svg\" onload=\"x()\"/>", "\x89PNG\r\n\x1a\n", "GIF89a", "%PDF-1.4", "\xff\xfe", "{}", "RIFF\x00\x00\x00\x00WAVE", "text\r\nlines\r\n", "\x00\x01\x02"})
	b := []byte(fmt.Sprintf("%s upload number %d ", head, id))
	switch r.Intn(8) {
	case 0:
		return []byte{}
	case 1, 2, 3:
		x := make([]byte, r.Intn(3000))
		r.Read(x)
		b = append(b, x...)
	case 4:
		x := make([]byte, r.Intn(300000))
		r.Read(x)
		b = append(b, x...)
	}
	return b
}

func p26Users(r *rand.Rand) []string {
	all := []string{"alice", "bob", "carol", "Ünï cødé", "a/b", "a", "a-b", "..", ".", "../up2", "a/../alice", "x:y", "a%2Fb", "a%2fb", "-", "~", "sp ace", "a\\b", "a?b", "a#b", "alice/", "/alice", "%2e%2e", "%2E%2E", "A", "...", "%"}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	l := []string{"alice"}
	for _, u := range all {
		if u != "alice" && len(l) < 5 {
			l = append(l, u)
		}
	}
	return l
}

func p26FS(t *T) {
	r := t.Rng
	s := p26New(t, p26Users(r), nil)
	id := 0
	steps := 8 + r.Intn(14)
	for k := 0; k < steps; k++ {
		var what string
		switch r.Intn(12) {
		case 0: // fetch an old one again
			if len(s.got) > 0 {
				s.fetch(Pick(r, s.got))
			}
			continue
		case 1: // other methods never change anything
			p := "/uploads"
			if len(s.got) > 0 {
				p = Pick(r, s.got).loc
			}
			m := Pick(r, []string{"PUT", "DELETE", "PATCH", "MKCOL", "POST", "TRACE"})
			if m == "POST" && p == "/uploads" {
				m = "PUT"
			}
			q := p26Req{method: m, path: p, auth: basicAuth("alice", "pw-alice"), body: []byte("overwrite"), ctype: "text/plain"}
			rs, _ := s.do(q)
			if rs.StatusCode < 300 {
				Failf("%s %s: status %d", q.method, q.path, rs.StatusCode)
			}
			what = m + " on a location"
			t.State("method %s", m)
		case 2, 3:
			what = s.hostile(r)
		case 4:
			what = s.interrupted(r)
		default:
			id++
			what = s.upload(r, id)
		}
		s.tree(what)
	}
	for _, g := range s.got {
		s.fetch(g)
	}
	s.tree("all operations")
}

func (s *p26Site) upload(r *rand.Rand, id int) string {
	t := s.t
	q := p26Req{method: "POST", path: "/uploads", body: p26Body(r, id), chunked: r.Intn(4) == 0}
	user := Pick(r, s.users)
	ok, kind := true, "valid"
	cred := func(u string) string {
		if strings.Contains(u, ":") || r.Intn(3) == 0 {
			return Pick(r, []string{"Bearer ", "bearer "}) + "tok-" + ShortHash(u)
		}
		return basicAuth(u, "pw-"+u)
	}
	switch r.Intn(16) {
	case 0:
		ok, kind = false, "missing"
	case 1:
		q.auth, ok, kind = basicAuth(user, Pick(r, []string{"wrong", "", "pw-", "pw-" + user + "x"})), false, "wrong"
	case 2:
		o := Pick(r, s.users)
		if o == user {
			o = "nobody"
		}
		q.auth, ok, kind = basicAuth(user, "pw-"+o), false, "others"
		if strings.Contains(user, ":") { // the name is cut at the colon
			q.auth = basicAuth("alice", "pw-nobody")
		}
	case 3:
		q.auth, ok, kind = Pick(r, []string{"Basic", "Basic !!!", "Basic " + base64.StdEncoding.EncodeToString([]byte("alice")), "Digest x", "Bearer", "Bearer x", "Bearer tok-", "Token tok-" + ShortHash("alice"), "pw-alice", "Basic  ", ":", "Negotiate YII="}), false, "malformed"
	case 4:
		q.auth, ok, kind = cred("disabled"), false, "disabled"
	default:
		q.auth = cred(user)
	}
	if r.Intn(12) == 0 {
		q.path = Pick(r, []string{"/uploads/", "/uploads/alice/x.txt", "/uploads/../uploads", "/uploads/x", "//uploads"})
		ok = false
		kind += "/path"
	}
	q.ctype = Pick(r, []string{"", "text/plain", "text/html", "image/png", "image/svg+xml", "application/octet-stream", "application/javascript", "TEXT/HTML", "application/x-unknown", "application/pdf", "audio/mpeg", "text/plain; charset=utf-8", "text/html; charset=US-ASCII", "application/xhtml+xml", "text/css", "image/jpeg", "text/plain; charset=latin1", "text/html; charset=utf-16", "a b c", "text/", ";"})
	maybe := false
	if strings.Contains(q.ctype, "latin1") || strings.Contains(q.ctype, "utf-16") {
		ok = false
	}
	if _, _, err := mime.ParseMediaType(q.ctype); q.ctype != "" && err != nil {
		maybe = true
	}
	name := p26FileName(r, s.dir)
	q.cdisp = p26CDisp(r, name)
	switch r.Intn(20) {
	case 0:
		q.cdisp, maybe = Pick(r, []string{"attachment; filename", "; x", "inline; filename=\"a\" filename=b", "attachment;;", "attachment; filename=a; filename=b", "attachment; filename=/", "inline"}), true
		name = ""
	}
	if _, p, err := mime.ParseMediaType(q.cdisp); q.cdisp != "" && (err != nil || p["filename"] != name) {
		maybe = true
		name = ""
	}
	if strings.Contains(name, "\x00") || len(path.Base(name)) > 200 || path.Base(name) == "/" || !mimeSafe(name) {
		maybe = true
	}
	what := fmt.Sprintf("%s %s by %q (%s, type %q, disposition %q, %d bytes)", q.method, q.path, user, kind, q.ctype, q.cdisp, len(q.body))
	rs, d := s.do(q)
	t.Count("uploads sent", 1)
	if rs.StatusCode/100 != 3 {
		p26Headers(what, rs)
	}
	loc := rs.Header.Get("Location")
	if rs.Header.Get("X-Evil") != "" {
		Failf("%s: a header was injected", what)
	}
	if rs.StatusCode/100 != 2 {
		if ok && !maybe {
			Failf("%s was refused: %d %q", what, rs.StatusCode, d)
		}
		t.State("upload %s refused %d", kind, rs.StatusCode)
		return what
	}
	if !ok {
		Failf("%s was accepted (%d)", what, rs.StatusCode)
	}
	if rs.StatusCode != 201 || loc == "" {
		Failf("%s: status %d, Location %q", what, rs.StatusCode, loc)
	}
	g := &p26Up{user: user, body: q.body, name: name}
	base, _ := url.Parse(s.srv.URL + "/uploads")
	u, err := base.Parse(loc)
	if err != nil || u.Host != base.Host || !strings.HasPrefix(u.Path, "/uploads/") {
		Failf("%s: Location %q does not lead back to the uploads (%v)", what, loc, err)
	}
	g.loc = u.EscapedPath()
	if u.RawQuery != "" || u.Fragment != "" {
		Failf("%s: Location %q has a query or fragment", what, loc)
	}
	for _, o := range s.got {
		if o.loc == g.loc {
			Failf("%s: Location %q was already given", what, loc)
		}
	}
	s.got = append(s.got, g)
	t.State("upload %s accepted, type %s, name %.12q", kind, q.ctype, name)
	s.fetch(g)
	return what
}

// mimeSafe: whether mime can transport the name as a parameter at all.
func mimeSafe(name string) bool {
	if name == "" {
		return true
	}
	_, p, err := mime.ParseMediaType(mime.FormatMediaType("attachment", map[string]string{"filename": name}))
	return err == nil && p["filename"] == name
}

// raw sends bytes on a connection of its own and returns the answer.
func (s *p26Site) raw(b string, half bool) (status string, body string) {
	nc, err := net.Dial("tcp", s.srv.Listener.Addr().String())
	Must(err)
	defer nc.Close()
	nc.SetDeadline(time.Now().Add(Watchdog))
	io.WriteString(nc, b)
	if half {
		return "", ""
	}
	br := bufio.NewReader(nc)
	rs, err := http.ReadResponse(br, nil)
	if err != nil {
		return "closed", ""
	}
	defer rs.Body.Close()
	d, _ := io.ReadAll(rs.Body)
	return fmt.Sprint(rs.StatusCode), string(d)
}

func (s *p26Site) hostile(r *rand.Rand) string {
	file, dir := "x", "alice"
	if len(s.got) > 0 {
		g := Pick(r, s.got)
		file = path.Base(g.loc)
		dir = path.Base(path.Dir(g.loc))
	}
	up := strings.Repeat(Pick(r, []string{"../", "%2e%2e/", "..%2f", "%2e%2e%2f", ".%2e/", "..%5c", "..//", "..;/", "%252e%252e/"}), 1+r.Intn(6))
	p := Pick(r, []string{
		"/uploads/" + up + "secret.txt", "/uploads/" + dir + "/" + up + "secret.txt", "/uploads/" + dir + "/" + file + "/" + up + "secret.txt",
		"/uploads/" + up + "up-evil.txt", "/uploads/" + up + "b/secret.txt", "/uploads/" + up + "upload/secret.txt", "/uploads/" + up + "etc/passwd",
		"/uploads//etc/passwd", "/uploads/%2Fetc%2Fpasswd", "/uploads/" + url.PathEscape(filepath.Join(s.dir, "secret.txt")), "/uploads/" + filepath.Join(s.dir, "secret.txt"),
		"/uploads/", "/uploads", "/uploads/.", "/uploads/" + dir, "/uploads/" + dir + "/", "/uploads/" + dir + "/%00", "/uploads/" + dir + "/" + file + "%00.txt", "/uploads/" + dir + "/none",
		"/uploads/" + dir + "/./" + file, "/uploads/" + dir + "/" + file + "/", "/uploads/" + dir + "/../" + dir + "/" + file, "/uploads/" + file, "/uploads/%", "/uploadsx/" + dir + "/" + file, "/" + dir + "/" + file, "/uploads/" + dir + "/*", "/uploads/file://" + s.dir + "/secret.txt",
	})
	st, body := s.raw(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", Pick(r, []string{"GET", "GET", "GET", "HEAD"}), p), false)
	if strings.Contains(body, "SECRET-CANARY") || strings.Contains(body, "root:") {
		Failf("GET %s serves a file outside the upload directory: %q", p, body)
	}
	if st == "200" && body != "" {
		found := false
		for _, g := range s.got {
			found = found || string(g.body) == body
		}
		if !found {
			Failf("GET %s serves %q, which is no upload", p, body)
		}
	}
	for _, g := range s.got {
		if st != "200" && st != "301" && st != "307" && st != "308" && strings.Contains(body, path.Base(g.loc)) && !strings.Contains(p, path.Base(g.loc)) {
			Failf("GET %s lists the names of uploads: %q", p, body)
		}
	}
	s.t.Count("hostile paths tried", 1)
	s.t.State("hostile path %s", st)
	return "GET " + p
}

// interrupted: uploads that never complete leave nothing.
func (s *p26Site) interrupted(r *rand.Rand) string {
	head := "POST /uploads HTTP/1.1\r\nHost: x\r\nAuthorization: " + basicAuth("alice", "pw-alice") + "\r\nContent-Disposition: attachment; filename=part.txt\r\n"
	n := 200 + r.Intn(200000)
	data := strings.Repeat("partial ", n/8)
	var b, kind string
	half := r.Intn(2) == 0
	switch r.Intn(5) {
	case 0:
		b, kind, half = head+fmt.Sprintf("Content-Length: %d\r\n\r\n", n+100)+data, "short", true
	case 1:
		b, kind, half = head+fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n", len(data))+data+"\r\n", "unterminated", true
	case 2:
		b, kind = head+fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n", len(data))+data+"\r\nzz\r\n", "bad chunk"
	case 3:
		b, kind, half = head+fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n", len(data)+50)+data, "inside chunk", true
	case 4:
		b, kind, half = head+fmt.Sprintf("Content-Length: %d\r\n\r\n", n+1), "no body", true
	}
	started := atomic.LoadInt64(&s.started)
	st, _ := s.raw(b, half)
	if strings.HasPrefix(st, "2") {
		Failf("an interrupted upload (%s) was accepted", kind)
	}
	s.quiet(started + 1)
	s.t.Count("interrupted uploads", 1)
	s.t.State("interrupted %s", kind)
	return "an interrupted upload (" + kind + ")"
}

type p26Pattern struct{ n, pos int }

func (p *p26Pattern) Read(b []byte) (int, error) {
	if p.pos >= p.n {
		return 0, io.EOF
	}
	k := len(b)
	if k > p.n-p.pos {
		k = p.n - p.pos
	}
	for i := 0; i < k; i++ {
		x := p.pos + i
		b[i] = byte(x ^ x>>8 ^ x>>16)
	}
	p.pos += k
	return k, nil
}

func p26Size(t *T) {
	const max = 50 * 1024 * 1024
	s := p26New(t, []string{"alice"}, nil)
	post := func(n int, chunked bool) int {
		rq, err := http.NewRequest("POST", s.srv.URL+"/uploads", io.NopCloser(&p26Pattern{n: n}))
		Must(err)
		if !chunked {
			rq.ContentLength = int64(n)
		}
		rq.Header.Set("Authorization", basicAuth("alice", "pw-alice"))
		rs, err := (&http.Client{Timeout: Watchdog}).Do(rq)
		if err != nil {
			return -1 // the server may close while the body is being sent
		}
		defer rs.Body.Close()
		io.Copy(io.Discard, rs.Body)
		if rs.StatusCode == 201 {
			loc := rs.Header.Get("Location")
			gs, err := http.Get(s.srv.URL + loc)
			Must(err)
			defer gs.Body.Close()
			h1, h2 := sha256.New(), sha256.New()
			n1, _ := io.Copy(h1, &p26Pattern{n: n})
			n2, _ := io.Copy(h2, gs.Body)
			if n1 != n2 || !bytes.Equal(h1.Sum(nil), h2.Sum(nil)) {
				Failf("an upload of %d bytes is served back as %d bytes or altered", n1, n2)
			}
		}
		return rs.StatusCode
	}
	files := func() (n int) {
		filepath.Walk(s.up, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				n++
			}
			return nil
		})
		return n
	}
	want := 0
	for _, c := range []struct {
		n       int
		chunked bool
	}{{max, false}, {max + 1, false}, {max, true}, {max + 1, true}, {max + 70000, true}, {max * 4, false}} {
		started := atomic.LoadInt64(&s.started)
		st := post(c.n, c.chunked)
		s.quiet(started + 1)
		if (st == 201) != (c.n <= max) {
			Failf("an upload of %d bytes (chunked %v) got status %d, the limit is %d", c.n, c.chunked, st, max)
		}
		if st == 201 {
			want++
		}
		if st != 201 && st != 413 && st != -1 {
			Failf("an upload of %d bytes (chunked %v) got status %d", c.n, c.chunked, st)
		}
		if n := files(); n != want {
			Failf("after an upload of %d bytes (chunked %v, status %d) there are %d files, %d uploads were accepted", c.n, c.chunked, st, n, want)
		}
		t.State("size %d chunked %v", c.n-max, c.chunked)
		t.Count("limit checks", 1)
	}
}

func p26Race(t *T) {
	r := t.Rng
	s := p26New(t, []string{"alice", "bob"}, nil)
	name := Pick(r, []string{"", "x.txt", "x", "../x.txt"})
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad []string
	for i := 0; i < 8; i++ {
		i := i
		seed := r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			for k := 0; k < 12; k++ {
				u := Pick(rr, s.users)
				body := []byte(fmt.Sprintf("race %d %d ", i, k) + strings.Repeat("x", rr.Intn(50000)))
				q := p26Req{method: "POST", path: "/uploads", auth: basicAuth(u, "pw-"+u), body: body}
				if name != "" {
					q.cdisp = "attachment; filename=\"" + name + "\""
				}
				rq, _ := http.NewRequest(q.method, s.srv.URL+q.path, bytes.NewReader(body))
				rq.Header.Set("Authorization", q.auth)
				if q.cdisp != "" {
					rq.Header.Set("Content-Disposition", q.cdisp)
				}
				rs, err := (&http.Client{Timeout: Watchdog}).Do(rq)
				mu.Lock()
				if err != nil || rs.StatusCode != 201 {
					bad = append(bad, fmt.Sprint(err))
				} else {
					s.got = append(s.got, &p26Up{user: u, body: body, loc: rs.Header.Get("Location"), name: name})
				}
				mu.Unlock()
				if err == nil {
					rs.Body.Close()
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		Failf("%d of 96 simultaneous uploads were refused: %s", len(bad), bad[0])
	}
	seen := map[string]bool{}
	for _, g := range s.got {
		if seen[g.loc] {
			Failf("location %s was given twice", g.loc)
		}
		seen[g.loc] = true
		s.fetch(g)
	}
	s.tree("simultaneous uploads")
	t.State("race %q", name)
}

func p26Origin(t *T) {
	r := t.Rng
	pats := Subset(r, []string{"good.example", "*.good.example", "*.example:8443", "app-?.test", "[ab].test", "127.0.0.1:*"}, 0.4)
	if r.Intn(12) == 0 {
		pats = []string{"*"}
	}
	s := p26New(t, []string{"alice"}, func(h *fileupload.Handler) { h.HTTPOrigins = pats })
	rs0, _ := s.do(p26Req{method: "POST", path: "/uploads", auth: basicAuth("alice", "pw-alice"), body: []byte("the first upload, sixteen and more"), ctype: "text/plain"})
	if rs0.StatusCode != 201 {
		Failf("upload without an Origin refused: %d", rs0.StatusCode)
	}
	loc := rs0.Header.Get("Location")
	s.got = append(s.got, &p26Up{user: "alice", loc: loc, body: []byte("the first upload, sixteen and more")})
	host := s.srv.Listener.Addr().String()
	for k := 0; k < 12; k++ {
		o := Pick(r, []string{"", "https://good.example", "http://good.example", "https://GOOD.example", "https://x.good.example", "https://evil.example", "https://good.example.evil.test", "https://evilgood.example", "https://a.b.good.example", "https://good.example:8443", "https://x.example:8443", "https://app-1.test", "https://app-12.test", "https://a.test", "https://c.test", "null", "http://" + host, "https://" + host, "http://" + strings.Split(host, ":")[0], "http://127.0.0.1:1", "http://127.0.0.2:80", "file://", "https://evil.example/good.example", "https://evil.example#good.example", "https://evil.example?good.example", "https://good.example@evil.example", "garbage", "http://[::1", "//good.example", "good.example", "https://good.example%00"})
		allowed := o == ""
		if u, err := url.Parse(o); o != "" && err == nil {
			allowed = strings.EqualFold(u.Host, host)
			for _, p := range pats {
				m, _ := path.Match(p, u.Host)
				allowed = allowed || m
			}
		}
		m := Pick(r, []string{"POST", "POST", "GET", "OPTIONS", "HEAD"})
		q := p26Req{method: m, origin: o, path: "/uploads"}
		body := []byte(fmt.Sprintf("cross origin upload number %d", k))
		switch m {
		case "POST":
			q.auth, q.body = basicAuth("alice", "pw-alice"), body
		case "GET", "HEAD":
			q.path = loc
		}
		rs, d := s.do(q)
		what := fmt.Sprintf("%s with Origin %q, allowed origins %q", m, o, pats)
		acao := rs.Header.Get("Access-Control-Allow-Origin")
		if !allowed {
			if rs.StatusCode != 403 {
				Failf("%s: status %d", what, rs.StatusCode)
			}
			if acao != "" {
				Failf("%s: the browser is told that %q is allowed", what, acao)
			}
			if bytes.Contains(d, []byte("the first upload")) {
				Failf("%s: the file is served", what)
			}
		} else {
			if rs.StatusCode/100 != 2 {
				Failf("%s: status %d %q", what, rs.StatusCode, d)
			}
			if acao != o {
				Failf("%s: Access-Control-Allow-Origin %q", what, acao)
			}
			if o != "" && !strings.Contains(strings.ToLower(rs.Header.Get("Vary")), "origin") {
				Failf("%s: the answer does not vary by origin", what)
			}
			if m == "POST" {
				s.got = append(s.got, &p26Up{user: "alice", loc: rs.Header.Get("Location"), body: body})
			}
		}
		s.tree(what)
		t.State("origin %s allowed %v patterns %d", o, allowed, len(pats))
		t.Count("origins decided", 1)
	}
}

func p26Backend(t *T) {
	r := t.Rng
	type rec struct {
		user, ctype, cdisp string
		body               []byte
	}
	var mu sync.Mutex
	var recs []rec
	var code int
	var location, text string
	be := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, rq *http.Request) {
		b, err := io.ReadAll(rq.Body)
		if err != nil {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		recs = append(recs, rec{rq.Header.Get("Soju-Username"), rq.Header.Get("Content-Type"), rq.Header.Get("Content-Disposition"), b})
		if len(rq.Header.Values("Soju-Username")) != 1 || rq.Method != "POST" {
			recs = append(recs, rec{user: "several"})
		}
		if location != "" {
			rw.Header().Set("Location", location)
		}
		rw.WriteHeader(code)
		io.WriteString(rw, text)
	}))
	defer be.Close()
	s := p26New(t, []string{"alice", "bob", "Ünï", "a/b", ".."}, func(h *fileupload.Handler) {
		u, err := fileupload.New("http", be.URL+"/store")
		Must(err)
		h.Uploader = u
	})
	for k := 0; k < 10; k++ {
		user := Pick(r, s.users)
		q := p26Req{method: "POST", path: "/uploads", auth: basicAuth(user, "pw-"+user), body: p26Body(r, k), chunked: r.Intn(2) == 0}
		q.hdr = map[string]string{}
		if r.Intn(3) == 0 {
			q.hdr["Soju-Username"] = "mallory"
		}
		good := true
		if r.Intn(4) == 0 {
			q.auth, good = Pick(r, []string{"", basicAuth(user, "x"), "Bearer no", basicAuth("disabled", "pw-disabled")}), false
		}
		name := Pick(r, []string{"", "x.txt", "../../x.txt", "é.png", "a b.html"})
		q.cdisp = p26CDisp(r, name)
		q.ctype = Pick(r, []string{"", "text/plain", "image/png", "application/octet-stream"})
		mu.Lock()
		recs = nil
		code, location, text = 201, Pick(r, []string{"alice/x.txt", "https://files.example/x%20y.png", "/elsewhere/x", "f?x=1"}), ""
		switch r.Intn(6) {
		case 0:
			code, location, text = Pick(r, []int{400, 403, 404, 413, 500, 503}), "", "<script>backend</script>"
		case 1:
			code = Pick(r, []int{200, 204})
		case 2:
			location = ""
		}
		cd, lo := code, location
		mu.Unlock()
		rs, d := s.do(q)
		what := fmt.Sprintf("upload by %q (credentials good: %v) with backend answer %d %q", user, good, cd, lo)
		p26Headers(what, rs)
		mu.Lock()
		l := recs
		mu.Unlock()
		if !good {
			if len(l) != 0 || rs.StatusCode/100 == 2 {
				Failf("%s: the backend got %d requests, status %d", what, len(l), rs.StatusCode)
			}
			t.State("backend refused credentials")
			continue
		}
		if len(l) != 1 {
			Failf("%s: the backend got %d requests", what, len(l))
		}
		if l[0].user != user {
			Failf("%s: the backend was given the user name %q", what, l[0].user)
		}
		if !bytes.Equal(l[0].body, q.body) {
			Failf("%s: the backend got other bytes: %s", what, StrDiff(string(q.body), string(l[0].body)))
		}
		_, p, _ := mime.ParseMediaType(l[0].cdisp)
		if want := path.Base(name); name != "" && p["filename"] != want {
			Failf("%s: file name %q became %q", what, name, p["filename"])
		}
		if strings.ContainsAny(p["filename"], "/") {
			Failf("%s: file name %q has directories", what, p["filename"])
		}
		if cd == 201 && lo != "" {
			base, _ := url.Parse(s.srv.URL + "/uploads/")
			want, _ := base.Parse(lo)
			got, err := base.Parse(rs.Header.Get("Location"))
			if rs.StatusCode != 201 || err != nil || got.String() != want.String() {
				Failf("%s: status %d Location %q", what, rs.StatusCode, rs.Header.Get("Location"))
			}
		} else if rs.StatusCode < 400 {
			Failf("%s: status %d %q", what, rs.StatusCode, d)
		} else if cd >= 400 && rs.StatusCode != cd {
			Failf("%s: status %d", what, rs.StatusCode)
		}
		t.State("backend %d %v -> %d", cd, lo != "", rs.StatusCode)
		t.Count("backend exchanges", 1)
	}
	rs, _ := s.do(p26Req{method: "GET", path: "/uploads/alice/x.txt"})
	if rs.StatusCode/100 == 2 {
		Failf("GET with an HTTP backend: status %d", rs.StatusCode)
	}
}

// p26Binary: the executable applies the configured directory, origins and
// authentication.
func p26Binary(t *T) {
	r := t.Rng
	p := NewProc(t, "memory")
	p.AddUser("alice", false)
	p.W.AddUser("off", false, func(u *database.User) { SetPassword(u, "pw-off"); u.Enabled = false })
	up := filepath.Join(p.Dir, "up")
	Must(os.Mkdir(up, 0700))
	sock := filepath.Join(p.Dir, "http.sock")
	p.Listen = []string{"http+unix://" + sock}
	p.Extra = []string{"file-upload fs " + up, "http-origin app.example", "http-ingress https://files.example"}
	enable := r.Intn(2) == 0
	if enable {
		p.Extra = append(p.Extra, "enable-user-on-auth true")
	}
	p.Start()
	Until("the HTTP socket opens", func() bool {
		c, err := net.Dial("unix", sock)
		if err == nil {
			c.Close()
		}
		return err == nil
	})
	cl := &http.Client{Transport: &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return net.Dial("unix", sock) }}}
	defer cl.CloseIdleConnections()
	count := func() (n int) {
		filepath.Walk(up, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				n++
			}
			return nil
		})
		return n
	}
	want := 0
	for k := 0; k < 12; k++ {
		kind := Pick(r, []string{"good", "good", "wrong", "none", "off", "evil-origin", "good-origin"})
		q := p26Req{method: "POST", path: "/uploads", body: []byte(fmt.Sprintf("<html>file number %d", k)), cdisp: "attachment; filename=x.html", auth: basicAuth("alice", "pw-alice")}
		ok := true
		switch kind {
		case "wrong":
			q.auth, ok = basicAuth("alice", "pw-off"), false
		case "none":
			q.auth, ok = "", false
		case "off":
			q.auth, ok = basicAuth("off", "pw-off"), enable
		case "evil-origin":
			q.origin, ok = "https://evil.example", false
		case "good-origin":
			q.origin = "https://app.example"
		}
		rs, d := p26Do("http://soju.test", cl, q)
		if (rs.StatusCode == 201) != ok {
			Failf("upload with %s credentials or origin: status %d %q", kind, rs.StatusCode, d)
		}
		if ok {
			want++
			gs, b := p26Do("http://soju.test", cl, p26Req{method: "GET", path: rs.Header.Get("Location")})
			if gs.StatusCode != 200 || !bytes.Equal(b, q.body) {
				Failf("GET %s: status %d body %q", rs.Header.Get("Location"), gs.StatusCode, b)
			}
			if !strings.HasPrefix(gs.Header.Get("Content-Disposition"), "attachment") {
				Failf("active content is served %q", gs.Header.Get("Content-Disposition"))
			}
			p26Headers("GET", gs)
		}
		if n := count(); n != want {
			Failf("%d files in the upload directory, %d uploads were accepted", n, want)
		}
		t.State("binary %s ok %v", kind, ok)
		t.Count("requests to the executable", 1)
	}
	p.Term()
}
