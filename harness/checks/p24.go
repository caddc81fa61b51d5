package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P24", Level: "stress_oracle",
		Rule:   "names: users, networks, channels and nicks with path-like names (dots, slashes, backslashes, absolute and relative paths, names of other users' directories, dates) exchange uniquely numbered messages; the monitor then walks the whole scratch tree around the log directory (nothing outside it may appear, change or be shown), attributes every number found in the log files to its conversation (each exactly once, one directory per conversation, one subtree per user and network) and compares the history given for every conversation, and for hostile target names, with the model. rename: random histories of network renames (service, protocol, swapped and reused names), messages, restarts and new networks under freed names; histories compared after every step. roundtrip: messages and events with log-like and unusual texts are read back and compared. A situation is (case, kind of name or text, operation)",
		Assume: []string{"log directory is only written by the bouncer", "names are at most 200 bytes"},
		Cases: func(e *Env) []Case {
			c := Repeat(e, "names", e.N(90, 3000), p24Names)
			c = append(c, Repeat(e, "rename", e.N(60, 2000), p24Rename)...)
			return append(c, Repeat(e, "roundtrip", e.N(40, 1500), p24Round)...)
		},
	})
}

var p24Tok = regexp.MustCompile(`k[0-9]+k`)

func p24Esc(s string) string {
	switch s {
	case ".":
		return "-"
	case "..":
		return "--"
	}
	return strings.NewReplacer("/", "-", "\\", "-").Replace(s)
}

type p24Conv struct {
	user, net, ent string // entity lower case
}

func (c p24Conv) esc() p24Conv { return p24Conv{p24Esc(c.user), p24Esc(c.net), p24Esc(c.ent)} }

// p24Name makes a path-like name. At most two levels up, so that even an
// escaping write stays inside the scratch directory.
func p24Name(r *rand.Rand, dir string, others []string) (name, kind string) {
	day := time.Now().Format("2006-01-02")
	switch r.Intn(16) {
	case 0:
		return "..", "dotdot"
	case 1:
		return ".", "dot"
	case 2:
		return "../" + Pick(r, []string{"x", "canary", "alice", "logs"}), "up"
	case 3:
		return "../../" + Pick(r, []string{"x", "canary", "alice"}), "up2"
	case 4:
		return "a/../" + Pick(r, []string{"b", ".."}), "inner"
	case 5:
		return Pick(r, []string{"a/b", "a\\b", "a-b"}), "sep"
	case 6:
		return dir + "/abs", "absolute"
	case 7:
		return day + ".log", "day"
	case 8:
		return Pick(r, []string{"-", "--", "---"}), "dashes"
	case 9:
		return Pick(r, []string{"..\\..", "\\", "..\\x", "/"}), "back"
	case 10:
		return Pick(r, []string{"...", "..a", "a..", ".hidden", "~", "~root", "%2e%2e", "%2F", "a%2fb", "*", "?", "[a]", "$HOME", "`x`", "'"}), "odd"
	case 11:
		return Pick(r, []string{"é", "\xff\xfe", "Ünï", "日本", "\x02b", "\u2028"}), "bytes"
	case 12:
		return strings.Repeat("n", 100+r.Intn(90)), "long"
	case 13, 14:
		if len(others) > 0 {
			o := Pick(r, others)
			return Pick(r, []string{o, "../" + o, "../../" + o, o + "/..", "./" + o, o + "/", o + "."}), "other"
		}
	}
	return Pick(r, []string{"plain", "Other", "x1", "Mixed-Case"}), "plain"
}

func tokensOf(s string) []string { return p24Tok.FindAllString(s, -1) }

// treeOf lists every file below dir with its content.
func treeOf(dir string, skip func(p string) bool) map[string]string {
	m := map[string]string{}
	Must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if skip(p) {
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if fi.IsDir() {
			m[p] = "(directory)"
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		m[p] = string(b)
		return nil
	}))
	return m
}

func p24Names(t *T) {
	r := t.Rng
	w := NewWorld(t, "fs")
	w.LogSub = "l1/l2/l3/l4/l5/l6/l7/l8"
	os.MkdirAll(w.StoreDir(), 0755)
	day := time.Now()
	// bait that a wrongly built path would show
	bait := func(dir string) {
		os.MkdirAll(dir, 0755)
		for d := -1; d <= 1; d++ {
			f := filepath.Join(dir, day.AddDate(0, 0, d).Format("2006-01-02")+".log")
			Must(os.WriteFile(f, []byte("[00:00:00] <bait> k0k outside\n"), 0644))
		}
	}
	for d, i := filepath.Dir(w.StoreDir()), 0; i < 6; d, i = filepath.Dir(d), i+1 {
		bait(d)
		bait(filepath.Join(d, "canary"))
		bait(filepath.Join(d, "x"))
		bait(filepath.Join(d, "alice"))
	}
	skip := func(p string) bool {
		return p == w.StoreDir() || strings.HasPrefix(p, w.DBPath) || filepath.Dir(p) == t.Dir() && strings.HasPrefix(filepath.Base(p), "soju-")
	}
	before := treeOf(t.Dir(), skip)

	unames := []string{"alice", Pick(r, []string{"..", ".", "a\\b", "-", "..\\alice", "~", "bob", "alice.", "al"}), "zoe"}[:2+r.Intn(2)]
	seq := 0
	type netw struct {
		user, name string
		up         *Upstream
		uc         *UpConn
		c          *Client
		ents       []string
		rec        *database.Network
	}
	var nets []*netw
	model := map[p24Conv][]string{}
	owner := map[string]p24Conv{}
	add := func(n *netw, ent string) string {
		seq++
		tok := fmt.Sprintf("k%dk", seq)
		cv := p24Conv{n.user, n.name, strings.ToLower(ent)}
		model[cv] = append(model[cv], tok)
		owner[tok] = cv
		return tok
	}
	for _, un := range unames {
		u := w.AddUser(un, false)
		names := map[string]bool{}
		for i := 0; i < 1+r.Intn(3); i++ {
			nm, k := p24Name(r, t.Dir(), unames)
			if names[nm] || nm == "*" || strings.HasPrefix(nm, "-") {
				continue
			}
			names[nm] = true
			t.State("names network %s", k)
			up := NewUpstream(t, fmt.Sprintf("up%d", len(nets)))
			up.ISupport = []string{"CASEMAPPING=ascii", "CHANTYPES=#&"}
			if r.Intn(2) == 0 {
				up.Caps = []string{"echo-message", "message-tags"}
				up.Echo = true
			}
			up.Start()
			n := &netw{user: un, name: nm, up: up}
			n.rec = w.AddNetwork(u, nm, up)
			seen := map[string]bool{}
			for j := 0; j < 2+r.Intn(5); j++ {
				en, k := p24Name(r, t.Dir(), append(unames, nm))
				if strings.ContainsAny(en, " ,:") {
					continue
				}
				if r.Intn(2) == 0 {
					en = Pick(r, []string{"#", "&", "#"}) + en
				} else if strings.ContainsAny(en, "!@*?$\x02") || strings.HasPrefix(en, "~") || en[0] == '-' {
					continue
				}
				if seen[strings.ToLower(en)] {
					continue
				}
				seen[strings.ToLower(en)] = true
				t.State("names entity %s chan=%v", k, strings.ContainsAny(en[:1], "#&"))
				if strings.ContainsAny(en[:1], "#&") {
					w.AddChannel(n.rec, en)
				}
				n.ents = append(n.ents, en)
			}
			if r.Intn(3) == 0 { // more conversations than the store keeps files open
				for j := 0; j < 25; j++ {
					n.ents = append(n.ents, fmt.Sprintf("peer%d", j))
				}
			}
			nets = append(nets, n)
		}
	}
	if len(nets) == 0 {
		return
	}
	w.Start()
	isChan := func(e string) bool { return strings.ContainsAny(e[:1], "#&") }
	attach := func() {
		for _, n := range nets {
			if n.c != nil {
				n.c.Disconnect()
				n.c = nil
			}
			n.uc = n.up.SyncLive(1)
			c := w.Dial(fmt.Sprintf("%q/%q", n.user, n.name))
			// bound by identifier: the names cannot be part of a login
			c.Register(ClientOpts{User: n.user, Pass: "pw-" + n.user, Nick: "me", NetID: fmt.Sprint(n.rec.ID), Caps: []string{"draft/chathistory", "batch", "server-time", "message-tags", "soju.im/search"}})
			n.c = c
		}
	}
	attach()
	for i := 0; i < 2+r.Intn(3); i++ {
		for _, n := range nets {
			var lines []string
			for _, e := range n.ents {
				for k := 0; k < 1+r.Intn(2); k++ {
					cmd := Pick(r, []string{"PRIVMSG", "NOTICE"})
					switch {
					case r.Intn(3) == 0:
						n.c.Sendf("%s %s :out %s", cmd, e, add(n, e))
					case isChan(e):
						lines = append(lines, fmt.Sprintf(":dude!u@h %s %s :in %s", cmd, e, add(n, e)))
					default:
						lines = append(lines, fmt.Sprintf(":%s!u@h %s %s :in %s", e, cmd, n.uc.CurNick(), add(n, e)))
					}
				}
				n.c.Sync()
			}
			n.uc.Send(lines...)
			n.uc.Sync()
		}
		for _, n := range nets {
			n.c.Sync()
			n.uc.Sync()
			n.uc.Sync()
		}
		if r.Intn(4) == 0 {
			w.Restart()
			attach()
		}
	}
	t.Count("messages sent", seq)

	// files
	after := treeOf(t.Dir(), skip)
	for p, c := range after {
		if b, ok := before[p]; !ok || b != c {
			Failf("the message store wrote outside its directory: %s", p)
		}
	}
	collide := func(a, b p24Conv, k string) bool {
		ea, eb := a.esc(), b.esc()
		switch k {
		case "user":
			return ea.user == eb.user
		case "network":
			return ea.user == eb.user && ea.net == eb.net
		}
		return ea == eb
	}
	where := map[string]string{}
	dirs := map[string]p24Conv{}
	tops := map[string]p24Conv{}
	subs := map[string]p24Conv{}
	files := treeOf(w.StoreDir(), func(string) bool { return false })
	var paths []string
	for p := range files {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if files[p] == "(directory)" {
			continue
		}
		t.Count("log files inspected", 1)
		rel, _ := filepath.Rel(w.StoreDir(), p)
		parts := strings.Split(rel, "/")
		for _, tok := range tokensOf(files[p]) {
			cv, ok := owner[tok]
			if !ok {
				Failf("log file %s contains %s, which was never sent", rel, tok)
			}
			if o, ok := where[tok]; ok {
				Failf("message %s of %q is logged twice, in %s and %s", tok, cv, o, rel)
			}
			where[tok] = rel
			chk := func(m map[string]p24Conv, key, k string, same func(a, b p24Conv) bool) {
				o, ok := m[key]
				if !ok {
					m[key] = cv
					return
				}
				if same(o, cv) {
					return
				}
				if collide(o, cv, k) {
					t.Known("escape-collision")
					return
				}
				Failf("two different %ss share %q in the log directory: %q and %q", k, key, o, cv)
			}
			chk(tops, parts[0], "user", func(a, b p24Conv) bool { return a.user == b.user })
			if len(parts) > 1 {
				chk(subs, parts[0]+"/"+parts[1], "network", func(a, b p24Conv) bool { return a.user == b.user && a.net == b.net })
			}
			chk(dirs, filepath.Dir(rel), "conversation", func(a, b p24Conv) bool { return a == b })
		}
	}
	for tok, cv := range owner {
		if where[tok] == "" {
			Failf("message %s of conversation %q is in no log file; server log: %s", tok, cv, lastLines(w.Log.String(), 8))
		}
	}
	t.Count("messages located in files", len(where))

	// reads
	for _, n := range nets {
		for _, e := range n.ents {
			cv := p24Conv{n.user, n.name, strings.ToLower(e)}
			got := p24Hist(n.c, e)
			var extra []p24Conv
			for o := range model {
				if o != cv && o.esc() == cv.esc() {
					extra = append(extra, o)
				}
			}
			p24Compare(t, n.c, cv, got, model[cv], func(tok string) bool {
				for _, o := range extra {
					if owner[tok] == o {
						t.Known("escape-collision")
						return true
					}
				}
				return false
			})
		}
		for i := 0; i < 6; i++ {
			e, k := p24Name(r, t.Dir(), unames)
			if r.Intn(3) == 0 {
				m := nets[r.Intn(len(nets))]
				if len(m.ents) > 0 {
					e, k = Pick(r, []string{"../", "../../", ""})+m.user+"/"+m.name+"/"+Pick(r, m.ents), "path of another"
					if r.Intn(2) == 0 {
						e = "../" + m.name + "/" + Pick(r, m.ents)
					}
				}
			}
			if strings.ContainsAny(e, " ,:") || e == "*" {
				continue
			}
			t.State("names read %s", k)
			cv := p24Conv{n.user, n.name, strings.ToLower(e)}
			for _, tok := range append(p24Hist(n.c, e), p24Search(n.c, e)...) {
				o, ok := owner[tok]
				if !ok {
					Failf("history of %q shows the content of a file outside the log directory: %s", cv, tok)
				}
				if o != cv {
					if o.esc() == cv.esc() {
						t.Known("escape-collision")
						continue
					}
					Failf("history of %q shows %s, a message of %q", cv, tok, o)
				}
			}
		}
	}
	w.CheckNoPanic()
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, " | ")
}

// batchOf sends a command and returns the lines of the batch answering it,
// whatever else arrives meanwhile.
func batchOf(c *Client, cmd, typ string) (out []Line, fail *Line) {
	from := c.Mark()
	c.Send(cmd)
	end := c.Sync()
	ls := c.Lines()[from:end]
	ref, n := "", 0
	for i, l := range ls {
		switch {
		case l.Command == "FAIL" || l.Command == "421":
			fail = &ls[i]
		case l.Command == "BATCH" && strings.HasPrefix(l.P(0), "+") && l.P(1) == typ:
			ref = l.P(0)[1:]
			n++
		case ref != "" && string(l.Tags["batch"]) == ref && l.Command != "BATCH":
			out = append(out, l)
		}
	}
	if fail == nil && n != 1 {
		Failf("%s: %q got %d answers", c.Name, cmd, n)
	}
	return
}

// p24Hist returns the message numbers in the history of a target.
func p24Hist(c *Client, target string) []string {
	return p24Toks(c, fmt.Sprintf("CHATHISTORY LATEST %s * 1000", target), "chathistory")
}

func p24Search(c *Client, target string) []string {
	return p24Toks(c, "SEARCH in="+tagEscape(target), "soju.im/search")
}

func p24Toks(c *Client, cmd, typ string) (toks []string) {
	ls, fail := batchOf(c, cmd, typ)
	if fail != nil {
		return nil
	}
	for _, l := range ls {
		toks = append(toks, tokensOf(l.P(1))...)
	}
	return toks
}

func p24Compare(t *T, c *Client, cv p24Conv, got, want []string, extra func(string) bool) {
	left := map[string]bool{}
	for _, x := range want {
		left[x] = true
	}
	seen := map[string]bool{}
	for _, x := range got {
		if seen[x] {
			Failf("%s: history of %q shows %s twice", c.Name, cv, x)
		}
		seen[x] = true
		if left[x] {
			delete(left, x)
		} else if !extra(x) {
			Failf("%s: history of %q shows %s, which is not part of it", c.Name, cv, x)
		}
	}
	if len(left) > 0 {
		Failf("%s: history of %q (%d messages) lacks %d messages: %v", c.Name, cv, len(got), len(left), left)
	}
	t.Count("history entries compared", len(got))
}

type p24Net struct {
	name string
	rec  string // id
	up   *Upstream
	c    *Client
	uc   *UpConn
	msgs map[string][]string
	maxi map[string][]string // may be recorded
}

func p24Rename(t *T) {
	r := t.Rng
	w := NewWorld(t, "fs")
	w.LogSub = "l1/l2/l3/l4/l5/l6/l7/l8"
	u := w.AddUser("alice", false)
	convs := []string{"#chan", "&Other/x", "bob", "a\\b", "carol"}
	dead := map[string]bool{} // names whose old logs stay behind
	seq := 0
	var nets []*p24Net
	mkUp := func() *Upstream {
		up := NewUpstream(t, fmt.Sprintf("up%d", len(nets)))
		up.ISupport = []string{"CASEMAPPING=ascii", "CHANTYPES=#&"}
		return up.Start()
	}
	pool := []string{"one", "two", "three", "a/b", "..", ".", "x y", "../one", "One", "UP\\x", "é", "four.", "...", "five", "*x"}
	free := func() string {
		for i := 0; i < 100; i++ {
			nm := Pick(r, pool)
			ok := !dead[p24Esc(nm)]
			for _, n := range nets {
				if n != nil && (n.name == nm || p24Esc(n.name) == p24Esc(nm)) {
					ok = false
				}
			}
			if ok {
				return nm
			}
		}
		return ""
	}
	newNet := func() *p24Net {
		return &p24Net{msgs: map[string][]string{}, maxi: map[string][]string{}}
	}
	for i := 0; i < 2; i++ {
		n := newNet()
		n.name = free()
		n.up = mkUp()
		rec := w.AddNetwork(u, n.name, n.up)
		for _, c := range convs[:2] {
			w.AddChannel(rec, c)
		}
		n.rec = fmt.Sprint(rec.ID)
		nets = append(nets, n)
	}
	w.Start()
	ctl := func() *Client {
		c := w.Dial("control")
		c.Register(ClientOpts{User: "alice", Nick: "me", Caps: []string{"soju.im/bouncer-networks"}})
		return c
	}
	cc := ctl()
	attach := func(n *p24Net) {
		if n.c != nil && !n.c.Closed() {
			return
		}
		n.uc = n.up.SyncLive(1)
		c := w.Dial("net" + n.rec)
		c.Register(ClientOpts{User: "alice", Nick: "me", NetID: n.rec, Caps: []string{"draft/chathistory", "batch", "server-time", "message-tags"}})
		n.c = c
	}
	line := func(n *p24Net, cv string) string {
		seq++
		tok := fmt.Sprintf("k%dk", seq)
		n.maxi[cv] = append(n.maxi[cv], tok)
		if strings.ContainsAny(cv[:1], "#&") {
			return fmt.Sprintf(":dude!u@h PRIVMSG %s :x %s", cv, tok)
		}
		return fmt.Sprintf(":%s!u@h PRIVMSG %s :x %s", cv, n.uc.CurNick(), tok)
	}
	check := func(n *p24Net, why string) {
		attach(n)
		for _, cv := range convs {
			may := map[string]bool{}
			for _, k := range n.maxi[cv] {
				may[k] = true
			}
			p24Compare(t, n.c, p24Conv{"after " + why, n.name, cv}, p24Hist(n.c, cv), n.msgs[cv], func(s string) bool { return may[s] })
		}
	}
	for _, n := range nets {
		attach(n)
	}
	steps := 6 + r.Intn(10)
	for i := 0; i < steps; i++ {
		n := nets[r.Intn(len(nets))]
		attach(n)
		n.uc = n.up.SyncLive(1)
		switch op := r.Intn(10); {
		case op < 4:
			var ls []string
			for _, cv := range convs {
				if r.Intn(3) == 0 {
					continue
				}
				ls = append(ls, line(n, cv))
				n.msgs[cv] = append(n.msgs[cv], lastOf(n.maxi[cv]))
			}
			n.uc.Send(ls...)
			n.uc.Sync()
		case op < 8:
			nm := free()
			if nm == "" {
				continue
			}
			flood := r.Intn(2) == 0
			from := n.c.Mark()
			if flood {
				var ls []string
				for k := 0; k < 30; k++ {
					ls = append(ls, line(n, Pick(r, convs)))
				}
				n.uc.Send(ls...)
			}
			var how string
			if r.Intn(2) == 0 {
				how = "service"
				reply := strings.Join(cc.Service("network update "+quoteArg(n.name)+" -name "+quoteArg(nm)), "\n")
				if !strings.Contains(reply, "updated network") {
					Failf("network update %q -name %q: %s", n.name, nm, reply)
				}
			} else {
				how = "protocol"
				m := cc.Mark()
				cc.Sendf("BOUNCER CHANGENETWORK %s :name=%s", n.rec, tagEscape(nm))
				cc.Sync()
				ok := false
				for _, l := range cc.Since(m) {
					if l.Command == "BOUNCER" && l.P(0) == "CHANGENETWORK" {
						ok = true
					}
				}
				if !ok {
					Failf("BOUNCER CHANGENETWORK of %q to %q was not acknowledged: %v", n.name, nm, cc.Since(m))
				}
			}
			t.State("rename %s flood=%v name=%q", how, flood, nm)
			t.Logf("%q -> %q (%s)", n.name, nm, how)
			n.name = nm
			n.uc = n.up.SyncLive(1)
			n.c.Sync()
			// whatever was shown must be in the history
			for _, l := range n.c.Since(from) {
				if l.Command == "PRIVMSG" {
					for _, k := range tokensOf(l.P(1)) {
						for _, cv := range convs {
							for _, x := range n.maxi[cv] {
								if x == k {
									n.msgs[cv] = append(n.msgs[cv], k)
								}
							}
						}
					}
				}
			}
			t.Count("renames", 1)
			check(n, "rename")
		case op < 9 && len(nets) < 4:
			nn := newNet()
			nn.name = free()
			if nn.name == "" {
				continue
			}
			nn.up = mkUp()
			m := cc.Mark()
			cc.Sendf("BOUNCER ADDNETWORK :name=%s;host=127.0.0.1;port=%s;tls=0", tagEscape(nn.name), portOf(nn.up.HostPort()))
			cc.Sync()
			for _, l := range cc.Since(m) {
				if l.Command == "BOUNCER" && l.P(0) == "ADDNETWORK" {
					nn.rec = l.P(1)
				}
			}
			if nn.rec == "" {
				Failf("network %q was not created: %v", nn.name, cc.Since(m))
			}
			nets = append(nets, nn)
			t.State("rename new network under a name used before")
			attach(nn)
			nn.c.Send("JOIN "+convs[0], "JOIN "+convs[1])
			nn.c.Sync()
			nn.uc.Sync()
			nn.uc.Sync()
			check(nn, "creation")
		default:
			w.Restart()
			cc = ctl()
			for _, n := range nets {
				n.c = nil
				attach(n)
			}
			t.State("rename restart")
		}
	}
	for _, n := range nets {
		check(n, "everything")
	}
	w.CheckNoPanic()
}

func portOf(hp string) string { return hp[strings.LastIndex(hp, ":")+1:] }

func p24Round(t *T) {
	r := t.Rng
	w := NewWorld(t, "fs")
	up := NewUpstream(t, "net")
	up.Caps = []string{"message-tags", "server-time"}
	up.ISupport = []string{"CASEMAPPING=ascii", "CHANTYPES=#", "PREFIX=(ov)@+"}
	up.Start()
	u := w.AddUser("me", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#c")
	w.Start()
	uc := up.Ready(0)
	uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" })
	uc.Sync()
	nicks := []string{"a", "b-", "-c", "d_", "[e]", "f|", "g`", "^h", "i\\", "j{}", "K9", "é"}
	texts := []string{"", " ", "  lead", "trail  ", ":", ": x", "::", "<a> hi", "> x", "- x", "-a- b", "* a b", "*** a is now known as b",
		"*** Joins: x (y@z)", "[12:34:56] <x> y", "\x01ACTION\x01", "\x01ACTION \x01", "\x01ACTION waves\x01", "\x01ACTION  two  spaces \x01", "\x01VERSION\x01", "\x01PING 123 4\x01", "\x01", "\x01\x01",
		"a\tb", "a\x0bb", "\x02bold\x02", "\x0304,5col", "\xff\xfe raw", "é日本\u2028x", "a> b> c", "a- b- c", "'quoted'", "(paren)", "((", "))", "%s %d %02d", "a;b=c", "\\n \\r \\s", strings.Repeat("long ", 80), "\x7f\x1b[0m"}
	base := time.Now().Truncate(time.Second).Add(-30 * 24 * time.Hour)
	type ent struct {
		l       Line
		event   bool
		t       time.Time
		members []string
	}
	var sent []ent
	var lines []string
	members := map[string]bool{}
	cur := base
	cnt := 30 + r.Intn(50)
	for i := 0; i < cnt; i++ {
		cur = cur.Add(time.Duration(1+r.Intn(4000)) * time.Second)
		nick := Pick(r, nicks)
		text := Pick(r, texts)
		kind := ""
		if r.Intn(3) == 0 {
			text = fmt.Sprintf("%s %d", RandText(r), i)
		}
		pfx := fmt.Sprintf(":%s!~u.x@ho/st", nick)
		raw := ""
		switch k := r.Intn(12); {
		case k < 4:
			kind, raw = "PRIVMSG", fmt.Sprintf("%s PRIVMSG #c :%s", pfx, text)
		case k < 6:
			kind, raw = "NOTICE", fmt.Sprintf("%s NOTICE #c :%s", pfx, text)
		case k == 6 && !members[nick]:
			kind, raw = "JOIN", fmt.Sprintf("%s JOIN #c", pfx)
			members[nick] = true
		case k == 7 && members[nick]:
			kind, raw = "PART", fmt.Sprintf("%s PART #c :%s", pfx, text)
			delete(members, nick)
		case k == 8 && members[nick]:
			kind, raw = "QUIT", fmt.Sprintf("%s QUIT :%s", pfx, text)
			delete(members, nick)
		case k == 9:
			kind, raw = "TOPIC", fmt.Sprintf("%s TOPIC #c :%s", pfx, text)
		case k == 10 && members[nick]:
			kind, raw = "KICK", fmt.Sprintf("%s KICK #c %s :%s", ":op!o@h", nick, text)
			delete(members, nick)
		case k == 11:
			if members[nick] && r.Intn(2) == 0 {
				kind, raw = "NICK", fmt.Sprintf("%s NICK %sx%d", pfx, nick, i)
				delete(members, nick)
			} else {
				kind, raw = "MODE", fmt.Sprintf("%s MODE #c %s", pfx, Pick(r, []string{"+o a", "-o+v a b-", "+b *!*@x", "+k key"}))
			}
		default:
			continue
		}
		t.State("roundtrip %s %s", kind, sizeClass(len(text)))
		m := irc.MustParseMessage(raw)
		lines = append(lines, "@time="+iso(cur)+" "+raw)
		sent = append(sent, ent{l: Line{Message: m, Raw: raw}, event: kind != "PRIVMSG" && kind != "NOTICE", t: cur})
	}
	for len(lines) > 0 {
		k := 30
		if k > len(lines) {
			k = len(lines)
		}
		uc.Send(lines[:k]...)
		uc.Sync()
		lines = lines[k:]
	}
	if r.Intn(3) == 0 {
		k := up.NumConns()
		w.Restart()
		uc = up.Ready(k)
		uc.Sync()
	}
	events := r.Intn(2) == 0
	caps := []string{"draft/chathistory", "batch", "server-time", "message-tags"}
	c := w.Connect(ClientOpts{User: "me", Network: "net", Caps: caps})
	if events {
		c.Send("CAP REQ draft/event-playback")
		c.Sync()
	}
	got, fail, _ := queryBatch(c, fmt.Sprintf("CHATHISTORY BETWEEN #c timestamp=%s timestamp=%s 1000", iso(base.Add(-time.Hour)), iso(cur.Add(time.Hour))), "chathistory")
	if fail != nil {
		Failf("history query failed: %q", fail.Raw)
	}
	i := 0
	for _, e := range sent {
		if e.event && !events {
			continue
		}
		if i >= len(got) {
			Failf("history ends before %q (%s)", e.l.Raw, iso(e.t))
		}
		g := got[i]
		i++
		bad := g.Command != e.l.Command || g.Prefix == nil || g.Prefix.Name != e.l.Prefix.Name || string(g.Tags["time"]) != iso(e.t)
		gp, wp := g.Params, e.l.Params
		// an empty reason is no reason
		trim := func(p []string, n int) []string {
			if len(p) == n+1 && p[n] == "" {
				return p[:n]
			}
			return p
		}
		switch g.Command {
		case "PART":
			gp, wp = trim(gp, 1), trim(wp, 1)
		case "QUIT":
			gp, wp = trim(gp, 0), trim(wp, 0)
		case "KICK":
			gp, wp = trim(gp, 2), trim(wp, 2)
		}
		if len(gp) != len(wp) {
			bad = true
		}
		for j := 0; j < len(gp) && !bad; j++ {
			a, b := gp[j], wp[j]
			if g.Command == "PRIVMSG" && j == 1 {
				a, b = normCTCP(a), normCTCP(b)
			}
			bad = a != b
		}
		if bad {
			Failf("logged %q at %s, read back %q", e.l.Raw, iso(e.t), g.Raw)
		}
		t.Count("messages read back", 1)
	}
	if i < len(got) {
		Failf("history has an additional entry %q", got[i].Raw)
	}
	w.CheckNoPanic()
}

// normCTCP writes an action the way the log format keeps it.
func normCTCP(s string) string {
	if !strings.HasPrefix(s, "\x01") {
		return s
	}
	x := strings.Trim(s, "\x01")
	cmd, arg, _ := strings.Cut(x, " ")
	if strings.ToUpper(cmd) != "ACTION" {
		return s
	}
	return "\x01ACTION " + arg + "\x01"
}
