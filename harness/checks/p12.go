package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P12", Level: "exploration",
		Rule:   "one execution = 2-3 users with identically named networks, channels, nicknames, clients and (in part) network servers, driven concurrently: traffic in both directions, topics, markers, history and search queries, reconnecting clients with backlog, creation, renaming and deletion of networks, and attempts to use the identifiers of other users' networks; every piece of data carries a token naming its owner (user and network), and every line received by any client or network connection, every history reply and every log file is scanned for foreign tokens; a situation is (kind of line, kind of owner, binding)",
		Assume: []string{"a network created under the name of an earlier network of the same user inherits its log directory (file store)"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "iso", e.N(350, 6000), p12Iso)
		},
	})
}

var p12Tok = regexp.MustCompile(`(?i)t([0-9])i([0-9]+)n[0-9]+z`)

type p12Net struct {
	user, inst int
	id         string
	name       string
	sees       map[int]bool // instances whose recorded data it may hold (file store)
	up         *Upstream
	uc         *UpConn
	conns      int
	dead       bool
	ready      bool
}

type p12Client struct {
	c    *Client
	net  *p12Net // nil: not bound
	user int
	pos  int
}

type p12User struct {
	idx     int
	name    string
	nets    []*p12Net // all that ever existed
	clients []*p12Client
	gone    []*p12Client
	rng     *rand.Rand
	n       int
}

type p12 struct {
	t     *T
	w     *World
	store string
	users []*p12User
	mu    sync.Mutex
	life  sync.Mutex // identifiers of deleted networks may be used again
	insts map[int]*p12Net
	dirs  map[string]map[int]bool // log directory -> instances recorded there
	next  int
	base  time.Time
}

func (s *p12) newInst(u *p12User, name string, up *Upstream) *p12Net {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.next++
	n := &p12Net{user: u.idx, inst: s.next, name: name, sees: map[int]bool{}, up: up}
	s.insts[n.inst] = n
	s.named(n, name)
	u.nets = append(u.nets, n)
	return n
}

// named records that n now uses the log directory called name.
func (s *p12) named(n *p12Net, name string) {
	key := fmt.Sprintf("%d/%s", n.user, name)
	if s.dirs[key] == nil {
		s.dirs[key] = map[int]bool{}
	}
	if n.name != name {
		for i := range s.dirs[fmt.Sprintf("%d/%s", n.user, n.name)] {
			s.dirs[key][i] = true
		}
	}
	s.dirs[key][n.inst] = true
	n.name = name
	for i := range s.dirs[key] {
		n.sees[i] = true
	}
}

func (s *p12) inst(i int) *p12Net { s.mu.Lock(); defer s.mu.Unlock(); return s.insts[i] }

func (u *p12User) tok(n *p12Net) string {
	u.n++
	i := 0
	if n != nil {
		i = n.inst
	}
	return fmt.Sprintf("t%di%dn%dz", u.idx, i, u.n)
}

func (s *p12) upstream(name string) *Upstream {
	up := NewUpstream(s.t, name)
	up.Host = "irc.example"
	up.Caps = []string{"message-tags", "server-time", "batch", "away-notify", "account-notify", "extended-join", "setname", "echo-message", "labeled-response"}
	up.Members = func(string) []string { return []string{"alice", "@bob"} }
	up.Start()
	return up
}

// foreign reports the first token in raw which may not appear there.
func (s *p12) foreign(raw string, user int, ok func(inst *p12Net) bool) string {
	for _, m := range p12Tok.FindAllStringSubmatch(raw, -1) {
		u, _ := strconv.Atoi(m[1])
		i, _ := strconv.Atoi(m[2])
		if u != user {
			return m[0] + " of another user"
		}
		if i != 0 {
			in := s.inst(i)
			if in == nil || !ok(in) {
				return m[0] + " of another network"
			}
		}
	}
	return ""
}

func (s *p12) scanClient(p *p12Client) {
	ls := p.c.Since(p.pos)
	p.pos += len(ls)
	hist := map[string]bool{}
	for _, l := range ls {
		if l.Command == "BATCH" && strings.HasPrefix(l.P(0), "+") {
			hist[l.P(0)[1:]] = true
		}
		service := l.Prefix != nil && l.Prefix.Name == "BouncerServ" || l.Command == "BOUNCER" || l.Command == "FAIL" || l.P(0) == "BouncerServ"
		inHist := l.Tags["batch"] != "" || l.Command == "PRIVMSG" || l.Command == "NOTICE" // backlog is not marked
		kind := "line"
		bad := s.foreign(l.Raw, p.user, func(in *p12Net) bool {
			if service {
				kind = "service"
				return true
			}
			if p.net == nil {
				return false
			}
			if in == p.net {
				return true
			}
			if s.store == "fs" && inHist {
				return p.net.sees[in.inst] // shares a log directory
			}
			return false
		})
		if bad != "" {
			p.c.Dump()
			Failf("%s received %q, which holds data %s", p.c.Name, l.Raw, bad)
		}
		if p12Tok.MatchString(l.Raw) {
			s.t.Count("tokens_seen_by_clients", 1)
			s.t.State("client|%s|%s|%v", l.Command, kind, p.net != nil)
		}
		if (l.Command == "MARKREAD" || l.Command == "READ") && strings.HasPrefix(l.P(1), "timestamp=") {
			ts, err := time.Parse(isoMs, strings.TrimPrefix(l.P(1), "timestamp="))
			Must(err)
			in := int(ts.Sub(s.base) / time.Hour)
			if p.net == nil || in != p.net.inst {
				p.c.Dump()
				Failf("%s (network %v) received the read marker %q of network instance %d", p.c.Name, p.net, l.Raw, in)
			}
			s.t.Count("markers_seen", 1)
		}
	}
}

func (s *p12) scanUp(n *p12Net) {
	for i, k := 0, n.up.NumConns(); i < k; i++ {
		c := n.up.Conn(i)
		for _, l := range c.Lines() {
			if bad := s.foreign(l.Raw, n.user, func(in *p12Net) bool { return in == n }); bad != "" {
				c.Dump()
				Failf("the network %q (instance %d) of user%d received %q, which holds data %s", n.name, n.inst, n.user, l.Raw, bad)
			}
			if p12Tok.MatchString(l.Raw) {
				s.t.Count("tokens_seen_by_networks", 1)
				s.t.State("net|%s", l.Command)
			}
		}
	}
}

func (s *p12) waitReady(n *p12Net) {
	n.up.Conn(n.conns)
	n.uc = n.up.Ready(n.conns)
	n.ready = true
}

func (u *p12User) live() (l []*p12Net) {
	for _, n := range u.nets {
		if !n.dead {
			l = append(l, n)
		}
	}
	return l
}

func (s *p12) connect(u *p12User, n *p12Net) *p12Client {
	o := ClientOpts{User: u.name, Caps: Subset(u.rng, []string{"message-tags", "batch", "server-time", "echo-message", "draft/chathistory", "draft/read-marker", "soju.im/search", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "away-notify", "setname"}, 0.7), Ack: u.rng.Intn(3) > 0}
	if n != nil {
		o.Network = n.name
		o.Client = Pick(u.rng, []string{"", "phone", "desk"})
	}
	c := s.w.Connect(o)
	p := &p12Client{c: c, net: n, user: u.idx}
	got := ""
	for _, l := range c.Lines() {
		if l.Command == "005" {
			for _, f := range l.Params {
				if v, ok := strings.CutPrefix(f, "BOUNCER_NETID="); ok {
					got = v
				}
			}
		}
	}
	if n != nil && got != n.id {
		c.Dump()
		Failf("%s: bound to network %q, want %q", c.Name, got, n.id)
	}
	u.clients = append(u.clients, p)
	return p
}

func (s *p12) drop(u *p12User, p *p12Client) {
	for i, q := range u.clients {
		if q == p {
			u.clients = append(u.clients[:i:i], u.clients[i+1:]...)
		}
	}
	u.gone = append(u.gone, p)
}

func (s *p12) netIDs(c *Client) map[string]string {
	from := c.Mark()
	c.Send("BOUNCER LISTNETWORKS")
	c.Sync()
	m := map[string]string{}
	for _, l := range c.Since(from) {
		if l.Command == "BOUNCER" && l.P(0) == "NETWORK" && strings.Contains(l.P(2), "host=") {
			m[l.P(1)] = l.P(2)
		}
	}
	return m
}

func (s *p12) step(u *p12User) {
	r := u.rng
	nets := u.live()
	var n *p12Net
	if len(nets) > 0 {
		n = Pick(r, nets)
	}
	var p *p12Client
	if len(u.clients) > 0 {
		p = Pick(r, u.clients)
	}
	chans := []string{"#shared", "#Chan"}
	switch k := r.Intn(30); {
	case k < 8 && n != nil && n.ready: // traffic from the network
		t := u.tok(n)
		ch := Pick(r, append(chans, n.uc.CurNick()))
		switch r.Intn(7) {
		case 0, 1, 2:
			n.uc.Sendf(":alice!a@h PRIVMSG %s :msg %s", ch, t)
		case 3:
			n.uc.Sendf(":bob!b@h NOTICE %s :note %s", ch, t)
		case 4:
			n.uc.Sendf(":alice!a@h TOPIC %s :topic %s", Pick(r, chans), t)
		case 5:
			n.uc.Sendf(":%s!a@h JOIN %s * :x", t, Pick(r, chans))
		case 6:
			n.uc.Sendf(":bob!b@h AWAY :gone %s", t)
		}
	case k < 14 && p != nil: // traffic from a client
		t := u.tok(p.net)
		if p.net == nil {
			if r.Intn(2) == 0 {
				p.c.Sendf("AWAY :gone %s", t)
			} else {
				p.c.Sendf("PRIVMSG %s :unbound %s", Pick(r, []string{"#shared", "alice", "#shared/net"}), t)
			}
			return
		}
		switch r.Intn(8) {
		case 0, 1, 2:
			p.c.Sendf("PRIVMSG %s :hello %s", Pick(r, []string{"#shared", "#Chan", "alice"}), t)
		case 3:
			p.c.Sendf("TOPIC #shared :mine %s", t)
		case 4:
			p.c.Sendf("WHOIS %s", t)
		case 5:
			p.c.Sendf("AWAY :away %s", t)
		case 6:
			p.c.Sendf("NICK nick%s", t)
		case 7:
			p.c.Sendf("MARKREAD #shared timestamp=%s", iso(s.base.Add(time.Duration(p.net.inst)*time.Hour+time.Duration(u.n)*time.Second)))
		}
	case k < 19 && p != nil: // queries
		switch r.Intn(6) {
		case 0, 1:
			p.c.Sendf("CHATHISTORY LATEST %s * 100", Pick(r, []string{"#shared", "#chan", "alice", "bob"}))
		case 2:
			p.c.Sendf("CHATHISTORY TARGETS timestamp=2020-01-01T00:00:00.000Z timestamp=2099-01-01T00:00:00.000Z 50")
		case 3:
			p.c.Sendf("SEARCH %s", Pick(r, []string{"text=msg", "text=t;in=#shared", "from=alice", "in=#chan"}))
		case 4:
			p.c.Sendf("MARKREAD #shared")
		case 5:
			p.c.Send(Pick(r, []string{"TOPIC #shared", "NAMES #shared", "WHO #shared", "LIST"}))
		}
	case k == 19 && n != nil: // client comes
		if len(u.clients) < 5 {
			if r.Intn(5) == 0 {
				n = nil
			}
			if n != nil && !n.ready {
				return
			}
			s.connect(u, n)
		}
	case k == 20 && p != nil: // client leaves
		s.drop(u, p)
		p.c.Disconnect()
	case k == 21 && n != nil && n.ready: // connection lost
		n.ready = false
		n.conns++
		n.uc.Close()
		s.waitReady(n)
		s.t.Count("reconnects", 1)
	case k == 22 && len(nets) < 4: // new network, possibly reusing a name
		name := Pick(r, []string{"net", "other", "third", "fourth"})
		for _, x := range nets {
			if x.name == name {
				return
			}
		}
		if p == nil {
			return
		}
		s.life.Lock()
		defer s.life.Unlock()
		n = s.newInst(u, name, s.upstream(name))
		out := p.c.Service(fmt.Sprintf("network create -addr %s -name %s -nick nick%s", n.up.Addr, name, u.tok(n)))
		_ = out
		for id, attrs := range s.netIDs(p.c) {
			if strings.Contains(attrs, "name="+name+";") || strings.HasSuffix(attrs, "name="+name) {
				n.id = id
			}
		}
		if n.id == "" {
			p.c.Dump()
			panic(Stuck{fmt.Sprintf("network create gave %q", out)})
		}
		s.waitReady(n)
		n.uc.DoJoin("#shared", "")
		s.t.Count("networks_created", 1)
	case k == 23 && n != nil && n.ready && p != nil: // renamed: the connection is re-established
		name := Pick(r, []string{"net", "other", "third", "fourth", "fifth"})
		for _, x := range nets {
			if x.name == name {
				return
			}
		}
		if r.Intn(2) == 0 {
			p.c.Service(fmt.Sprintf("network update %s -name %s", n.name, name))
		} else {
			p.c.Sendf("BOUNCER CHANGENETWORK %s name=%s", n.id, name)
			p.c.Sync()
		}
		if !strings.Contains(s.netIDs(p.c)[n.id], "name="+name) {
			p.c.Dump()
			Failf("%s: renaming network %s to %q had no effect", p.c.Name, n.id, name)
		}
		s.mu.Lock()
		s.named(n, name)
		s.mu.Unlock()
		n.ready = false
		n.conns++
		s.waitReady(n)
		n.uc.DoJoin("#shared", "")
		s.t.Count("networks_renamed", 1)
	case k == 24 && n != nil && len(nets) > 1 && r.Intn(2) == 0: // deleted
		var by *p12Client
		for _, q := range u.clients {
			if q.net != n {
				by = q
			}
		}
		if by == nil {
			return
		}
		s.life.Lock()
		defer s.life.Unlock()
		by.c.Service("network delete " + n.name)
		n.dead = true
		for _, q := range append([]*p12Client(nil), u.clients...) {
			if q.net == n {
				s.drop(u, q)
				q.c.WaitClosed("deleted network")
			}
		}
		s.t.Count("networks_deleted", 1)
	case k >= 25 && p != nil: // another user's network
		s.life.Lock()
		defer s.life.Unlock()
		s.mu.Lock()
		var others []*p12Net
		for _, x := range s.insts {
			if x.user != u.idx && x.id != "" && !x.dead {
				others = append(others, x)
			}
		}
		s.mu.Unlock()
		if len(others) == 0 {
			return
		}
		sort.Slice(others, func(i, j int) bool { return others[i].inst < others[j].inst })
		o := Pick(r, others)
		switch r.Intn(4) {
		case 0, 1:
			from := p.c.Mark()
			cmd := "CHANGENETWORK"
			if r.Intn(2) == 0 {
				p.c.Sendf("BOUNCER CHANGENETWORK %s nickname=%s", o.id, u.tok(nil))
			} else {
				cmd = "DELNETWORK"
				p.c.Sendf("BOUNCER DELNETWORK %s", o.id)
			}
			end := p.c.Sync()
			ok := false
			for i, l := range p.c.Since(from) {
				if from+i > end {
					break
				}
				if l.Command == "FAIL" && l.P(0) == "BOUNCER" {
					ok = true
				}
			}
			if !ok {
				p.c.Dump()
				Failf("%s: BOUNCER %s %s on a network of user%d was not refused", p.c.Name, cmd, o.id, o.user)
			}
			s.t.State("attack|%s", cmd)
		case 2, 3:
			c := s.w.Dial("bind-attack")
			c.Send("CAP LS 302", "CAP REQ :sasl", "CAP REQ :soju.im/bouncer-networks")
			c.SASLPlain(u.name, "pw-"+u.name)
			c.Sendf("NICK x")
			c.Sendf("USER x 0 * :x")
			c.Sendf("BOUNCER BIND %s", o.id)
			c.Send("CAP END")
			i := c.Wait(0, "answer to BIND", func(l Line) bool { return l.Command == "001" || l.Command == "FAIL" || l.Command == "ERROR" })
			if i >= 0 && c.Lines()[i].Command == "001" {
				c.Dump()
				Failf("user%d could bind a connection to network %s of user%d", u.idx, o.id, o.user)
			}
			c.Close()
			s.t.State("attack|BIND")
		}
		s.t.Count("attacks", 1)
	}
}

func p12Iso(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db"})
	w := NewWorld(t, store)
	s := &p12{t: t, w: w, store: store, insts: map[int]*p12Net{}, dirs: map[string]map[int]bool{}, base: time.Now().Add(-60 * 24 * time.Hour).Truncate(time.Hour)}
	users := 2 + r.Intn(2)
	for i := 0; i < users; i++ {
		u := &p12User{idx: i, name: fmt.Sprintf("user%d", i), rng: rand.New(rand.NewSource(r.Int63()))}
		s.users = append(s.users, u)
		rec := w.AddUser(u.name, false)
		for _, name := range []string{"net", "other"}[:1+r.Intn(2)] {
			up := s.upstream(name)
			n := s.newInst(u, name, up)
			d := w.AddNetwork(rec, name, up)
			n.id = fmt.Sprint(d.ID)
			for _, ch := range []string{"#shared", "#Chan"} {
				w.AddChannel(d, ch)
			}
		}
	}
	w.Start()
	defer func() {
		if v := recover(); v != nil {
			t.Logf("server log:\n%s", w.Log.String())
			panic(v)
		}
	}()
	for _, u := range s.users {
		for _, n := range u.nets {
			s.waitReady(n)
		}
	}
	var fs []func()
	for _, u := range s.users {
		u := u
		fs = append(fs, func() {
			for i := 0; i < 2+u.rng.Intn(2); i++ {
				s.connect(u, Pick(u.rng, append(u.live(), nil)))
			}
			for i, n := 0, 80+u.rng.Intn(120); i < n; i++ {
				s.step(u)
			}
			// everything has arrived
			for _, n := range u.live() {
				if n.ready {
					n.uc.Sync()
					n.uc.Sync()
				}
			}
			// queries about everything
			for _, n := range u.live() {
				if n.ready {
					p := s.connect(u, n)
					for _, tg := range []string{"#shared", "#chan", "alice", "bob"} {
						p.c.Sendf("CHATHISTORY LATEST %s * 500", tg)
					}
					p.c.Send("SEARCH text=t", "MARKREAD #shared", "TOPIC #shared")
				}
			}
			for _, p := range u.clients {
				p.c.Sync()
			}
		})
	}
	guarded(fs...)
	for _, u := range s.users {
		for _, p := range append(u.clients, u.gone...) {
			s.scanClient(p)
		}
		for _, n := range u.nets {
			s.scanUp(n)
		}
		if len(u.clients) > 0 {
			want := map[string]bool{}
			for _, n := range u.live() {
				want[n.id] = true
			}
			got := map[string]bool{}
			for id := range s.netIDs(u.clients[0].c) {
				got[id] = true
			}
			if setStr(got) != setStr(want) {
				Failf("%s lists networks %s, want %s", u.clients[0].c.Name, setStr(got), setStr(want))
			}
		}
	}
	if store == "fs" {
		root := w.StoreDir()
		filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return nil
			}
			rel, _ := filepath.Rel(root, path)
			parts := strings.Split(rel, string(filepath.Separator))
			data, err := os.ReadFile(path)
			Must(err)
			ui := -1
			for _, u := range s.users {
				if u.name == parts[0] {
					ui = u.idx
				}
			}
			if ui < 0 || len(parts) < 3 {
				Failf("log file %q belongs to no user", rel)
			}
			for _, line := range strings.Split(string(data), "\n") {
				if bad := s.foreign(line, ui, func(in *p12Net) bool { return s.dirs[fmt.Sprintf("%d/%s", ui, parts[1])][in.inst] }); bad != "" {
					Failf("log file %q holds %q, data %s", rel, line, bad)
				}
				t.Count("log_lines_scanned", 1)
			}
			return nil
		})
	}
	w.CheckNoPanic()
}
