package checks

import (
	"context"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"gopkg.in/irc.v4"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P32", Level: "stress_oracle",
		Rule:   "steps: networks are added, changed and removed with BOUNCER commands and with the service, enabled and disabled, renamed, pointed at servers which accept, refuse for good, or are unreachable; nicks and real names change on the network and account level; connections are lost. Each client with notifications replays them; whenever it asks for a listing, the listing must equal the replayed state at that point of its stream, attribute by attribute; clients without notifications must see none. At every quiescent point the listing must equal the model and the database. race: several clients do this at the same time. A situation is (operation, accepted, number of networks, connected networks, error shown)",
		Assume: []string{"error texts are not compared with a model, only between notifications and listings"},
		Cases: func(e *Env) []Case {
			c := Repeat(e, "steps", e.N(700, 5000), p32Steps)
			return append(c, Repeat(e, "race", e.N(300, 3000), p32Race)...)
		},
	})
}

// netFollower replays network notifications.
type netFollower struct {
	cl     *Client
	notify bool
	pos    int
	nets   map[string]irc.Tags
	batch  string
	list   map[string]irc.Tags
	lists  int
	init   bool
	last   map[string]irc.Tags // last listing
}

func attrStr(m map[string]irc.Tags) string {
	var l []string
	for id, a := range m {
		var ks []string
		for k, v := range a {
			ks = append(ks, fmt.Sprintf("%s=%q", k, v))
		}
		sort.Strings(ks)
		l = append(l, id+": "+strings.Join(ks, " "))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (f *netFollower) feed(t *T) {
	ls := f.cl.Since(f.pos)
	f.pos += len(ls)
	for _, l := range ls {
		switch {
		case l.Command == "BATCH" && l.P(1) == "soju.im/bouncer-networks":
			if !strings.HasPrefix(l.P(0), "+") {
				Failf("batch %q", l.Raw)
			}
			f.batch, f.list = l.P(0)[1:], map[string]irc.Tags{}
		case l.Command == "BATCH" && f.batch != "" && l.P(0) == "-"+f.batch:
			f.batch = ""
			f.lists++
			f.last = f.list
			if !f.init {
				f.init = true
				f.nets = map[string]irc.Tags{}
				for id, a := range f.list {
					f.nets[id] = a.Copy()
				}
				break
			}
			if f.notify && attrStr(f.nets) != attrStr(f.list) {
				f.cl.Dump()
				Failf("%s: following the notifications gives\n%s\nbut the list is\n%s", f.cl.Peer.Name, attrStr(f.nets), attrStr(f.list))
			}
			t.Count("listings compared with notifications", 1)
		case l.Command == "BOUNCER" && l.P(0) == "NETWORK":
			id := l.P(1)
			if b := string(l.Tags["batch"]); b != "" {
				if b != f.batch {
					Failf("network in an unknown batch: %q", l.Raw)
				}
				if _, dup := f.list[id]; dup {
					Failf("network %s listed twice", id)
				}
				f.list[id] = irc.ParseTags(l.P(2))
				for k, v := range f.list[id] {
					if v == "" {
						Failf("listed attribute %q without a value: %q", k, l.Raw)
					}
				}
				continue
			}
			if !f.notify {
				f.cl.Dump()
				Failf("%s did not ask for notifications: %q", f.cl.Peer.Name, l.Raw)
			}
			t.Count("notifications followed", 1)
			if l.P(2) == "*" {
				if f.nets[id] == nil {
					f.cl.Dump()
					Failf("%s: removal of the unknown network: %q", f.cl.Peer.Name, l.Raw)
				}
				delete(f.nets, id)
				continue
			}
			if f.nets[id] == nil {
				f.nets[id] = irc.Tags{}
			}
			for k, v := range irc.ParseTags(l.P(2)) {
				if v == "" {
					delete(f.nets[id], k)
				} else {
					f.nets[id][k] = v
				}
			}
		}
	}
}

// ask requests a listing.
func (f *netFollower) ask(t *T) map[string]irc.Tags {
	n := f.lists
	f.cl.Send("BOUNCER LISTNETWORKS")
	f.cl.Sync()
	f.feed(t)
	if f.lists != n+1 {
		f.cl.Dump()
		Failf("%s: %d listings for one request", f.cl.Peer.Name, f.lists-n)
	}
	return f.last
}

type p32Net struct {
	id             string
	name           string // "" = address
	addr           string
	nick, user, rn string // "" = default
	enabled        bool
	kind           int // 0, 1 accept, 2 refuses for good, 3 unreachable, 4 no TLS there
}

type p32 struct {
	t        *T
	r        *rand.Rand
	w        *World
	ups      []*Upstream
	nets     []*p32Net
	nick, rn string // account
	fol      []*netFollower
	bound    map[*netFollower]string // network id
	seq      int
	others   int // clients of other users
	dead     string
	reject   [2]atomic.Bool // the server refuses everybody for now
}

func newP32(t *T) *p32 {
	p := &p32{t: t, r: t.Rng, bound: map[*netFollower]string{}, nick: "alice"}
	p.w = NewWorld(t, "memory")
	p.w.AddUser("alice", false)
	p.w.AddUser("bob", false)
	for i := 0; i < 3; i++ {
		up := NewUpstream(t, fmt.Sprintf("sim%d", i))
		i := i
		if i < 2 {
			up.Welcome = func(c *UpConn) {
				if p.reject[i].Load() {
					c.Sendf(":%s 465 %s :You are banned for now", up.Host, c.CurNick())
					return
				}
				c.SendWelcome()
			}
		}
		switch i {
		case 1:
			up.Caps = append(append([]string(nil), up.Caps...), "setname")
			up.OnLine = func(c *UpConn, l Line) bool {
				if l.Command == "SETNAME" {
					c.Sendf(":%s SETNAME :%s", c.Prefix(), l.P(0))
				}
				return false
			}
		case 2:
			up.Welcome = func(c *UpConn) {
				c.Sendf(":%s 465 %s :You are banned", up.Host, c.CurNick())
			}
		}
		p.ups = append(p.ups, up.Start())
	}
	// A port nobody listens on, nor can anybody else take
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	Must(err)
	t.Cleanup(func() { syscall.Close(fd) })
	Must(syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}))
	sa, err := syscall.Getsockname(fd)
	Must(err)
	p.dead = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	p.w.Start()
	return p
}

func (p *p32) join(user, network string, notify bool) *netFollower {
	o := ClientOpts{User: user, NetID: network, Caps: []string{"batch", "soju.im/bouncer-networks", "setname"}}
	if notify {
		o.Caps = append(o.Caps, "soju.im/bouncer-networks-notify")
	}
	f := &netFollower{notify: notify}
	f.cl = p.w.Connect(o)
	f.cl.Sync()
	f.feed(p.t)
	if notify && !f.init {
		f.cl.Dump()
		Failf("no initial list was sent to a client with notifications")
	}
	if !notify && f.lists > 0 {
		Failf("an initial list was sent to a client without notifications")
	}
	p.bound[f] = network
	return f
}

func (p *p32) addr(r *rand.Rand) (kind int, hostport string) {
	kind = r.Intn(4)
	if kind == 3 {
		return kind, p.dead
	}
	return kind, p.ups[kind].HostPort()
}

func (p *p32) kindOf(addr string) int {
	for i, u := range p.ups {
		if addr == "irc+insecure://"+u.HostPort() {
			return i
		}
	}
	return 3
}

func (p *p32) byID(id string) *p32Net {
	for _, n := range p.nets {
		if n.id == id {
			return n
		}
	}
	return nil
}

func (n *p32Net) getName() string {
	if n.name != "" {
		return n.name
	}
	return n.addr
}

func (p *p32) want(connected map[string]string) map[string]irc.Tags {
	m := map[string]irc.Tags{}
	for _, n := range p.nets {
		a := irc.Tags{"name": n.getName(), "nickname": p.nickOf(n), "realname": p.realOf(n)}
		if n.user != "" {
			a["username"] = n.user
		}
		hp := strings.TrimPrefix(n.addr, "irc+insecure://")
		a["tls"] = "1"
		if hp != n.addr {
			a["tls"] = "0"
		}
		h, pt, err := net.SplitHostPort(hp)
		if err == nil {
			a["host"], a["port"] = h, pt
		} else {
			a["host"] = hp
		}
		a["state"] = "disconnected"
		if n.enabled && n.kind < 2 {
			a["state"] = "connected"
		}
		m[n.id] = a
	}
	return m
}

func (p *p32) nickOf(n *p32Net) string {
	if n.nick != "" {
		return n.nick
	}
	return p.nick
}

func (p *p32) realOf(n *p32Net) string {
	if n.rn != "" {
		return n.rn
	}
	if p.rn != "" {
		return p.rn
	}
	return p.nickOf(n)
}

// check compares a listing with the model and the database.
func (p *p32) check(what string) {
	want := p.want(nil)
	f := p.fol[0]
	start := time.Now()
	for {
		got := f.ask(p.t)
		bad := ""
		for id, a := range got {
			n := p.byID(id)
			_, hasErr := a["error"]
			if n != nil {
				wantErr := n.enabled && n.kind >= 2
				if hasErr != wantErr && n.kind != 4 {
					bad = fmt.Sprintf("network %s: error shown: %v (%q), want %v", id, hasErr, a["error"], wantErr)
				}
			}
		}
		cp := map[string]irc.Tags{}
		for id, a := range got {
			a = a.Copy()
			delete(a, "error")
			cp[id] = a
		}
		if g, w := attrStr(cp), attrStr(want); g != w {
			bad = fmt.Sprintf("the list is\n%s\nwant\n%s", g, w)
		}
		if bad == "" {
			break
		}
		if time.Since(start) > Watchdog/4 {
			f.cl.Dump()
			Failf("after %s: %s", what, bad)
		}
		time.Sleep(3 * time.Millisecond)
	}
	for _, g := range p.fol[1:] {
		g.ask(p.t)
	}
	var db []string
	recs, err := p.w.DB.ListNetworks(context.Background(), p.w.UserID("alice"))
	Must(err)
	for _, n := range recs {
		db = append(db, fmt.Sprintf("%d %s %s %s %s %s %v", n.ID, n.Name, n.Addr, n.Nick, n.Username, n.Realname, n.Enabled))
	}
	var md []string
	for _, n := range p.nets {
		md = append(md, fmt.Sprintf("%s %s %s %s %s %s %v", n.id, n.name, n.addr, n.nick, n.user, n.rn, n.enabled))
	}
	sort.Strings(db)
	sort.Strings(md)
	if strings.Join(db, "\n") != strings.Join(md, "\n") {
		Failf("after %s: the database has\n%s\nthe model\n%s", what, strings.Join(db, "\n"), strings.Join(md, "\n"))
	}
	conn, errs := 0, 0
	for _, a := range want {
		if a["state"] == "connected" {
			conn++
		}
	}
	for _, a := range f.last {
		if a["error"] != "" {
			errs++
		}
	}
	p.t.State("%s networks %d connected %d errors %d", strings.Fields(what)[0], len(p.nets), conn, errs)
	p.t.Count("listings compared with the model", 1)
}

// reply sends a BOUNCER command and returns its answer.
func (f *netFollower) reply(t *T, sub, args string) (ok bool, id string) {
	m := f.cl.Mark()
	f.cl.Send("BOUNCER " + sub + " " + args)
	f.cl.Sync()
	n := 0
	for _, l := range f.cl.Since(m) {
		switch {
		case l.Command == "BOUNCER" && l.P(0) == sub:
			ok, id = true, l.P(1)
			n++
		case l.Command == "FAIL" && l.P(0) == "BOUNCER":
			n++
		}
	}
	if n != 1 {
		f.cl.Dump()
		Failf("%d answers to BOUNCER %s %s", n, sub, args)
	}
	return ok, id
}

func (p *p32) randName(r *rand.Rand) string {
	return Pick(r, []string{"one", "two", "semi;colon", "sp ace", "back\\slash", fmt.Sprintf("n%d", r.Intn(1000)), "\u00fcml", "a=b", "quote\"d"})
}

// attrs draws attributes and applies them to a copy of the network.
func (p *p32) attrs(r *rand.Rand, n p32Net, add bool) (string, p32Net) {
	a := irc.Tags{}
	if add || r.Intn(2) == 0 {
		kind, hp := p.addr(r)
		h, pt, _ := net.SplitHostPort(hp)
		a["host"], a["port"], a["tls"] = h, pt, "0"
		n.addr, n.kind = "irc+insecure://"+hp, kind
	} else if r.Intn(8) == 0 {
		a["tls"] = "1"
		n.addr = strings.TrimPrefix(n.addr, "irc+insecure://")
		n.kind = 4
	}
	if add || r.Intn(2) == 0 {
		n.nick = Pick(r, []string{"nick1", "nick2", "nick3", p.nick, fmt.Sprintf("k%d", r.Intn(1000))})
		a["nickname"] = n.nick
	}
	if r.Intn(2) == 0 {
		n.name = p.randName(r)
		if !add && r.Intn(6) == 0 {
			n.name = ""
		}
		a["name"] = n.name
	}
	if r.Intn(3) == 0 {
		n.user = Pick(r, []string{"ident", "x", ""})
		a["username"] = n.user
	}
	if r.Intn(3) == 0 {
		n.rn = Pick(r, []string{"Real Name", "R; x=y", "", fmt.Sprintf("rn%d", r.Intn(1000))})
		a["realname"] = n.rn
	}
	if r.Intn(4) == 0 {
		a["pass"] = "secret-pass"
	}
	for k, v := range a {
		_ = k
		_ = v
	}
	if n.nick == p.nick {
		n.nick = ""
	}
	if n.rn == p.rn {
		n.rn = ""
	}
	return ":" + irc.Tags(a).String(), n
}

func (p *p32) step() string {
	r := p.r
	p.seq++
	f := Pick(r, p.fol)
	var n *p32Net
	if len(p.nets) > 0 {
		n = Pick(r, p.nets)
	}
	k := r.Intn(16)
	if n == nil || len(p.nets) < 2 && k > 8 {
		k = 0
	}
	norm := func(x *p32Net) {
		if x.nick == p.nick {
			x.nick = ""
		}
		if x.rn == p.rn {
			x.rn = ""
		}
	}
	switch {
	case k < 2:
		if len(p.nets) > 6 {
			return "nothing"
		}
		s, nn := p.attrs(r, p32Net{enabled: true}, true)
		ok, id := f.reply(p.t, "ADDNETWORK", s)
		if ok {
			if p.byID(id) != nil {
				Failf("the new network got the identifier %s of an existing one", id)
			}
			nn.id = id
			p.nets = append(p.nets, &nn)
		}
		return fmt.Sprintf("add %v %s", ok, s)
	case k < 6:
		s, nn := p.attrs(r, *n, false)
		if s == ":" {
			return "nothing"
		}
		ok, id := f.reply(p.t, "CHANGENETWORK", n.id+" "+s)
		if ok {
			if id != n.id {
				Failf("change of network %s acknowledged as %s", n.id, id)
			}
			norm(&nn)
			*n = nn
		}
		return fmt.Sprintf("change %v %s", ok, s)
	case k < 7:
		if p.bound[f] == n.id {
			f = p.fol[0] // it would be disconnected
		}
		ok, id := f.reply(p.t, "DELNETWORK", n.id)
		if !ok || id != n.id {
			Failf("network %s could not be deleted", n.id)
		}
		p.forget(n)
		return "delete " + n.id
	case k < 8:
		bad := Pick(r, []string{"DELNETWORK 9999", "DELNETWORK x", "CHANGENETWORK 9999 name=x", "CHANGENETWORK " + n.id + " bogus=1", "ADDNETWORK name=nohost", "CHANGENETWORK " + n.id + " name=*", "FROB"})
		sub, args, _ := strings.Cut(bad, " ")
		if ok, _ := f.reply(p.t, sub, args); ok {
			Failf("accepted: BOUNCER %s", bad)
		}
		return "refused command"
	case k < 9: // service
		cmd := ""
		nn := *n
		switch r.Intn(4) {
		case 0:
			nn.enabled = !n.enabled
			cmd = fmt.Sprintf("network update %s -enabled %v", quoteArg(n.getName()), nn.enabled)
		case 1:
			nn.name = p.randName(r)
			cmd = fmt.Sprintf("network update %s -name %s", quoteArg(n.getName()), quoteArg(nn.name))
		case 2:
			kind, hp := p.addr(r)
			nn.addr, nn.kind = "irc+insecure://"+hp, kind
			cmd = fmt.Sprintf("network update %s -addr %s -username %s", quoteArg(n.getName()), nn.addr, quoteArg("svc"))
			nn.user = "svc"
		case 3:
			cmd = "network delete " + quoteArg(n.getName())
		}
		first := n
		for _, o := range p.nets { // addresses may name another network
			if o.getName() == n.getName() {
				first = o
				break
			}
		}
		if first != n {
			return "nothing"
		}
		out := strings.Join(p.svc().Service(cmd), "\n")
		ok := strings.HasPrefix(out, "updated network") || strings.HasPrefix(out, "deleted network")
		if ok {
			if strings.HasPrefix(cmd, "network delete") {
				p.forget(n)
			} else {
				norm(&nn)
				*n = nn
			}
		}
		return fmt.Sprintf("service %v %s: %s", ok, cmd, out)
	case k < 10: // account
		u := p.svc()
		if r.Intn(2) == 0 {
			nick := fmt.Sprintf("acct%d", p.seq)
			if r.Intn(3) == 0 {
				u.Send("NICK " + nick)
				u.Sync()
			} else if out := u.Service("user update -nick " + nick); !strings.HasPrefix(strings.Join(out, ""), "updated user") {
				Failf("user update: %q", out)
			}
			p.nick = nick
			return "account nick"
		}
		rn := Pick(r, []string{"Account Name", fmt.Sprintf("rn%d", p.seq), ""})
		if out := u.Service("user update -realname " + quoteArg(rn)); !strings.HasPrefix(strings.Join(out, ""), "updated user") {
			Failf("user update: %q", out)
		}
		if p.rn != rn {
			p.rn = rn
			// networks with the default are connected again, which drops
			// settings equal to the default
		}
		return "account realname " + rn
	case k < 13: // a client of the network
		if len(p.fol) > 6 {
			p.drop(len(p.fol) - 1)
		}
		g := p.join("alice", n.id, r.Intn(3) > 0)
		p.fol = append(p.fol, g)
		switch r.Intn(3) {
		case 0:
			nick := fmt.Sprintf("cn%d", p.seq)
			g.cl.Send("NICK " + nick)
			g.cl.Sync()
			ok := true
			for _, o := range p.nets {
				if o != n && o.addr == n.addr && o.nick == nick {
					ok = false
				}
			}
			if ok {
				n.nick = nick
			}
			return "client nick"
		case 1:
			rn := fmt.Sprintf("crn%d", p.seq)
			g.cl.Send("SETNAME " + rn)
			g.cl.Sync()
			if !n.enabled || n.kind != 1 {
				nn := *n
				nn.rn = rn
				norm(&nn)
				*n = nn
			} else {
				n.rn = rn
			}
			return "client realname"
		}
		return "client of a network"
	case k < 15: // lost connection
		if !n.enabled || n.kind > 1 {
			return "nothing"
		}
		if k == 14 && r.Intn(2) == 0 {
			return p.outage(n.kind)
		}
		up := p.ups[n.kind]
		c := up.Newest()
		c.Peer.Close()
		return "connection lost"
	default:
		if len(p.fol) > 3 {
			p.drop(1 + r.Intn(len(p.fol)-1))
		} else {
			p.fol = append(p.fol, p.join("alice", "", r.Intn(2) == 0))
		}
		return "clients"
	}
}

// outage makes a server refuse everybody for a while; all clients may be gone
// when it accepts connections again.
func (p *p32) outage(kind int) string {
	up := p.ups[kind]
	p.reject[kind].Store(true)
	up.CloseAll()
	for start := time.Now(); ; time.Sleep(2 * time.Millisecond) {
		bad := ""
		list := p.fol[0].ask(p.t)
		for _, n := range p.nets {
			if a := list[n.id]; n.enabled && n.kind == kind && (a["state"] == "connected" || a["error"] == "") {
				bad = n.id
			}
		}
		if bad == "" {
			break
		}
		if time.Since(start) > Watchdog/4 {
			p.fol[0].cl.Dump()
			Failf("network %s refuses connections, but no error is shown or it is shown as connected", bad)
		}
	}
	away := p.r.Intn(3) > 0
	if away {
		for len(p.fol) > 0 {
			p.drop(0)
		}
		p.w.WaitDownstreams(int64(p.others))
	}
	p.reject[kind].Store(false)
	for _, n := range p.nets {
		if n.enabled && n.kind == kind {
			up.SyncLive(2)
		}
	}
	if away {
		// some time for all of the networks
		want := 0
		for _, n := range p.nets {
			if n.enabled && n.kind == kind {
				want++
			}
		}
		for start := time.Now(); up.Live() < want; time.Sleep(2 * time.Millisecond) {
			if time.Since(start) > Watchdog {
				panic(Stuck{up.Name + ": connections missing after an outage"})
			}
		}
		p.fol = append(p.fol, p.join("alice", "", true), p.join("alice", "", false))
		p.t.Count("outages nobody saw the end of", 1)
	}
	return "outage"
}

func (p *p32) svc() *Client {
	for _, f := range p.fol {
		if p.bound[f] == "" {
			return f.cl
		}
	}
	panic("no client")
}

func (p *p32) drop(i int) {
	p.fol[i].feed(p.t)
	p.fol[i].cl.CloseWait()
	p.fol = append(p.fol[:i:i], p.fol[i+1:]...)
}

func (p *p32) forget(n *p32Net) {
	for i, o := range p.nets {
		if o == n {
			p.nets = append(p.nets[:i:i], p.nets[i+1:]...)
			break
		}
	}
	// its clients are closed
	for i := 0; i < len(p.fol); i++ {
		if p.bound[p.fol[i]] == n.id {
			p.fol[i].cl.WaitClosed("a client of the deleted network")
			p.fol = append(p.fol[:i:i], p.fol[i+1:]...)
			i--
		}
	}
}

func p32Steps(t *T) {
	p := newP32(t)
	p.fol = append(p.fol, p.join("alice", "", true), p.join("alice", "", false))
	bob := p.join("bob", "", true)
	p.others = 1
	for k := 0; k < 20; k++ {
		what := p.step()
		t.Logf("%s", what)
		p.check(what)
		t.Count("steps", 1)
	}
	if l := bob.ask(t); len(l) > 0 {
		Failf("another user sees networks: %s", attrStr(l))
	}
	p.w.CheckNoPanic()
}

func p32Race(t *T) {
	p := newP32(t)
	r := t.Rng
	for i := 0; i < 3; i++ {
		p.fol = append(p.fol, p.join("alice", "", true))
	}
	for k := 0; k < 3; k++ {
		s, _ := p.attrs(r, p32Net{enabled: true}, true)
		p.fol[0].reply(t, "ADDNETWORK", s)
	}
	p.fol[0].ask(t)
	for round := 0; round < 3; round++ {
		var fs []func()
		var ids []string
		for id := range p.fol[0].last {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		ids = append(ids, "9999")
		for _, f := range p.fol {
			f := f
			rr := rand.New(rand.NewSource(r.Int63()))
			fs = append(fs, func() {
				for j := 0; j < 6; j++ {
					s, _ := p.attrs(rr, p32Net{enabled: true, addr: "irc+insecure://" + p.dead}, rr.Intn(2) == 0)
					switch rr.Intn(8) {
					case 0, 1:
						s, _ = p.attrs(rr, p32Net{}, true)
						f.cl.Send("BOUNCER ADDNETWORK " + s)
					case 2:
						f.cl.Send("BOUNCER DELNETWORK " + Pick(rr, ids))
					case 3:
						f.cl.Send(fmt.Sprintf("PRIVMSG BouncerServ :user update -nick a%d", rr.Intn(1000)))
					case 4:
						f.ask(t)
					default:
						if s != ":" {
							f.cl.Send("BOUNCER CHANGENETWORK " + Pick(rr, ids) + " " + s)
						}
					}
				}
				f.ask(t)
			})
		}
		fs = append(fs, func() {
			for j := 0; j < 3; j++ {
				up := p.ups[j%2]
				if up.NumConns() > 0 {
					up.Newest().Peer.Close()
				}
				time.Sleep(time.Millisecond)
			}
		})
		guarded(fs...)
		for _, f := range p.fol {
			f.ask(t)
		}
		t.State("race networks %d", len(p.fol[0].last))
		t.Count("racing rounds", 1)
		for _, id := range ids { // keep the number bounded
			if len(ids) > 6 && id != "9999" {
				p.fol[0].cl.Send("BOUNCER DELNETWORK " + id)
			}
		}
		p.fol[0].ask(t)
	}
	p.w.CheckNoPanic()
}
