package checks

import (
	"context"
	"crypto/tls"
	"fmt"
	"net"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P18", Level: "stress_oracle",
		Rule:   "one execution = an administrator and an ordinary user, random limits (account, server default, changed while running) and a random sequence of network creations, updates, renames, enablings, deletions through service commands, administrator commands on behalf of the user, BOUNCER and logins naming a new server; after every command the stored networks are compared with the model's accept/refuse decision and with the invariants (count of enabled networks, unique names, no reserved name). 'race': several connections add and enable networks at once. 'unix': every way of naming a local socket by users with and without administrator rights, with a listener there counting connections. A situation is (command path, effective limit, enabled count, outcome)",
		Assume: nil,
		Cases: func(e *Env) []Case {
			l := Repeat(e, "history", e.N(1000, 12000), p18History)
			l = append(l, Repeat(e, "race", e.N(300, 4000), p18Race)...)
			return append(l, Repeat(e, "unix", e.N(250, 3000), p18Unix)...)
		},
	})
}

func enabledCount(l []database.Network) (n int) {
	for _, x := range l {
		if x.Enabled {
			n++
		}
	}
	return n
}

// netInvariants checks what must hold whatever was done.
func netInvariants(l []database.Network, what string) {
	seen := map[string]bool{}
	for i := range l {
		n := l[i].GetName()
		if seen[n] {
			Failf("%s: two networks are named %q", what, n)
		}
		seen[n] = true
		if n == "" || n == "*" || strings.HasPrefix(n, "-") {
			Failf("%s: there is a network named %q", what, n)
		}
	}
}

func listNets(w *World, user string) []database.Network {
	l, err := w.DB.ListNetworks(context.Background(), w.UserID(user))
	Must(err)
	return l
}

func p18History(t *T) {
	r := t.Rng
	w := NewWorld(t, "memory")
	def := r.Intn(6) - 1
	var cfgMax atomic.Int64
	cfgMax.Store(int64(def))
	w.Cfg = func(c *soju.Config) { c.MaxUserNetworks = int(cfgMax.Load()) }
	max := -1
	if r.Intn(2) == 0 {
		max = r.Intn(5)
	}
	admin := r.Intn(3) == 0
	w.AddUser("root", true)
	w.AddUser("alice", admin, func(u *database.User) { u.MaxNetworks = max })
	// A server new networks can be created for by logging in
	cert := NewCert(CertOpts{Hosts: []string{"127.0.0.1"}})
	var auto []*Upstream
	for i := 0; i < 3; i++ {
		up := NewUpstream(t, fmt.Sprintf("auto%d", i))
		up.TLS = &tls.Config{Certificates: []tls.Certificate{cert}}
		auto = append(auto, up.Start())
	}
	w.Start()
	root := w.Connect(ClientOpts{User: "root", Caps: []string{}})
	c := w.Connect(ClientOpts{User: "alice", Caps: []string{"soju.im/bouncer-networks"}})
	seq := 0
	for step := 0; step < 30; step++ {
		seq++
		before := listNets(w, "alice")
		byName := map[string]database.Network{}
		var names []string
		for _, n := range before {
			byName[n.GetName()] = n
			names = append(names, n.GetName())
		}
		limit := max
		if limit < 0 {
			limit = def
		}
		cnt := enabledCount(before)
		full := limit >= 0 && cnt >= limit
		name := fmt.Sprintf("n%d", seq)
		badName := false
		if r.Intn(5) == 0 {
			name = Pick(r, append([]string{"*", "-x", "--enabled", "-"}, names...))
			badName = true
		}
		some := ""
		if len(names) > 0 {
			some = Pick(r, names)
		}
		on := r.Intn(3) != 0
		ignore := false
		kind := Pick(r, []string{"create", "create", "create", "update", "update", "enable", "enable", "delete", "add", "add", "change", "del", "login", "limit", "default", "run-create", "run-enable", "noname"})
		wantOK := true
		var ok bool
		var desc string
		svc := func(c *Client, cmd string) {
			desc = cmd
			out := strings.Join(c.Service(cmd), "\n")
			ok = !strings.HasPrefix(out, "error:")
			desc += " -> " + out
		}
		flagBad := badName && strings.HasPrefix(name, "-")
		bouncer := func(cmd, sub string) {
			from := c.Mark()
			c.Send(cmd)
			c.Sync()
			desc = cmd
			for _, l := range c.Since(from) {
				if l.Command == "BOUNCER" && l.P(0) == sub {
					ok = true
				}
				if l.Command == "FAIL" {
					desc += " -> " + l.Raw
				}
			}
		}
		switch kind {
		case "create", "run-create":
			cmd := fmt.Sprintf("network create -addr h%d.invalid -name %s -enabled %v", seq, quoteArg(name), on)
			if r.Intn(4) == 0 {
				ignore = true
				cmd += " -ignore-limit"
			}
			if kind == "create" {
				svc(c, cmd)
				wantOK = !badName && (!ignore || admin) && (!on || !full || ignore)
			} else {
				svc(root, "user run alice "+cmd)
				wantOK = !badName && (!on || !full || ignore)
			}
		case "noname":
			// the name is derived from the address
			addr := Pick(r, []string{"same.invalid", "other.invalid:6697", "irc+insecure://same.invalid"})
			_, dup := byName[addr]
			svc(c, fmt.Sprintf("network create -addr %s -enabled %v", addr, on))
			wantOK = !dup && (!on || !full)
		case "update":
			if some == "" {
				continue
			}
			same := name == some
			svc(c, fmt.Sprintf("network update %s -name %s", quoteArg(some), quoteArg(name)))
			wantOK = !badName || same
			_ = flagBad
		case "enable", "run-enable":
			if some == "" {
				continue
			}
			cmd := fmt.Sprintf("network update %s -enabled %v", quoteArg(some), on)
			if r.Intn(4) == 0 {
				ignore = true
				cmd += " -ignore-limit"
			}
			free := !on || byName[some].Enabled || !full || ignore
			if kind == "enable" {
				svc(c, cmd)
				wantOK = free && (!ignore || admin)
			} else {
				svc(root, "user run alice "+cmd)
				wantOK = free
			}
		case "delete":
			if some == "" {
				continue
			}
			svc(c, "network delete "+quoteArg(some))
		case "add":
			bouncer(fmt.Sprintf("BOUNCER ADDNETWORK :host=b%d.invalid;name=%s", seq, tagEscape(name)), "ADDNETWORK")
			wantOK = !badName && !full
		case "change":
			if some == "" {
				continue
			}
			bouncer(fmt.Sprintf("BOUNCER CHANGENETWORK %d :name=%s;username=u%d", byName[some].ID, tagEscape(name), seq), "CHANGENETWORK")
			wantOK = !badName || name == some
		case "del":
			if some == "" {
				continue
			}
			bouncer(fmt.Sprintf("BOUNCER DELNETWORK %d", byName[some].ID), "DELNETWORK")
		case "login":
			up := Pick(r, auto)
			addr := up.HostPort()
			_, exists := byName[addr]
			for _, n := range before {
				exists = exists || n.Addr == addr // networks can be named by their address
			}
			desc = "login as alice/" + addr
			d := w.Dial("login")
			d.Register(ClientOpts{User: "alice", Network: addr, Nick: "auto" + fmt.Sprint(seq), NoWait: true})
			ok = d.Wait(0, "end of registration", func(l Line) bool { return l.Command == "001" }) >= 0
			wantOK = exists || !full
			d.CloseWait()
			c.Sync()
			if !exists && ok {
				on = true
			}
		case "limit":
			max = r.Intn(6) - 1
			svc(root, fmt.Sprintf("user update alice -max-networks %d", max))
			// nor can users change their own
			if out := strings.Join(c.Service("user update -max-networks 100"), " "); !strings.HasPrefix(out, "error:") {
				if !admin {
					Failf("a user changed their own limit: %s", out)
				}
				max = 100
			}
		case "default":
			def = r.Intn(6) - 1
			cfgMax.Store(int64(def))
			w.Srv.SetConfig(w.Config())
			ok, desc = true, fmt.Sprintf("reload with max-user-networks %d", def)
		}
		after := listNets(w, "alice")
		netInvariants(after, desc)
		n := enabledCount(after)
		if n > cnt && !ignore && limit >= 0 && n > limit {
			Failf("%s: %d networks are enabled, the limit is %d (account %d, default %d)", desc, n, limit, max, def)
		}
		if ok != wantOK {
			Failf("%s: accepted: %v, expected: %v (%d enabled, account limit %d, default %d, admin %v)", desc, ok, wantOK, cnt, max, def, admin)
		}
		if !ok && fmt.Sprint(before) != fmt.Sprint(after) {
			Failf("%s: refused, but the networks changed", desc)
		}
		t.State("%s|%d|%d|%v|%v", kind, limit, min(cnt, 6), ok, ignore)
		t.Count("commands", 1)
	}
	w.CheckNoPanic()
}

// p18Race adds and enables networks from several connections at once.
func p18Race(t *T) {
	r := t.Rng
	w := NewWorld(t, "memory")
	limit := r.Intn(5)
	w.Cfg = func(c *soju.Config) { c.MaxUserNetworks = limit }
	w.AddUser("root", true)
	u := w.AddUser("alice", false)
	for i := 0; i < 3; i++ {
		i := i
		w.AddNetwork(u, fmt.Sprintf("off%d", i), nil, func(n *database.Network) {
			n.Addr, n.Enabled = fmt.Sprintf("off%d.invalid", i), false
		})
	}
	cert := NewCert(CertOpts{Hosts: []string{"127.0.0.1"}})
	up := NewUpstream(t, "auto")
	up.TLS = &tls.Config{Certificates: []tls.Certificate{cert}}
	up.Start()
	w.Start()
	var wg sync.WaitGroup
	var acked atomic.Int64
	root := w.Connect(ClientOpts{User: "root", Caps: []string{}})
	for k := 0; k < 4; k++ {
		k := k
		c := w.Connect(ClientOpts{User: "alice", Caps: []string{"soju.im/bouncer-networks"}})
		seed := r.Int63()
		wg.Add(1)
		go guarded(func() {
			defer wg.Done()
			for i := 0; i < 4; i++ {
				switch (seed >> (4 * uint(i))) & 3 {
				case 0:
					c.Sendf("BOUNCER ADDNETWORK :host=r%d-%d.invalid", k, i)
				case 1:
					c.Sendf("PRIVMSG BouncerServ :network create -addr r%d-%d.invalid", k, i)
				case 2:
					c.Sendf("PRIVMSG BouncerServ :network update off%d -enabled true", i%3)
				case 3:
					c.Sendf("PRIVMSG BouncerServ :network create -addr same.invalid -name same -nick k%d%d", k, i)
				}
			}
			c.Sync()
			for _, l := range c.Lines() {
				if l.Command == "BOUNCER" && l.P(0) == "ADDNETWORK" || l.Command == "PRIVMSG" && strings.HasPrefix(l.P(1), "created network") {
					acked.Add(1)
				}
			}
		})
	}
	wg.Add(2)
	go guarded(func() {
		defer wg.Done()
		root.Service("user run alice network create -addr byroot.invalid")
	})
	go guarded(func() {
		defer wg.Done()
		d := w.Dial("login")
		d.Register(ClientOpts{User: "alice", Network: up.HostPort(), NoWait: true})
		d.Wait(0, "end of registration", func(l Line) bool { return l.Command == "001" })
		d.Close()
	})
	wg.Wait()
	l := listNets(w, "alice")
	netInvariants(l, "after concurrent additions")
	if n := enabledCount(l); n > limit {
		Failf("%d networks are enabled after concurrent additions, the limit is %d", n, limit)
	} else if n < limit {
		Failf("only %d networks are enabled though more than the limit of %d were requested", n, limit)
	}
	t.State("race|%d|%d", limit, acked.Load())
	w.CheckNoPanic()
}

func p18Unix(t *T) {
	r := t.Rng
	w := NewWorld(t, "memory")
	dir := t.Dir()
	var conns atomic.Int64
	path := filepath.Join(dir, "s.sock")
	ln, err := net.Listen("unix", path)
	Must(err)
	t.Cleanup(func() { ln.Close() })
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			conns.Add(1)
			c.Close()
		}
	}()
	admin := r.Intn(4) == 0
	w.AddUser("root", true)
	u := w.AddUser("alice", admin)
	w.AddNetwork(u, "old", nil, func(n *database.Network) { n.Addr, n.Enabled = "unix://"+path, false })
	w.AddNetwork(u, "tcp", nil, func(n *database.Network) { n.Addr = "x.invalid" })
	w.Start()
	c := w.Connect(ClientOpts{User: "alice", Caps: []string{"soju.im/bouncer-networks"}})
	root := w.Connect(ClientOpts{User: "root", Caps: []string{}})
	ids := map[string]int64{}
	for _, n := range listNets(w, "alice") {
		ids[n.Name] = n.ID
	}
	anyOK := false
	for i := 0; i < 12; i++ {
		addr := Pick(r, []string{
			"unix://" + path, "irc+unix://" + path, "UNIX://" + path, "Unix://" + path, "unix:" + path, "unix:///" + path,
			path, "irc+insecure://" + path, "ircs://unix://" + path, "unix://localhost" + path, " unix://" + path, "//" + path, "unix://" + strings.ReplaceAll(path, "/", "%2F"),
			"irc+UNIX://" + path, "irc+insecure+unix://" + path, "unix%3A//" + path,
		})
		from := c.Mark()
		var desc string
		switch r.Intn(7) {
		case 0:
			desc = fmt.Sprintf("PRIVMSG BouncerServ :network create -name u%d -addr %s", i, quoteArg(addr))
		case 1:
			desc = fmt.Sprintf("PRIVMSG BouncerServ :network update tcp -addr %s", quoteArg(addr))
		case 2:
			desc = "PRIVMSG BouncerServ :network update old -enabled true"
		case 3:
			a := Pick(r, []string{"", ";port=1", ";tls=0", ";tls=1", ";port=6667;tls=0"})
			desc = fmt.Sprintf("BOUNCER ADDNETWORK :name=b%d;host=%s%s", i, tagEscape(addr), a)
		case 4:
			a := Pick(r, []string{"host=" + tagEscape(addr), "host=" + tagEscape(addr) + ";tls=0", "host=unix;port=" + tagEscape("/"+path), "port=" + tagEscape("//"+path) + ";host=unix"})
			desc = fmt.Sprintf("BOUNCER CHANGENETWORK %d :%s", ids["tcp"], a)
		case 5:
			desc = fmt.Sprintf("BOUNCER CHANGENETWORK %d :username=x", ids["old"])
		case 6:
			root.Service(Pick(r, []string{"user status", "server status"}))
			c.Service("user update -realname r" + fmt.Sprint(i))
			desc = "SETNAME :r2" + fmt.Sprint(i)
		}
		c.Send(desc)
		c.Sync()
		for _, n := range listNets(w, "alice") {
			url, err := n.URL()
			if err != nil {
				Failf("%s: a network with the invalid address %q was stored", desc, n.Addr)
			}
			if !admin && n.Enabled && strings.Contains(url.Scheme, "unix") {
				Failf("%s: a user without administrator rights has the enabled network %q\n%v", desc, n.Addr, c.Since(from))
			}
			anyOK = anyOK || n.Enabled && url.Scheme == "unix" && url.Path == path
		}
		t.Count("attempts", 1)
		t.State("unix|%v|%s", admin, strings.ReplaceAll(strings.Fields(desc)[0]+addr, path, "P"))
	}
	if r.Intn(2) == 0 {
		w.Restart()
		c = w.Connect(ClientOpts{User: "alice", Caps: []string{}})
		c.Sync()
	}
	if !admin && conns.Load() > 0 {
		Failf("a user without administrator rights made the bouncer connect to a local socket")
	}
	if admin && anyOK {
		t.Count("admin_socket_networks", 1)
	}
	w.CheckNoPanic()
}

var _ = irc.ParseTags
