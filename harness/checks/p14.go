package checks

import (
	"context"
	"crypto/sha1"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P14", Level: "exploration",
		Rule:   "one execution = one bouncer with a subject account (two networks, several clients), a bystander and two administrators, and a random history of password changes (by an administrator, the administration socket or the user), password removal, disabling, enabling, deletion (by others and by oneself), re-creation and unrelated updates, optionally with logins and administration commands in flight; after every step the model's set of open client connections, working credentials and live network connections must be what is observed, and bystanders must be served. A situation is (operation, path, account state before, number of clients, concurrency)",
		Assume: []string{"a login whose credentials were verified before a password change and which is not yet complete may still complete"},
		Cases: func(e *Env) []Case {
			l := Repeat(e, "hist", e.N(70, 1500), p14History)
			l = append(l, Repeat(e, "race", e.N(100, 2000), p14Race)...)
			return l
		},
	})
}

func delToken(name string) string {
	h := sha1.Sum([]byte(name))
	return fmt.Sprintf("%x", h[0:3])
}

// tryLogin reports whether a new connection with these credentials is welcomed.
func tryLogin(w *World, user, pass string, sasl bool) (*Client, bool) {
	c := w.Dial("login-" + user)
	if sasl {
		c.Send("CAP LS 302", "CAP REQ :sasl")
		if !c.SASLPlain(user, pass) {
			c.Close()
			return nil, false
		}
		c.Send("NICK n", "USER "+user+" 0 * :x", "CAP END")
	} else {
		c.Send("PASS :"+pass, "NICK n", "USER "+user+" 0 * :x")
	}
	i := c.Wait(0, "end of login", func(l Line) bool { return l.Command == "001" })
	if i < 0 {
		return nil, false
	}
	c.Sync()
	return c, true
}

func waitAllClosed(up *Upstream, what string) {
	for i := 0; i < up.NumConns(); i++ {
		up.Conn(i).Peer.WaitClosed(what)
	}
}

func p14History(t *T) {
	r := t.Rng
	ups := []*Upstream{NewUpstream(t, "one").Start(), NewUpstream(t, "two").Start()}
	upBob := NewUpstream(t, "bob").Start()
	w := NewWorld(t, Pick(r, []string{"memory", "db"}))
	w.Cfg = func(c *soju.Config) {
		c.Auth = auth.NewInternal()
	}
	setPW := func(pw string) func(*database.User) {
		return func(u *database.User) { u.Password = hashOf(pw) }
	}
	al := w.AddUser("alice", false, setPW("p0"))
	w.AddNetwork(al, "one", ups[0])
	w.AddNetwork(al, "two", ups[1])
	bob := w.AddUser("bob", false, setPW("bobpw"))
	w.AddNetwork(bob, "net", upBob)
	w.AddUser("root", true, setPW("rootpw"))
	w.AddUser("boss", true, setPW("bosspw"))
	w.Start()
	bobUp := upBob.Ready(0)
	bobC := w.Connect(ClientOpts{User: "bob", Pass: "bobpw", Network: "net"})
	root := w.Connect(ClientOpts{User: "root", Pass: "rootpw"})

	var open []*Client
	pass := "p0" // "" = no password login possible
	old := []string{}
	exists, enabled, hasNets := true, true, true
	login := func(pw string) {
		name := "alice"
		if hasNets && r.Intn(2) == 0 {
			name += "/" + Pick(r, []string{"one", "two"})
		}
		c, ok := tryLogin(w, name+Pick(r, []string{"", "@dev"}), pw, r.Intn(2) == 0)
		want := exists && enabled && pw != "" && pw == pass
		if ok != want {
			Failf("login of alice with password %q: granted=%v, want %v (exists=%v enabled=%v current password %q)", pw, ok, want, exists, enabled, pass)
		}
		if ok {
			open = append(open, c)
		}
		t.Count("logins", 1)
	}
	verify := func(what string) {
		for _, c := range open {
			if c.TrySync() < 0 {
				c.Dump()
				Failf("after %s a client connection of alice was closed although it should stay", what)
			}
		}
		bobC.Sync()
		root.Sync()
		bobUp.Sync()
		active := exists && enabled && hasNets
		for _, up := range ups {
			if active {
				// the newest connection must be alive and served
				dl := time.Now()
				for {
					n := up.NumConns()
					if n > 0 && up.Conn(n-1).TrySync() {
						break
					}
					if time.Since(dl) > Watchdog {
						panic(Stuck{"no live connection to " + up.Name + " after " + what})
					}
					time.Sleep(5 * time.Millisecond)
				}
			} else {
				waitAllClosed(up, "network connection of an inactive account after "+what)
			}
		}
		t.Count("verifications", 1)
	}
	allGone := func(what string, except *Client) {
		for _, c := range open {
			if c != except {
				c.WaitClosed("client connection of alice after " + what)
			}
		}
		open = nil
		if except != nil {
			open = []*Client{except}
		}
	}
	svc := func(c *Client, cmd, wantReply string) {
		out := strings.Join(c.Service(cmd), "\n")
		if !strings.Contains(out, wantReply) {
			Failf("%q answered %q", cmd, out)
		}
	}
	admin := func(cmd, wantReply string) string {
		if r.Intn(3) == 0 {
			out, ok := w.Admin(cmd)
			if !ok {
				Failf("%q on the administration socket answered %q", cmd, out)
			}
			return "socket"
		}
		svc(root, cmd, wantReply)
		return "admin"
	}
	for i, n := 0, r.Intn(3); i < n; i++ {
		login(pass)
	}
	verify("the start")
	npw := 0
	newPW := func() string { npw++; return fmt.Sprintf("p%d", npw) }
	// other changes made by the same command
	also := func() string {
		s := ""
		if r.Intn(3) == 0 {
			s += fmt.Sprintf(" -admin %v", r.Intn(2) == 0)
		}
		if r.Intn(4) == 0 {
			s += fmt.Sprintf(" -max-networks %d", 5+r.Intn(3))
		}
		if r.Intn(4) == 0 {
			s += fmt.Sprintf(" -enabled %v", enabled)
		}
		return s
	}
	steps := 6 + r.Intn(5)
	for step := 0; step < steps; step++ {
		nOpen := len(open)
		st := fmt.Sprintf("exists=%v enabled=%v", exists, enabled)
		op := Pick(r, []string{"login", "login", "adminpw", "ownpw", "nopw", "disable", "enable", "delete", "selfdelete", "create", "update", "badtoken", "runpw"})
		path := "-"
		switch op {
		case "login":
			login(pass)
			if len(old) > 0 {
				login(Pick(r, old))
			}
		case "adminpw":
			if !exists {
				continue
			}
			np := newPW()
			path = admin("user update alice -password "+np+also(), "updated user")
			if pass != "" {
				old = append(old, pass)
			}
			pass = np
			allGone("an administrator changed the password", nil)
		case "nopw":
			if !exists {
				continue
			}
			path = admin("user update alice -disable-password"+also(), "updated user")
			if pass != "" {
				old = append(old, pass)
			}
			pass = ""
			allGone("the password was removed", nil)
		case "ownpw", "runpw":
			if !exists || !enabled || op == "ownpw" && len(open) == 0 {
				continue
			}
			np := newPW()
			if op == "ownpw" {
				svc(open[0], "user update -password "+np, "updated user")
			} else {
				svc(root, "user run alice user update -password "+np, "updated user")
			}
			if pass != "" {
				old = append(old, pass)
			}
			pass = np
			// whether other connections of the same user stay is not specified here
			for _, c := range open[min(len(open), 1):] {
				c.Close()
			}
			open = open[:min(len(open), 1)]
			if len(open) > 0 && open[0].TrySync() < 0 {
				if op == "ownpw" {
					Failf("changing one's own password closed the connection used for it")
				}
				open = nil
			}
		case "disable":
			if !exists {
				continue
			}
			path = admin("user update alice -enabled false", "updated user")
			enabled = false
			allGone("the account was disabled", nil)
		case "enable":
			if !exists {
				continue
			}
			path = admin("user update alice -enabled true", "updated user")
			enabled = true
		case "delete":
			if !exists {
				continue
			}
			path = admin("user delete alice "+delToken("alice"), "deleted user")
			exists, hasNets = false, false
			allGone("the account was deleted", nil)
		case "selfdelete":
			if !exists || !enabled || len(open) == 0 {
				continue
			}
			open[0].Send("PRIVMSG BouncerServ :user delete alice " + delToken("alice"))
			exists, hasNets = false, false
			allGone("the user deleted the account", nil)
		case "badtoken":
			if !exists {
				continue
			}
			root.Service("user delete alice nonsense")
			root.Service("user delete alice")
		case "create":
			np := newPW()
			if exists {
				out := strings.Join(root.Service("user create -username alice -password "+np), "\n")
				if !strings.Contains(out, "already exists") {
					Failf("creating an existing account answered %q", out)
				}
				break
			}
			// a deletion by the user itself is not acknowledged: retry while it completes
			dl := time.Now()
			for {
				out := strings.Join(root.Service("user create -username alice -password "+np), "\n")
				if strings.Contains(out, "created user") {
					break
				}
				if time.Since(dl) > Watchdog {
					panic(Stuck{"creating the deleted account again answers " + out})
				}
				time.Sleep(5 * time.Millisecond)
			}
			if pass != "" {
				old = append(old, pass)
			}
			pass, exists, enabled, hasNets = np, true, true, false
		case "update":
			if !exists {
				continue
			}
			path = admin(fmt.Sprintf("user update alice -max-networks %d", r.Intn(9)), "updated user")
			if enabled && len(open) > 0 {
				svc(open[0], "user update -nick n"+fmt.Sprint(r.Intn(9)), "updated user")
			}
		}
		t.State("%s|%s|%s|%d", op, path, st, min(nOpen, 3))
		t.Count("operations", 1)
		verify(op)
		if op != "login" && r.Intn(2) == 0 {
			if len(old) > 0 {
				login(old[len(old)-1])
			}
			if pass != "" {
				login(pass)
			}
		}
		if op == "delete" && r.Intn(2) == 0 {
			for name := range snapshotUsers(w.DB) {
				if name == "alice" {
					Failf("the deleted account is still in the database")
				}
			}
		}
	}
	w.CheckNoPanic()
}

// p14Race runs one account change while logins and other commands about the
// same account are in flight.
func p14Race(t *T) {
	r := t.Rng
	up := NewUpstream(t, "one").Start()
	w := NewWorld(t, "memory")
	al := w.AddUser("alice", false)
	w.AddNetwork(al, "one", up)
	w.AddUser("bob", false)
	w.AddUser("root", true)
	w.AddUser("boss", true)
	var once sync.Once
	if r.Intn(2) == 0 {
		d := time.Duration(r.Intn(3000)) * time.Microsecond
		w.WrapDB = func(db database.Database) database.Database { return &slowDB{Database: db, d: d} }
	}
	_ = &once
	w.Start()
	up.Ready(0)
	root := w.Connect(ClientOpts{User: "root"})
	boss := w.Connect(ClientOpts{User: "boss"})
	bob := w.Connect(ClientOpts{User: "bob"})
	a0 := w.Connect(ClientOpts{User: "alice"})
	op := Pick(r, []string{"delete", "selfdelete", "disable", "adminpw"})
	other := Pick(r, []string{"user update alice -max-networks 3", "user run alice network status", "user status alice", "user update alice -enabled true", "user delete alice " + delToken("alice"), "server notice hello", "server status"})
	if op == "disable" && strings.Contains(other, "enabled") {
		other = "server status"
	}
	if op == "disable" && strings.Contains(other, "delete") {
		other = "user update alice -admin false"
	}
	nl := r.Intn(6)
	seeds := make([]int64, nl+3)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	late := make([]*Client, nl)
	var fs []func()
	jitter := func(s int64) {
		time.Sleep(time.Duration(rand.New(rand.NewSource(s)).Intn(1500)) * time.Microsecond)
	}
	flood := r.Intn(2) == 0
	for i := 0; i < nl; i++ {
		i := i
		fs = append(fs, func() {
			jitter(seeds[i])
			c := w.Dial(fmt.Sprintf("late%d", i))
			late[i] = c
			c.Send("PASS pw-alice", "NICK n", "USER alice 0 * :x")
			if flood {
				for k := 0; k < 100; k++ {
					c.Sendf("PING flood%d", k)
				}
			}
		})
	}
	fs = append(fs, func() {
		jitter(seeds[nl])
		switch op {
		case "delete":
			root.Service("user delete alice " + delToken("alice"))
		case "selfdelete":
			a0.Send("PRIVMSG BouncerServ :user delete alice " + delToken("alice"))
		case "disable":
			root.Service("user update alice -enabled false")
		case "adminpw":
			root.Service("user update alice -password new")
		}
	}, func() {
		jitter(seeds[nl+1])
		for k := 0; k < 3; k++ {
			boss.Service(other)
		}
	}, func() {
		jitter(seeds[nl+2])
		for k := 0; k < 3; k++ {
			bob.Sync()
		}
	})
	guarded(fs...)
	a0.WaitClosed("client connection of alice after " + op)
	gone := op == "delete" || op == "selfdelete"
	if gone || op == "disable" {
		for i, c := range late {
			c.WaitClosed(fmt.Sprintf("login %d in flight during %s", i, op))
		}
		waitAllClosed(up, "network connection after "+op)
	} else {
		for _, c := range late {
			c.Close()
		}
	}
	root.Sync()
	boss.Sync()
	bob.Sync()
	if gone {
		dl := time.Now()
		for {
			_, err := w.DB.GetUser(context.Background(), "alice")
			if err != nil {
				break
			}
			if time.Since(dl) > Watchdog {
				panic(Stuck{"the deleted account is still in the database"})
			}
			time.Sleep(5 * time.Millisecond)
		}
		if _, ok := tryLogin(w, "alice", "pw-alice", false); ok {
			Failf("a deleted account can log in")
		}
		out := strings.Join(root.Service("user create -username alice -password x"), "\n")
		if !strings.Contains(out, "created user") {
			Failf("creating the deleted account again answered %q", out)
		}
		if _, ok := tryLogin(w, "alice", "pw-alice", false); !ok {
			Failf("the account created again cannot log in")
		}
	}
	t.State("race|%s|%s|%d|%v", op, strings.Join(strings.Fields(other)[:2], " "), nl, flood)
	t.Count("races", 1)
	w.WaitDownstreams(w.Srv.Stats().Downstreams)
	w.CheckNoPanic()
}

// slowDB delays every call a little, to widen the windows between a decision
// and its effect.
type slowDB struct {
	database.Database
	d time.Duration
}

func (s *slowDB) StoreUser(ctx context.Context, u *database.User) error {
	time.Sleep(s.d)
	return s.Database.StoreUser(ctx, u)
}

func (s *slowDB) DeleteUser(ctx context.Context, id int64) error {
	time.Sleep(s.d)
	return s.Database.DeleteUser(ctx, id)
}

func (s *slowDB) GetUser(ctx context.Context, name string) (*database.User, error) {
	time.Sleep(s.d)
	return s.Database.GetUser(ctx, name)
}

func (s *slowDB) ListNetworks(ctx context.Context, id int64) ([]database.Network, error) {
	time.Sleep(s.d)
	return s.Database.ListNetworks(ctx, id)
}

func (s *slowDB) StoreNetwork(ctx context.Context, id int64, n *database.Network) error {
	time.Sleep(s.d)
	return s.Database.StoreNetwork(ctx, id, n)
}
