package checks

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/fileupload"
	"codeberg.org/emersion/soju/identd"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P21", Level: "stress_oracle",
		Rule:   "the bouncer and the harness are compiled with the Go race detector; one execution = either one bouncer with several users, networks and an admin, used concurrently by actors (clients connecting, sending every kind of command and vanishing; servers talking and dropping the connections; service and admin commands creating, changing and deleting users and networks; configuration changes; statistics, status and metrics queries; uploads and downloads; WebSocket clients; ident queries; broadcasts) and shut down while they are still active, or the real executable being reloaded by signal under load, or an execution of another property's check; every report of two unsynchronised accesses made by the bouncer's code or on its behalf is a violation. A situation is one kind of operation performed while others were running",
		Assume: []string{"the race detector reports a race when the two accesses are not ordered by synchronisation in the observed execution"},
		Cases: func(e *Env) []Case {
			l := Repeat(e, "chaos", e.N(28, 800), p21Chaos)
			l = append(l, Repeat(e, "reload", e.N(2, 10), p21Reload)...)
			// The workloads of other checks, for their diversity: their
			// verdicts are not this property's business.
			for _, o := range []struct {
				prop string
				n    int
			}{{"P01", 12}, {"P03", 6}, {"P05", 4}, {"P06", 4}, {"P07", 8}, {"P08", 8}, {"P09", 8}, {"P10", 8}, {"P12", 6}, {"P13", 6}, {"P14", 8}, {"P17", 8}, {"P18", 8}, {"P19", 12}, {"P20", 12}} {
				c := Checks[o.prop]
				if c == nil {
					continue
				}
				all := c.Cases(e)
				byKind := map[string][]Case{}
				var kinds []string
				for _, x := range all {
					k := x.Name[:strings.LastIndexByte(x.Name, '-')]
					if k == "endless" || k == "kill" || k == "days" || k == "bulk" || k == "big" || k == "many" {
						continue
					}
					if byKind[k] == nil {
						kinds = append(kinds, k)
					}
					byKind[k] = append(byKind[k], x)
				}
				if len(kinds) == 0 {
					continue
				}
				for i := 0; i < e.N(o.n, o.n*25); i++ {
					k := kinds[i%len(kinds)]
					j := i / len(kinds)
					if j >= len(byKind[k]) {
						continue
					}
					x := byKind[k][j]
					prop := o.prop
					run := x.Run
					x.Name = prop + "-" + x.Name
					x.Run = func(t *T) {
						defer func() {
							if r := recover(); r != nil {
								t.Count("other-verdicts", 1)
							}
						}()
						t.State("workload %s %s", prop, k)
						run(t)
					}
					l = append(l, x)
				}
			}
			return l
		},
	})
}

// p21Guard runs an actor: whatever happens to its connections is not judged.
func p21Guard(f func()) {
	defer func() { recover() }()
	f()
}

func p21Chaos(t *T) {
	store := Pick(t.Rng, []string{"memory", "fs", "db"})
	w := NewWorld(t, store)
	updir := t.Dir() + "/up"
	upl, err := fileupload.New("fs", updir)
	Must(err)
	w.Cfg = func(c *soju.Config) {
		c.FileUploader = upl
		c.HTTPIngress = "http://localhost"
		c.MOTD = "hello"
	}
	ident := identd.New()
	w.Setup = func(s *soju.Server) { s.Identd = ident }
	ups := []*Upstream{busyUpstream(t, "net0").Start(), busyUpstream(t, "net1").Start()}
	names := []string{"alice", "bob", "carol"}
	for i, n := range names {
		u := w.AddUser(n, i == 0)
		for j, up := range ups {
			dn := w.AddNetwork(u, fmt.Sprintf("net%d", j), up, func(x *database.Network) { x.AutoAway = t.Rng.Intn(2) == 0 })
			w.AddChannel(dn, "#a")
			w.AddChannel(dn, "#b", func(c *database.Channel) {
				c.Detached = t.Rng.Intn(2) == 0
				c.DetachAfter = time.Duration(t.Rng.Intn(2)) * time.Millisecond
			})
		}
	}
	w.Start()
	hs := httptest.NewServer(w.Srv)
	defer hs.Close()
	iln, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	defer iln.Close()
	go ident.Serve(iln)

	var stop atomic.Bool
	var ops atomic.Int64
	var wg sync.WaitGroup
	actor := func(name string, f func(r *rand.Rand)) {
		r := rand.New(rand.NewSource(t.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				p21Guard(func() { f(r) })
				ops.Add(1)
				t.Count("op "+name, 1)
			}
		}()
	}
	mkFuzz := func(r *rand.Rand) *fuzzer {
		return newFuzzer(r, []string{"alice", "bob", "carol", "op", "plain"}, []string{"#a", "#b", "#c"}, []string{"net0", "net1", "acc"})
	}
	caps := []string{"message-tags", "batch", "sasl", "echo-message", "away-notify", "account-notify", "extended-join", "setname", "chghost", "invite-notify", "server-time", "draft/read-marker", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "draft/chathistory", "cap-notify", "draft/extended-monitor"}
	for i := 0; i < 5; i++ {
		actor("client", func(r *rand.Rand) {
			f := mkFuzz(r)
			o := ClientOpts{User: Pick(r, names), Network: Pick(r, []string{"", "net0", "net1"}), Client: Pick(r, []string{"", "c1", "c2"}), Caps: Subset(r, caps, 0.6)}
			c := w.Connect(o)
			defer c.Peer.Close()
			n := r.Intn(40)
			for k := 0; k < n && !stop.Load(); k++ {
				var line string
				switch r.Intn(4) {
				case 0:
					line = "PRIVMSG BouncerServ :" + f.svcLine()
				case 1:
					line = Pick(r, []string{"BOUNCER LISTNETWORKS", "AWAY :x", "AWAY", "JOIN #c", "PART #c", "NICK " + o.User + Pick(r, []string{"", "_"}), "MONITOR + plain", "MONITOR - plain", "WHO #a", "LIST", "MARKREAD #a timestamp=2030-01-01T00:00:00.000Z", "CHATHISTORY LATEST #a * 10", "PRIVMSG #a :hello", "PRIVMSG #b :hello", "SETNAME :r", "MODE #a", "NAMES", "LUSERS", "MOTD", "VERSION"})
				default:
					line = f.clientLine()
				}
				if strings.Contains(strings.ToLower(line), "password") || strings.Contains(strings.ToLower(line), "user delete") || strings.Contains(strings.ToLower(line), "die") {
					continue
				}
				t.State("%s client %s", store, lineCmd(line))
				c.Raw(line + "\r\n")
				if r.Intn(6) == 0 {
					c.TrySync()
				}
			}
			if r.Intn(2) == 0 {
				c.TrySync()
			}
		})
	}
	for i := range ups {
		up := ups[i]
		actor("server", func(r *rand.Rand) {
			f := mkFuzz(r)
			n := up.NumConns()
			if n == 0 {
				time.Sleep(time.Millisecond)
				return
			}
			uc := up.Conn(n - 1 - r.Intn(min(n, 4)))
			if uc.Closed() {
				time.Sleep(time.Millisecond)
				return
			}
			f.me = uc.CurNick
			if r.Intn(3) == 0 {
				uc.Sendf(":%s 005 %s SOJU.IM/SAFERATE :are supported", up.Host, uc.CurNick())
			}
			for k := 0; k < 15; k++ {
				line := f.serverLine(up.Host)
				if r.Intn(2) == 0 {
					line = fmt.Sprintf(":%s!u@h PRIVMSG %s :hi %s", Pick(r, []string{"op", "plain"}), Pick(r, []string{"#a", "#b", uc.CurNick()}), uc.CurNick())
				}
				t.State("%s server %s", store, lineCmd(line))
				uc.Raw(line + "\r\n")
			}
			if r.Intn(4) == 0 {
				uc.TrySync()
			}
			if r.Intn(6) == 0 {
				uc.Peer.Close()
				t.Count("op server-drop", 1)
			}
		})
	}
	actor("admin", func(r *rand.Rand) {
		cmd := Pick(r, []string{"server status", "user status", "user status bob", "server notice hello", "user create -username tmp -disable-password -nick t", "user update tmp -enabled false", "user update tmp -enabled true", "user update bob -max-networks 20", "user run bob network status", "user run bob network update net0 -realname x", "user run carol channel status", "user run carol network quote net0 VERSION", "user run tmp network create -addr ircs://nowhere.invalid", "network create -addr irc+insecure://127.0.0.1:1 -name dead -enabled false", "network delete dead", "user update bob -realname zz", "user update bob -nick bob"})
		if strings.HasPrefix(cmd, "user delete") {
			return
		}
		w.Admin(cmd)
		t.State("%s admin %s", store, cmd)
	})
	actor("tmp-user", func(r *rand.Rand) {
		w.Admin("user create -username gone -disable-password -nick gone")
		w.Auth.Set("gone", "pw-gone")
		w.Admin("user run gone network create -addr " + ups[0].Addr + " -name n0")
		c := w.Connect(ClientOpts{User: "gone"})
		defer c.Peer.Close()
		c.Send("PRIVMSG BouncerServ :network status")
		if r.Intn(2) == 0 {
			w.Admin("user update gone -enabled false")
		}
		if _, ok := w.Admin("user delete gone " + delToken("gone")); ok {
			t.State("user deleted")
			t.Count("op user-delete", 1)
		}
	})
	actor("config", func(r *rand.Rand) {
		switch r.Intn(3) {
		case 0:
			c := w.Config()
			c.MOTD = fmt.Sprint(r.Intn(5))
			c.Title = fmt.Sprint(r.Intn(5))
			c.MaxUserNetworks = Pick(r, []int{-1, 5, 100})
			c.HTTPOrigins = Pick(r, [][]string{nil, {"*"}})
			c.Auth = &auth.Authenticator{Plain: w.Auth}
			w.Srv.SetConfig(c)
			t.State("config")
		case 1:
			w.Srv.Stats()
			t.State("stats")
		default:
			w.Reg.Gather()
			t.State("metrics")
		}
	})
	actor("http", func(r *rand.Rand) {
		user := Pick(r, names)
		req, _ := http.NewRequest("POST", hs.URL+"/uploads", strings.NewReader("hello"))
		req.SetBasicAuth(user, "pw-"+user)
		req.Header.Set("Content-Type", "text/plain")
		req.Header.Set("Content-Disposition", `attachment; filename="x.txt"`)
		resp, err := http.DefaultClient.Do(req)
		if err != nil {
			return
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		t.State("upload %d", resp.StatusCode)
		if loc, err := resp.Location(); err == nil {
			if resp, err := http.Get(hs.URL + loc.Path); err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				t.State("download %d", resp.StatusCode)
			}
		}
	})
	actor("ident", func(r *rand.Rand) {
		nc, err := net.Dial("tcp", iln.Addr().String())
		if err != nil {
			return
		}
		defer nc.Close()
		fmt.Fprintf(nc, "%d, %d\r\n", 1024+r.Intn(60000), 1024+r.Intn(60000))
		nc.SetReadDeadline(time.Now().Add(time.Second))
		nc.Read(make([]byte, 100))
		t.State("ident")
	})
	end := time.Now().Add(1500 * time.Millisecond)
	for time.Now().Before(end) {
		time.Sleep(20 * time.Millisecond)
	}
	// Shut down while everybody is still active
	done := make(chan struct{})
	go func() { defer close(done); p21Guard(w.Stop) }()
	time.Sleep(20 * time.Millisecond)
	stop.Store(true)
	<-done
	// Actors may be waiting on connections that no longer answer
	wgDone := make(chan struct{})
	go func() { wg.Wait(); close(wgDone) }()
	select {
	case <-wgDone:
	case <-time.After(3 * time.Second):
	}
	t.Count("operations", int(ops.Load()))
	t.Count("shutdowns-under-load", 1)
}

// p21Reload reloads and stops the real executable (also compiled with the race
// detector) under load.
func p21Reload(t *T) {
	p := NewProc(t, Pick(t.Rng, []string{"memory", "fs", "db"}))
	up := busyUpstream(t, "net").Start()
	for _, n := range []string{"alice", "bob"} {
		u := p.AddUser(n, n == "alice")
		dn := p.W.AddNetwork(u, "net", up)
		p.W.AddChannel(dn, "#a")
	}
	p.Extra = []string{"title one"}
	p.Start()
	var stop atomic.Bool
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		r := rand.New(rand.NewSource(t.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				p21Guard(func() {
					n := Pick(r, []string{"alice", "bob"})
					c := p.W.Connect(ClientOpts{User: n, Network: "net", Pass: "pw-" + n})
					defer c.Peer.Close()
					for k := 0; k < 5; k++ {
						c.Send(Pick(r, []string{"MOTD", "LUSERS", "PRIVMSG BouncerServ :server status", "PRIVMSG #a :x", "WHO #a", "PRIVMSG BouncerServ :network status"}))
					}
					c.TrySync()
					t.Count("op client", 1)
				})
			}
		}()
	}
	for i := 0; i < 15; i++ {
		p.Signal(syscall.SIGHUP)
		t.Count("op reload", 1)
		time.Sleep(30 * time.Millisecond)
	}
	stop.Store(true)
	p21Guard(p.Term)
	wg.Wait()
	t.State("reload and stop")
}
