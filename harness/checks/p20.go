package checks

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P20", Level: "stress_oracle",
		Rule:   "one execution = a user with a hostile and a well-behaved network and several clients, and another user on the well-behaved one; over several connections the hostile server sends grammar-based, mutated and raw lines before, during, after or instead of a registration, while the clients use that network (queries, joins, monitoring, authentication, detached channels); between bursts the monitor requires that there was no internal panic, that all clients are answered and stay connected, that the other network and the other user receive and send messages, and that the service answers; in the end the hostile server behaves normally and the network must be registered and usable again. A situation is (registration phase, command, number and size class of the arguments)",
		Assume: nil,
		Cases: func(e *Env) []Case {
			l := Repeat(e, "server", e.N(1400, 30000), p20Server)
			return append(l, Repeat(e, "endless", e.N(3, 12), p20Endless)...)
		},
	})
}

func evilSASL(c *UpConn, l Line) bool {
	if l.Command != "AUTHENTICATE" {
		return false
	}
	switch l.P(0) {
	case "PLAIN", "EXTERNAL":
		c.Send("AUTHENTICATE +")
	case "*":
		c.Sendf(":evil.example 906 * :aborted")
	default:
		c.Sendf(":evil.example 900 * nick!u@h acc :logged in")
		c.Sendf(":evil.example 903 * :ok")
	}
	return true
}

// refusesForGood tells whether a line refuses a login for a reason which needs a
// configuration change: the bouncer rightly stops trying then.
func refusesForGood(line string) bool {
	c := lineCmd(line)
	return c == "464" || c == "432" || c == "FAIL"
}

func p20Server(t *T) {
	r := t.Rng
	w := NewWorld(t, Pick(r, []string{"memory", "memory", "fs", "db"}))
	au := w.AddUser("alice", false)
	bu := w.AddUser("bob", false)
	good := NewUpstream(t, "good").Start()
	evil := NewUpstream(t, "evil")
	var hostile atomic.Bool
	hostile.Store(true)
	mode := make(map[int]int)
	tainted := make(map[int]bool)
	var mu sync.Mutex
	modeOf := func(i int) int { mu.Lock(); defer mu.Unlock(); return mode[i] }
	for i := 0; i < 50; i++ {
		mode[i] = r.Intn(3)
	}
	evil.Caps = Pick(r, upCapSets)
	if r.Intn(2) == 0 {
		evil.Caps = append(append([]string{}, evil.Caps...), "sasl")
	}
	evil.ISupport = Pick(r, [][]string{nil, {"MONITOR=20"}, {"MONITOR=20", "WHOX", "BOT=B"}})
	evil.OnLine = func(c *UpConn, l Line) bool {
		// mode 0: never answer anything; 1: register normally, answer
		// nothing later; 2: behave normally besides the hostile lines
		if l.Command == "PONG" {
			return false
		}
		mu.Lock()
		h := hostile.Load()
		if h {
			tainted[c.Index] = true // may have ignored the beginning
		}
		mu.Unlock()
		if !h {
			return evilSASL(c, l)
		}
		switch modeOf(c.Index) {
		case 0:
			return true
		case 1:
			return c.Registered() || evilSASL(c, l)
		}
		return evilSASL(c, l)
	}
	evil.Start()
	an := w.AddNetwork(au, "evil", evil, func(n *database.Network) {
		n.AutoAway = r.Intn(2) == 0
		if r.Intn(2) == 0 {
			n.SASL.Mechanism = Pick(r, []string{"PLAIN", "EXTERNAL"})
			n.SASL.Plain.Username, n.SASL.Plain.Password = "acc", "pw"
		}
		if r.Intn(2) == 0 {
			n.ConnectCommands = []string{"PRIVMSG x :hi"}
		}
	})
	w.AddChannel(an, "#a")
	w.AddChannel(an, "#b", func(c *database.Channel) {
		c.Detached = true
		c.ReattachOn = Pick(r, []database.MessageFilter{database.FilterHighlight, database.FilterMessage, database.FilterNone})
		c.RelayDetached = Pick(r, []database.MessageFilter{database.FilterHighlight, database.FilterMessage, database.FilterDefault})
	})
	w.AddNetwork(au, "good", good)
	w.AddNetwork(bu, "good", good)
	w.Start()
	good.Ready(0)
	good.Ready(1)
	var ga, gb *UpConn
	for i := 0; i < 2; i++ {
		if uc := good.Conn(i); uc.CurNick() == "alice" {
			ga = uc
		} else {
			gb = uc
		}
	}
	ca := w.Connect(ClientOpts{User: "alice", Network: "good"})
	cb := w.Connect(ClientOpts{User: "bob", Network: "good"})
	ce := w.Connect(ClientOpts{User: "alice", Network: "evil", Caps: []string{"message-tags", "batch", "sasl", "echo-message", "away-notify", "account-notify", "extended-join", "draft/event-playback", "setname", "chghost", "invite-notify"}})
	ce2 := w.Connect(ClientOpts{User: "alice", Network: "evil", Client: "dev"})
	cu := w.Connect(ClientOpts{User: "alice", Caps: []string{"soju.im/bouncer-networks", "soju.im/bouncer-networks-notify"}})
	f := newFuzzer(r, []string{"alice", "bob", "carol", "dave_", "Al[ice"}, []string{"#a", "#b", "#c", "&d"}, []string{"acc", "evil.example"})
	seq := 0
	served := func(what string) {
		seq++
		w.CheckNoPanic()
		for _, x := range []struct {
			c  *Client
			uc *UpConn
			n  string
		}{{ca, ga, "the user's other network"}, {cb, gb, "the other user's network"}} {
			text := fmt.Sprintf("probe-%d", seq)
			from, ufrom := x.c.Mark(), x.uc.Mark()
			x.uc.Sendf(":friend!f@h PRIVMSG %s :%s", x.uc.CurNick(), text)
			if x.c.Wait(from, text, func(l Line) bool { return l.Command == "PRIVMSG" && l.P(1) == text }) < 0 {
				Failf("%s: client of %s was disconnected", what, x.n)
			}
			x.c.Sendf("PRIVMSG friend :%s", text)
			if x.uc.Wait(ufrom, text, func(l Line) bool { return l.Command == "PRIVMSG" && l.P(1) == text }) < 0 {
				Failf("%s: %s was disconnected", what, x.n)
			}
		}
		for _, c := range []*Client{ce, ce2, cu} {
			if c.TrySync() < 0 {
				Failf("%s: %s was disconnected", what, c.Peer.Name)
			}
		}
		if len(cu.Service("network status")) == 0 {
			Failf("%s: the service does not answer", what)
		}
		t.Count("probes", 1)
	}
	use := []string{"WHO #a", "WHO carol %tnuhraf,1", "WHOIS carol", "LIST", "JOIN #c", "PART #c", "MONITOR + carol,bob", "MONITOR - carol", "MONITOR C", "NAMES #a", "MODE #a", "TOPIC #a", "PRIVMSG #a :hello", "PRIVMSG carol :hello", "AUTHENTICATE PLAIN", "AUTHENTICATE " + B64("\x00acc\x00pw"), "REGISTER acc * pw", "AWAY :gone", "AWAY", "NICK alice2", "NICK alice", "SETNAME :x", "CHATHISTORY LATEST #a * 10", "MODE alice", "KICK #a carol", "WHO", "PRIVMSG BouncerServ :channel update #a -detached true", "PRIVMSG BouncerServ :channel update #a -detached false", "PRIVMSG BouncerServ :network status", "PRIVMSG NickServ :IDENTIFY pw", "LIST #a", "TAGMSG #a", "INVITE carol #a"}
	idx := 0
	refused := false
	retry := func() {
		if refused {
			cu.Service(fmt.Sprintf("network update evil -realname r%d", idx))
			t.Count("refused-for-good", 1)
		}
		refused = false
	}
	conns := 2 + r.Intn(3)
	for k := 0; k < conns; k++ {
		retry()
		uc := evil.Conn(idx)
		m := modeOf(idx)
		phase := "pre"
		if m != 0 && r.Intn(3) != 0 {
			if !uc.TrySyncReg() {
				idx++
				continue
			}
			phase = "reg"
			if r.Intn(3) != 0 { // be in the channels
				for _, ch := range []string{"#a", "#b"} {
					if m == 1 {
						uc.Sendf(":%s JOIN %s", uc.Prefix(), ch)
						uc.Sendf(":evil.example 353 %s = %s :alice @bob +carol", uc.CurNick(), ch)
						uc.Sendf(":evil.example 366 %s %s :End", uc.CurNick(), ch)
					}
				}
			}
		}
		f.me = func() string {
			if n := uc.CurNick(); n != "" {
				return n
			}
			return "alice"
		}
		// Avoid the outgoing rate limit, it would only slow down the run
		uc.Sendf(":evil.example 005 %s SOJU.IM/SAFERATE :are supported", f.me())
		bursts := 1 + r.Intn(4)
		for b := 0; b < bursts && !uc.Closed(); b++ {
			n := 1 + r.Intn(20)
			for i := 0; i < n; i++ {
				line := f.serverLine("evil.example")
				if phase == "pre" && m == 0 && r.Intn(12) == 0 {
					line = ":evil.example 001 " + Pick(r, []string{"alice", "alice", ":", "Alice", "*", "a b"}) + " :Welcome"
				}
				t.State("%s %s %s", phase, lineCmd(line), argShape(line))
				t.Count("lines", 1)
				if phase == "pre" && refusesForGood(line) {
					refused = true
				}
				uc.Raw(line + "\r\n")
				if r.Intn(8) == 0 {
					l := Pick(r, use)
					Pick(r, []*Client{ce, ce, ce2}).Send(l)
				}
			}
			if r.Intn(2) == 0 {
				uc.TrySync()
			}
			served(fmt.Sprintf("connection %d burst %d", idx, b))
		}
		if uc.Closed() {
			t.Count("closed-by-bouncer", 1)
		}
		if r.Intn(3) == 0 {
			uc.Raw(Pick(r, []string{"ERROR :bye\r\n", "PRIVMSG", "\xff", ":x"}))
		}
		uc.Peer.Close()
		idx++
		served(fmt.Sprintf("after connection %d", idx))
	}
	// In the end the server is well-behaved: the network must come back
	mu.Lock()
	hostile.Store(false)
	mu.Unlock()
	retry()
	for {
		uc := evil.Conn(idx)
		mu.Lock()
		skip := tainted[idx]
		mu.Unlock()
		if skip {
			uc.Peer.Close()
			idx++
			continue
		}
		if uc.TrySyncReg() {
			from := ce.Mark()
			text := "finally"
			uc.Sendf(":friend!f@h PRIVMSG %s :%s", uc.CurNick(), text)
			if ce.Wait(from, text, func(l Line) bool { return l.Command == "PRIVMSG" && l.P(1) == text }) < 0 {
				Failf("client disconnected in the end")
			}
			break
		}
		idx++
	}
	if !strings.Contains(strings.Join(cu.Service("network status"), "\n"), "evil") {
		Failf("the network is gone")
	}
	c := w.Connect(ClientOpts{User: "alice", Network: "evil"})
	c.Peer.Close()
	w.CheckNoPanic()
	w.Stop()
}

func p20Endless(t *T) {
	w := NewWorld(t, "memory")
	au := w.AddUser("alice", false)
	evil := NewUpstream(t, "evil").Start()
	good := NewUpstream(t, "good").Start()
	w.AddNetwork(au, "evil", evil)
	w.AddNetwork(au, "good", good)
	w.Start()
	c := w.Connect(ClientOpts{User: "alice", Network: "good"})
	uc := evil.Ready(0)
	endless(t, uc.Peer, Pick(t.Rng, []string{"", ":x PRIVMSG alice :", "@"}))
	uc.Peer.Close()
	evil.Ready(1)
	g := good.Ready(0)
	from := c.Mark()
	g.Sendf(":f!f@h PRIVMSG alice :still here")
	c.Wait(from, "message", func(l Line) bool { return l.Command == "PRIVMSG" && l.P(1) == "still here" })
	w.CheckNoPanic()
}
