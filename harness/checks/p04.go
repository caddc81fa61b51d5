package checks

import (
	"fmt"
	"strings"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P04", Level: "fault_enumeration",
		Rule:   "one execution = the real soju executable with a file or database message store, killed with SIGKILL several times at seeded instants during traffic (incoming messages and messages sent by clients, several conversations), each time started again and its history read back; a situation is (store, kill number, messages recorded, messages in flight at the kill)",
		Assume: []string{"process crash, not power loss: the operating system keeps completed writes"},
		Cases: func(e *Env) []Case {
			return Repeat(e, "kill", e.N(200, 3000), p04Kill)
		},
	})
}

func fetchHistory(c *Client, target string) []Line {
	from := c.Mark()
	c.Send("CHATHISTORY LATEST " + target + " * 1000")
	end := c.Sync()
	var out []Line
	for _, l := range c.Since(from)[:end-from] {
		if l.Command == "PRIVMSG" || l.Command == "NOTICE" {
			out = append(out, l)
		}
		if l.Command == "FAIL" {
			c.Dump()
			Failf("CHATHISTORY of %s failed: %s", target, l.Raw)
		}
	}
	return out
}

func p04Kill(t *T) {
	r := t.Rng
	store := Pick(r, []string{"fs", "db"})
	p := NewProc(t, store)
	up := NewUpstream(t, "net")
	up.Caps = Pick(r, [][]string{nil, {"message-tags", "server-time"}, {"echo-message", "labeled-response", "batch", "message-tags"}})
	up.Start()
	u := p.AddUser("user", false)
	n := p.W.AddNetwork(u, "net", up)
	p.W.AddChannel(n, "#one")
	p.W.AddChannel(n, "#two")
	uid := fmt.Sprintf("k%d", t.Case.Seed%10000)
	convs := []string{"#one", "#two", "alice"}
	sent := map[string][]string{}           // everything sent, per conversation
	visible := map[string]map[string]bool{} // seen by a client before the kill
	recorded := map[string][]string{}       // what the last recovery served
	for _, c := range convs {
		visible[c] = map[string]bool{}
	}
	seq := 0
	cycles := 3
	for cyc := 0; cyc <= cycles; cyc++ {
		k := up.NumConns()
		p.Start()
		uc := up.Ready(k)
		uc.Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
		uc.Sync()
		// recovery: compare the history with what was seen before
		hc := p.W.Connect(ClientOpts{User: "user", Network: "net", Client: "hist", Caps: []string{"draft/chathistory", "batch", "server-time", "message-tags"}})
		for _, cv := range convs {
			var got []string
			idx := map[string]int{}
			for _, l := range fetchHistory(hc, cv) {
				s := l.Command + " " + l.P(1)
				if j, dup := idx[s]; dup {
					hc.Dump()
					Failf("%s store, after kill %d: %s holds %q twice (positions %d and %d)", store, cyc, cv, s, j, len(got))
				}
				idx[s] = len(got)
				got = append(got, s)
			}
			// order and provenance: a subsequence of what was sent
			i := 0
			for _, s := range got {
				for i < len(sent[cv]) && sent[cv][i] != s {
					i++
				}
				if i == len(sent[cv]) {
					hc.Dump()
					Failf("%s store, after kill %d: history of %s holds %q which was not sent there at that position", store, cyc, cv, s)
				}
				i++
			}
			for _, s := range sent[cv] {
				if _, ok := idx[s]; !ok && visible[cv][s] {
					hc.Dump()
					Failf("%s store, after kill %d: %q was shown to a client in %s before the crash but is not in the history", store, cyc, s, cv)
				}
			}
			recorded[cv] = got
			t.Count("messages required after a crash", len(visible[cv]))
			t.Count("messages recovered", len(got))
		}
		hc.CloseWait()
		if cyc == cycles {
			break
		}
		// traffic
		c := p.W.Connect(ClientOpts{User: "user", Network: "net", Client: "desk", Ack: true, Caps: []string{"echo-message", "message-tags"}})
		from := c.Mark()
		total := 10 + r.Intn(60)
		limit := r.Intn(total) // kill after the client saw that many
		jitter := time.Duration(r.Intn(400)) * time.Microsecond
		var ups, cls []string
		for i := 0; i < total; i++ {
			text := fmt.Sprintf("<%s:%d> %s", uid, seq, strings.Repeat("z", r.Intn(40)))
			seq++
			switch r.Intn(4) {
			case 0:
				sent["alice"] = append(sent["alice"], "PRIVMSG "+text)
				ups = append(ups, fmt.Sprintf(":alice!a@h PRIVMSG %s :%s", uc.CurNick(), text))
			case 1:
				sent["#one"] = append(sent["#one"], "NOTICE "+text)
				ups = append(ups, fmt.Sprintf(":bob!a@h NOTICE #one :%s", text))
			case 2:
				sent["#one"] = append(sent["#one"], "PRIVMSG "+text)
				ups = append(ups, fmt.Sprintf(":bob!a@h PRIVMSG #one :%s", text))
			default:
				sent["#two"] = append(sent["#two"], "PRIVMSG "+text)
				cls = append(cls, fmt.Sprintf("PRIVMSG #two :%s", text))
			}
		}
		if len(ups) > 0 {
			uc.Send(ups...)
		}
		if len(cls) > 0 {
			c.Send(cls...)
		}
		seen := func() int {
			_, s := payloadLines(c.Since(from), uid)
			return len(s)
		}
		for start := time.Now(); seen() < limit; {
			if c.Closed() || time.Since(start) > Watchdog {
				c.Dump()
				panic(Stuck{fmt.Sprintf("only %d of %d messages arrived", seen(), limit)})
			}
		}
		time.Sleep(jitter)
		p.Kill()
		c.CloseWait()
		got, _ := payloadLines(c.Since(from), uid)
		for _, l := range got {
			visible[convOf(l, uc.CurNick())][l.Command+" "+l.P(1)] = true
		}
		t.State("%s|%d|%d|%d", store, cyc, len(got), total-len(got))
		t.Count("kills", 1)
		t.Sample("%s store, kill %d: %d of %d messages visible at the kill", store, cyc, len(got), total)
	}
	p.Kill()
}
