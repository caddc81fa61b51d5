package checks

import (
	"fmt"
	"strings"
	"sync"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
	. "verif/harness/h"
)

// allClientCaps are the capabilities a client may negotiate permanently.
var relayCaps = []string{"message-tags", "server-time", "batch", "account-tag", "echo-message", "labeled-response", "away-notify", "account-notify", "extended-join", "multi-prefix", "setname", "chghost", "invite-notify", "draft/chathistory", "draft/read-marker", "cap-notify", "draft/event-playback", "soju.im/no-implicit-names", "draft/no-implicit-names", "soju.im/read"}

func init() {
	Register(&Check{
		Prop: "P01", Level: "exploration",
		Rule:   "one execution = one bouncer with 1-2 networks, 1-6 clients with random capability sets (connecting before, during and after traffic), a random message store, and a burst of uniquely numbered PRIVMSG/NOTICE lines of random kind (channel, direct, status-prefixed, server notice, multi-network) and hostile text; a situation is (message kind, client capability set, upstream capability set, connection phase)",
		Assume: []string{"a client connected through fences before a message was sent is entitled to it; a client connecting during the traffic must see a gap-free suffix"},
		Cases: func(e *Env) []Case {
			var l []Case
			l = append(l, Repeat(e, "relay", e.N(500, 8000), p01Relay)...)
			l = append(l, Repeat(e, "churn", e.N(300, 5000), p01Churn)...)
			return l
		},
	})
}

type sentMsg struct {
	cmd, prefix, target, text, kind string
	seq                             int
	tags                            irc.Tags // as sent
}

func (m sentMsg) line(tags string) string {
	s := ":" + m.prefix + " " + m.cmd + " " + m.target + " :" + m.text
	if tags != "" {
		s = "@" + tags + " " + s
	}
	return s
}

// genIncoming builds message number seq as the network would send it.
func genIncoming(t *T, c *UpConn, seq int, chans []string, uid string) (sentMsg, string) {
	r := t.Rng
	m := sentMsg{seq: seq, cmd: "PRIVMSG"}
	if r.Intn(4) == 0 {
		m.cmd = "NOTICE"
	}
	m.prefix = fmt.Sprintf("%s!u%d@h%d.example", Pick(r, []string{"alice", "bob", "Carol[x]", "d`ave", "e_v-e"}), r.Intn(9), r.Intn(9))
	switch k := r.Intn(12); {
	case k < 5:
		m.kind, m.target = "channel", Pick(r, chans)
	case k < 8:
		m.kind, m.target = "direct", c.CurNick()
	case k < 9:
		m.kind, m.target = "status", "@"+Pick(r, chans)
	case k < 10:
		m.kind, m.target, m.prefix, m.cmd = "server", c.CurNick(), c.Up.Host, "NOTICE"
	case k < 11:
		m.kind, m.target = "unknown-channel", "#not-joined"
	default:
		m.kind, m.target, m.cmd = "mask", Pick(r, []string{"$$*.example", "$$irc.example", "$#*.example", "$*.example"}), "NOTICE"
	}
	m.text = fmt.Sprintf("<%s:%d> %s", uid, seq, RandText(r))
	if r.Intn(8) == 0 {
		m.text = fmt.Sprintf("\x01ACTION <%s:%d> waves\x01", uid, seq)
	}
	if r.Intn(10) == 0 {
		m.text = m.text + strings.Repeat("y", 300)
	}
	if r.Intn(12) == 0 {
		m.text = fmt.Sprintf("%s hi <%s:%d>", c.CurNick(), uid, seq) // highlight
	}
	var tags []string
	if c.HasCap("message-tags") {
		if r.Intn(3) == 0 {
			tags = append(tags, fmt.Sprintf("msgid=m%d", seq))
		}
		if r.Intn(4) == 0 {
			tags = append(tags, "+draft/reply=abc\\s", "+x")
		}
		if c.HasCap("account-tag") && r.Intn(4) == 0 {
			tags = append(tags, "account=acc")
		}
		if r.Intn(4) == 0 {
			tags = append(tags, "bot")
		}
	}
	if c.HasCap("server-time") && r.Intn(2) == 0 {
		tags = append(tags, "time=2024-03-0"+fmt.Sprint(1+r.Intn(9))+"T10:00:00.123Z")
	}
	return m, strings.Join(tags, ";")
}

// uidSeq extracts the sequence number of a payload of stream uid, or -1.
func uidSeq(text, uid string) int {
	i := strings.Index(text, "<"+uid+":")
	if i < 0 {
		return -1
	}
	var n int
	if _, err := fmt.Sscanf(text[i+len(uid)+2:], "%d>", &n); err != nil {
		return -1
	}
	return n
}

var upCapSets = [][]string{
	nil,
	{"message-tags", "server-time"},
	{"message-tags", "server-time", "account-tag", "batch", "labeled-response", "echo-message"},
	{"server-time", "echo-message"},
	{"message-tags", "batch", "labeled-response"},
	{"multi-prefix", "away-notify", "account-notify", "extended-join", "message-tags", "server-time", "batch"},
}

// payloadLines returns the stream messages a client received, in order.
func payloadLines(ls []Line, uid string) (out []Line, seqs []int) {
	for _, l := range ls {
		if l.Command != "PRIVMSG" && l.Command != "NOTICE" {
			continue
		}
		if s := uidSeq(l.P(1), uid); s >= 0 {
			out = append(out, l)
			seqs = append(seqs, s)
		}
	}
	return
}

func checkSame(who string, got Line, want sentMsg) {
	if got.Command != want.cmd || got.P(0) != want.target || got.P(1) != want.text || len(got.Params) != 2 {
		Failf("%s received %q for message %d, but the network sent :%s %s %s :%q", who, got.Raw, want.seq, want.prefix, want.cmd, want.target, want.text)
	}
	if got.Prefix == nil || got.Prefix.String() != want.prefix {
		Failf("%s received %q for message %d with a different sender than %q", who, got.Raw, want.seq, want.prefix)
	}
}

func p01Relay(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db", ""})
	w := NewWorld(t, store)
	nNet := 1 + r.Intn(2)
	caps := Pick(r, upCapSets)
	u := w.AddUser("user", false)
	var ups []*Upstream
	for i := 0; i < nNet; i++ {
		up := NewUpstream(t, fmt.Sprintf("net%d", i))
		up.Caps = caps
		up.ISupport = []string{"PREFIX=(ov)@+", "STATUSMSG=@+", "CHANTYPES=#"}
		up.Start()
		n := w.AddNetwork(u, fmt.Sprintf("net%d", i), up)
		for _, ch := range []string{"#one", "#two"} {
			w.AddChannel(n, ch)
		}
		ups = append(ups, up)
	}
	w.Start()
	type cl struct {
		c    *Client
		net  int
		from int // first sequence number it is entitled to
		caps string
	}
	var cls []*cl
	conns := make([]*UpConn, nNet)
	for i, up := range ups {
		conns[i] = up.Ready(0)
		conns[i].Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
		conns[i].Sync()
	}
	uid := fmt.Sprintf("s%d", t.Case.Seed%1000)
	seq := make([]int, nNet)
	sent := make([][]sentMsg, nNet)
	addClient := func() {
		k := r.Intn(nNet)
		cs := Subset(r, relayCaps, Pick(r, []float64{0, 0.2, 0.5, 0.9}))
		name := ""
		if r.Intn(2) == 0 {
			name = fmt.Sprintf("dev%d", len(cls))
		}
		c := w.Connect(ClientOpts{User: "user", Network: fmt.Sprintf("net%d", k), Client: name, Caps: cs, Ack: r.Intn(2) == 0})
		cls = append(cls, &cl{c: c, net: k, from: seq[k], caps: strings.Join(cs, " ")})
	}
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		addClient()
	}
	rounds := 3 + r.Intn(3)
	for round := 0; round < rounds; round++ {
		for k, uc := range conns {
			n := r.Intn(40)
			var lines []string
			for i := 0; i < n; i++ {
				m, tags := genIncoming(t, uc, seq[k], []string{"#one", "#two"}, fmt.Sprintf("%s-%d", uid, k))
				seq[k]++
				l, err := irc.ParseMessage(m.line(tags))
				Must(err)
				m.tags = l.Tags
				sent[k] = append(sent[k], m)
				lines = append(lines, m.line(tags))
				t.State("%s|%v|%d clients", m.kind, caps, len(cls))
			}
			if n > 0 {
				uc.Send(lines...)
			}
			t.Count("messages sent by networks", n)
		}
		for _, uc := range conns {
			uc.Sync()
		}
		if r.Intn(2) == 0 && len(cls) < 6 {
			addClient()
		}
		if r.Intn(4) == 0 && len(cls) > 1 {
			// one client leaves; its transcript is judged now
			i := r.Intn(len(cls))
			cls[i].c.Sync()
			verify := cls[i]
			cls = append(cls[:i], cls[i+1:]...)
			p01Verify(t, verify.c, verify.from, sent[verify.net], fmt.Sprintf("%s-%d", uid, verify.net), verify.caps, store)
			verify.c.CloseWait()
		}
	}
	for _, x := range cls {
		x.c.Sync()
		p01Verify(t, x.c, x.from, sent[x.net], fmt.Sprintf("%s-%d", uid, x.net), x.caps, store)
	}
	t.Sample("%d networks, store %q, upstream caps %v, %d clients, %d messages", nNet, store, caps, len(cls), seq[0])
	w.CheckNoPanic()
}

func p01Verify(t *T, c *Client, from int, sent []sentMsg, uid, caps, store string) {
	got, seqs := payloadLines(c.Since(c.RegMark), uid)
	want := sent[from:]
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			c.Dump()
			Failf("%s never received message %d (:%s %s %s :%s)", c.Name, want[i].seq, want[i].prefix, want[i].cmd, want[i].target, want[i].text)
		case i >= len(want):
			c.Dump()
			Failf("%s received an extra message %q", c.Name, got[i].Raw)
		case seqs[i] != want[i].seq:
			c.Dump()
			Failf("%s received message %d where message %d was due (loss, duplication or reordering): %q", c.Name, seqs[i], want[i].seq, got[i].Raw)
		}
		checkSame(c.Name, got[i], want[i])
		for name, v := range want[i].tags {
			if name == "time" && store == "fs" { // which records whole seconds
				v = v[:19] + ".000Z"
			}
			if name == "time" && !c.Caps["server-time"] || name == "account" && !c.Caps["account-tag"] || name != "time" && name != "account" && !c.Caps["message-tags"] {
				continue
			}
			if g, ok := got[i].Tags[name]; !ok || g != v {
				c.Dump()
				Failf("%s received %q for message %d: the tag %s=%q of the network's message is missing or changed", c.Name, got[i].Raw, want[i].seq, name, v)
			}
			t.Count("tags compared", 1)
		}
		t.State("delivered|%s|%s", want[i].kind, caps)
	}
	// nothing of another network
	for _, l := range c.Lines() {
		if (l.Command == "PRIVMSG" || l.Command == "NOTICE") && strings.Contains(l.P(1), "<s") && uidSeq(l.P(1), uid) < 0 && strings.Contains(l.P(1), ":") {
			if strings.Contains(l.P(1), uid[:len(uid)-1]) {
				Failf("%s received a message of another network: %q", c.Name, l.Raw)
			}
		}
	}
	t.Count("deliveries checked", len(want))
}

// p01Churn: clients connect and disconnect while messages flow.
func p01Churn(t *T) {
	r := t.Rng
	store := Pick(r, []string{"memory", "fs", "db"})
	w := NewWorld(t, store)
	up := NewUpstream(t, "net")
	up.Caps = Pick(r, upCapSets)
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#one", func(ch *database.Channel) {})
	w.Start()
	uc := up.Ready(0)
	uc.Wait(0, "JOIN", func(l Line) bool { return l.Command == "JOIN" })
	uc.Sync()

	const total = 400
	var sent []sentMsg
	uid := fmt.Sprintf("c%d", t.Case.Seed%1000)
	for i := 0; i < total; i++ {
		m := sentMsg{seq: i, cmd: "PRIVMSG", prefix: "alice!a@h", target: "#one", text: fmt.Sprintf("<%s:%d>", uid, i)}
		if i%7 == 0 {
			m.target = uc.CurNick()
		}
		sent = append(sent, m)
	}
	seeds := []int64{r.Int63(), r.Int63(), r.Int63()}
	var wg sync.WaitGroup
	errs := make(chan interface{}, 8)
	guard := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					errs <- v
				}
			}()
			f()
		}()
	}
	fixed := w.Connect(ClientOpts{User: "user", Network: "net", Client: "fixed", Ack: true, Caps: Subset(r, relayCaps, 0.3)})
	fixed.Sync()
	stop := make(chan struct{})
	guard(func() {
		defer close(stop)
		for i := 0; i < total; {
			k := 1 + i%5
			var lines []string
			for j := 0; j < k && i < total; j++ {
				lines = append(lines, sent[i].line(""))
				i++
			}
			uc.Send(lines...)
			if i%40 == 0 {
				uc.Sync()
			}
		}
		uc.Sync()
	})
	for ci, sd := range seeds {
		ci, sd := ci, sd
		guard(func() {
			for it := 0; ; it++ {
				// history-capable clients get no backlog, so only live messages arrive
				caps := []string{"draft/chathistory", "batch", "server-time", "message-tags"}
				c := w.Connect(ClientOpts{User: "user", Network: "net", Client: fmt.Sprintf("churn%d", ci), Caps: caps})
				for j := 0; j < int(sd%5)+1; j++ {
					c.Sync()
				}
				final := false
				select {
				case <-stop:
					final = true
				default:
				}
				c.Sync()
				got, seqs := payloadLines(c.Lines(), uid)
				for i := range got {
					if i > 0 && seqs[i] != seqs[i-1]+1 {
						c.Dump()
						Failf("%s: message %d follows message %d while connected (loss, duplication or reordering)", c.Name, seqs[i], seqs[i-1])
					}
					checkSame(c.Name, got[i], sent[seqs[i]])
				}
				t.Count("deliveries checked", len(got))
				t.State("churn|%d|%d", it, len(got))
				if final && len(got) > 0 && seqs[len(seqs)-1] != total-1 {
					c.Dump()
					Failf("%s: last message received is %d, the network sent up to %d", c.Name, seqs[len(seqs)-1], total-1)
				}
				c.Close()
				if final {
					return
				}
			}
		})
	}
	wg.Wait()
	select {
	case v := <-errs:
		panic(v)
	default:
	}
	fixed.Sync()
	_, seqs := payloadLines(fixed.Lines(), uid)
	for i := range seqs {
		if i > 0 && seqs[i] != seqs[i-1]+1 {
			fixed.Dump()
			Failf("%s: message %d follows message %d", fixed.Name, seqs[i], seqs[i-1])
		}
	}
	if len(seqs) != total {
		Failf("%s received %d messages of %d", fixed.Name, len(seqs), total)
	}
	t.Count("deliveries checked", len(seqs))
	w.CheckNoPanic()
}
