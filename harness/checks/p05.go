package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P05", Level: "exploration",
		Rule:   "one execution = a generated history (up to 150 messages and events in 6 conversations, gaps of days, logs of over a year with a few messages each month, equal instants, local midnights, out-of-order times with the database store) recorded through the network connection, sometimes followed by a restart, then 40 random CHATHISTORY queries per client plus complete paging in both directions; a situation is (store, query, events, limit class, size of the range, result size class)",
		Assume: []string{"the file store has a precision of one second and follows gaps of up to 100 days", "the file store lists targets by file modification time, so the harness sets these times"},
		Cases: func(e *Env) []Case {
			setZone(e.Seed)
			var l []Case
			l = append(l, Repeat(e, "query", e.N(400, 8000), p05Query)...)
			l = append(l, Repeat(e, "recent", e.N(60, 1000), p05Recent)...)
			l = append(l, Repeat(e, "page", e.N(120, 2500), p05Page)...)
			return l
		},
	})
}

func respell(t *T, s string) string {
	switch t.Rng.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s
	}
	b := []byte(s)
	for i := range b {
		if t.Rng.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func sizeClass(n int) string {
	switch {
	case n < 3:
		return fmt.Sprint(n)
	case n < 20:
		return "few"
	}
	return "many"
}

func p05Query(t *T) {
	r := t.Rng
	store := Pick(r, []string{"fs", "db"})
	hw := newHistWorld(t, store, false, r.Intn(5) == 0)
	for k := 0; k < 2; k++ {
		events := k == 1
		caps := []string{"message-tags", "server-time", "batch", "draft/chathistory"}
		c := hw.w.Connect(ClientOpts{User: "user", Network: "net", Caps: caps})
		if events {
			c.Send("CAP REQ :draft/event-playback") // offered once bound to a network
			c.Sync()
		}
		for q := 0; q < 40; q++ {
			conv := Pick(r, append(append([]string{}, hw.convs...), "nobody", "#quiet"))
			l := hw.conv(conv, events)
			limit := Pick(r, []int{0, 1, 2, 3, 5, 10, 50, 1000, 1 + r.Intn(1000)})
			a, b := hw.randBound(t, l), hw.randBound(t, l)
			future := time.Now().Add(time.Hour)
			var cmd string
			var want []*histEntry
			kind := r.Intn(7)
			tgt := respell(t, conv)
			switch kind {
			case 0:
				cmd = fmt.Sprintf("CHATHISTORY LATEST %s * %d", tgt, limit)
				want = lastN(l, limit)
			case 1:
				cmd = fmt.Sprintf("CHATHISTORY LATEST %s timestamp=%s %d", tgt, iso(a), limit)
				want = lastN(between(l, a, future), limit)
			case 2:
				cmd = fmt.Sprintf("CHATHISTORY BEFORE %s timestamp=%s %d", tgt, iso(a), limit)
				want = lastN(between(l, time.Time{}, a), limit)
			case 3:
				cmd = fmt.Sprintf("CHATHISTORY AFTER %s timestamp=%s %d", tgt, iso(a), limit)
				want = firstN(between(l, a, future), limit)
			case 4, 5:
				cmd = fmt.Sprintf("CHATHISTORY BETWEEN %s timestamp=%s timestamp=%s %d", tgt, iso(a), iso(b), limit)
				if a.Before(b) {
					want = firstN(between(l, a, b), limit)
				} else {
					want = lastN(between(l, b, a), limit)
				}
			default:
				p05Targets(t, hw, c, events, limit)
				continue
			}
			got, fail, open := queryBatch(c, cmd, "chathistory")
			if fail != nil {
				Failf("%s: %q refused: %q", c.Name, cmd, fail.Raw)
			}
			if !strings.EqualFold(open.P(2), conv) {
				Failf("%s: %q answered for %q", c.Name, cmd, open.P(2))
			}
			compareHist(t, c, fmt.Sprintf("%s store (zone %s): %s", store, time.Local, cmd), got, want)
			t.State("%s|%d|%v|%s|%s|%s", store, kind, events, sizeClass(limit), sizeClass(len(l)), sizeClass(len(want)))
			t.Count("queries checked", 1)
		}
		// invalid queries are refused
		for _, bad := range []string{
			"LATEST #one * -1", "LATEST #one * 1001", "LATEST #one * x", "BEFORE #one timestamp=yesterday 5",
			"BEFORE #one * 5", "AFTER #one msgid=1 5", "BETWEEN #one timestamp=2024-01-01T00:00:00.000Z bogus 5", "AROUND #one timestamp=2024-01-01T00:00:00.000Z 5",
			"TARGETS timestamp=x timestamp=2024-01-01T00:00:00.000Z 5",
		} {
			_, fail, _ := queryBatch(c, "CHATHISTORY "+bad, "chathistory")
			if fail == nil || fail.Command != "FAIL" {
				Failf("%s: invalid query %q was not refused", c.Name, bad)
			}
		}
		if r.Intn(2) == 0 {
			c.Close()
		}
	}
	hw.w.CheckNoPanic()
}

func p05Targets(t *T, hw *histWorld, c *Client, events bool, limit int) {
	r := t.Rng
	type tg struct {
		name string
		t    time.Time
	}
	var all []tg
	for _, cv := range hw.convs {
		l := hw.conv(cv, events)
		if hw.store == "fs" {
			l = hw.conv(cv, true)
		}
		if len(l) > 0 {
			all = append(all, tg{cv, l[len(l)-1].t})
		}
	}
	var a, b time.Time
	now := hw.store == "fs" && r.Intn(4) == 0
	if now {
		// the times of the files are those of writing
		a, b = time.Now().Add(-24*time.Hour), time.Now().Add(24*time.Hour)
		for _, x := range all {
			p05FileTimes(t, hw, x.name, time.Now())
		}
		for i := range all {
			all[i].t = time.Now()
		}
	} else {
		for i, x := range all {
			if hw.store == "fs" { // as written in real time
				p05FileTimes(t, hw, x.name, x.t)
				all[i].t = x.t.Truncate(time.Second)
			}
		}
		a, b = hw.randBound(t, hw.ents), hw.randBound(t, hw.ents)
		if r.Intn(2) == 0 {
			a = a.Add(-90 * 24 * time.Hour)
			b = b.Add(90 * 24 * time.Hour)
		}
	}
	if r.Intn(2) == 0 {
		a, b = b, a
	}
	cmd := fmt.Sprintf("CHATHISTORY TARGETS timestamp=%s timestamp=%s %d", iso(a), iso(b), limit)
	got, fail, _ := queryBatch(c, cmd, "draft/chathistory-targets")
	if fail != nil {
		Failf("%s: %q refused: %q", c.Name, cmd, fail.Raw)
	}
	seen := map[string]bool{}
	for _, l := range got {
		if l.Command != "CHATHISTORY" || l.P(0) != "TARGETS" || seen[l.P(1)] {
			Failf("%s: %q: unexpected %q", c.Name, cmd, l.Raw)
		}
		seen[l.P(1)] = true
	}
	t.Count("target listings checked", 1)
	if now {
		n := len(all)
		if limit < n {
			n = limit
		}
		if len(got) != n {
			Failf("%s: %q returned %d targets, want %d", c.Name, cmd, len(got), n)
		}
		for name := range seen {
			ok := false
			for _, x := range all {
				ok = ok || x.name == name
			}
			if !ok {
				Failf("%s: %q returned the unknown target %q", c.Name, cmd, name)
			}
		}
		return
	}
	lo, hi := a, b
	if hi.Before(lo) {
		lo, hi = hi, lo
	}
	var in []tg
	for _, x := range all {
		if x.t.After(lo) && x.t.Before(hi) {
			in = append(in, x)
		}
	}
	sort.SliceStable(in, func(i, j int) bool { return in[i].t.Before(in[j].t) })
	ties := false
	for i := 1; i < len(in); i++ {
		ties = ties || in[i].t.Equal(in[i-1].t)
	}
	n := limit
	if len(in) < n {
		n = len(in)
	}
	want := in[:n]
	if !a.Before(b) {
		want = in[len(in)-n:]
		if hw.store == "fs" { // latest first
			want = nil
			for i := len(in) - 1; i >= len(in)-n; i-- {
				want = append(want, in[i])
			}
		}
	}
	if len(got) != len(want) {
		Failf("%s: %q (events %v) returned %d targets %v, want %d %v", c.Name, cmd, events, len(got), got, len(want), want)
	}
	for i := range want {
		if got[i].P(2) != iso(want[i].t) || (!ties && got[i].P(1) != want[i].name) {
			Failf("%s: %q (events %v): target %d is %q, want %s %s", c.Name, cmd, events, i, got[i].Raw, want[i].name, iso(want[i].t))
		}
	}
	t.State("%s|targets|%v|%s|%s", hw.store, events, sizeClass(limit), sizeClass(len(want)))
}

// p05FileTimes gives the logs of a conversation the modification times they
// would have if they had been written when the messages were sent.
func p05FileTimes(t *T, hw *histWorld, conv string, last time.Time) {
	dir := filepath.Join(hw.w.StoreDir(), "user", "net", conv)
	l, err := os.ReadDir(dir)
	Must(err)
	for i, e := range l { // sorted by day
		Must(os.Chtimes(filepath.Join(dir, e.Name()), last, last.Add(-time.Duration(len(l)-1-i)*24*time.Hour)))
	}
}

func p05Page(t *T) {
	r := t.Rng
	store := Pick(r, []string{"fs", "db"})
	hw := newHistWorld(t, store, true, r.Intn(5) == 0)
	events := r.Intn(2) == 0
	caps := []string{"message-tags", "server-time", "batch", "draft/chathistory"}
	c := hw.w.Connect(ClientOpts{User: "user", Network: "net", Caps: caps})
	if events {
		c.Send("CAP REQ :draft/event-playback") // offered once bound to a network
		c.Sync()
	}
	for _, conv := range hw.convs {
		all := hw.conv(conv, events)
		var l []*histEntry // one instant per entry (restarts rejoin at the same instant)
		for i, e := range all {
			if i == 0 || !e.t.Equal(all[i-1].t) {
				l = append(l, e)
			}
		}
		if len(l) != len(all) {
			continue
		}
		limit := 1 + r.Intn(7)
		var got []Line
		bound := "*"
		for pages := 0; ; pages++ {
			cmd := fmt.Sprintf("CHATHISTORY LATEST %s * %d", conv, limit)
			if bound != "*" {
				cmd = fmt.Sprintf("CHATHISTORY BEFORE %s timestamp=%s %d", conv, bound, limit)
			}
			page, fail, _ := queryBatch(c, cmd, "chathistory")
			if fail != nil {
				Failf("%s: %q refused: %q", c.Name, cmd, fail.Raw)
			}
			if len(page) == 0 {
				break
			}
			if len(page) > limit {
				Failf("%s: %q returned %d messages", c.Name, cmd, len(page))
			}
			got = append(append([]Line{}, page...), got...)
			bound = page[0].Tags["time"]
			if pages > len(l)+2 {
				Failf("%s: paging backwards through %s never ends", c.Name, conv)
			}
		}
		compareHist(t, c, fmt.Sprintf("%s store: paging backwards through %s by %d", store, conv, limit), got, l)
		if len(l) == 0 {
			continue
		}
		got = nil
		bound = iso(l[0].t.Add(-time.Second))
		for pages := 0; ; pages++ {
			cmd := fmt.Sprintf("CHATHISTORY AFTER %s timestamp=%s %d", conv, bound, limit)
			page, fail, _ := queryBatch(c, cmd, "chathistory")
			if fail != nil {
				Failf("%s: %q refused: %q", c.Name, cmd, fail.Raw)
			}
			if len(page) == 0 {
				break
			}
			got = append(got, page...)
			bound = page[len(page)-1].Tags["time"]
			if pages > len(l)+2 {
				Failf("%s: paging forwards through %s never ends", c.Name, conv)
			}
		}
		compareHist(t, c, fmt.Sprintf("%s store: paging forwards through %s by %d", store, conv, limit), got, l)
		t.State("%s|page|%v|%d|%s", store, events, limit, sizeClass(len(l)))
		t.Count("conversations paged", 1)
	}
	hw.w.CheckNoPanic()
}

// p05Recent: queries right after messages arrived.
func p05Recent(t *T) {
	r := t.Rng
	store := Pick(r, []string{"fs", "db"})
	w := NewWorld(t, store)
	up := NewUpstream(t, "net")
	up.Start()
	u := w.AddUser("user", false)
	n := w.AddNetwork(u, "net", up)
	w.AddChannel(n, "#one")
	w.Start()
	uc := up.Ready(0)
	uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" })
	uc.Sync()
	c := w.Connect(ClientOpts{User: "user", Network: "net", Caps: []string{"message-tags", "server-time", "batch", "draft/chathistory"}})
	var sent []string
	for i := 0; i < 40; i++ {
		text := fmt.Sprintf("recent %d", i)
		sent = append(sent, text)
		from := c.Mark()
		uc.Sendf(":alice!a@h PRIVMSG #one :%s", text)
		c.Wait(from, text, func(l Line) bool { return l.P(1) == text })
		limit := 1 + r.Intn(50)
		want := sent
		cmd := fmt.Sprintf("CHATHISTORY LATEST #one * %d", limit)
		if r.Intn(3) == 0 {
			limit = 1000
			cmd = fmt.Sprintf("CHATHISTORY AFTER #one timestamp=%s %d", iso(time.Now().Add(-time.Hour)), limit)
		}
		if len(want) > limit {
			want = want[len(want)-limit:]
		}
		var got []string
		ls, _, _ := queryBatch(c, cmd, "chathistory")
		for _, l := range ls {
			got = append(got, l.P(1))
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			Failf("%s store: %q right after message %d returned %d messages ending in %q, want %d", store, cmd, i, len(got), lastOf(got), len(want))
		}
		t.Count("queries checked", 1)
	}
	t.State("recent|%s", store)
	w.CheckNoPanic()
}

func lastOf(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return l[len(l)-1]
}
