package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	. "verif/harness/h"
)

// histEntry is one message or event the bouncer must have recorded.
type histEntry struct {
	t      time.Time // as stored (seconds for the file store)
	cmd    string
	nick   string
	params []string // first one is the target as clients see it
	conv   string   // conversation, ASCII lower case
	event  bool
	seq    int
}

// histWorld is a bouncer with a generated recorded history.
type histWorld struct {
	w     *World
	up    *Upstream
	uc    *UpConn
	store string
	net   *database.Network
	user  *database.User
	ents  []*histEntry // in order of arrival
	convs []string
	nextE int
}

const isoMs = "2006-01-02T15:04:05.000Z"

func iso(t time.Time) string { return t.UTC().Format(isoMs) }

// newHistWorld loads a random history through the network connection; a long
// one covers many more days than have messages.
func newHistWorld(t *T, store string, distinct, long bool) *histWorld {
	r := t.Rng
	hw := &histWorld{store: store}
	w := NewWorld(t, store)
	hw.w = w
	up := NewUpstream(t, "net")
	up.Caps = []string{"message-tags", "server-time", "batch"}
	hw.up = up
	chans := []string{"#One", "#two", "#quiet"}
	base := time.Now().Truncate(time.Second).Add(-time.Duration(5+r.Intn(60)) * 24 * time.Hour)
	joinAt := base.Add(-72 * time.Hour)
	if long {
		joinAt = time.Now().Truncate(time.Second).Add(-48 * time.Hour)
	}
	up.OnLine = func(c *UpConn, l Line) bool {
		if l.Command != "JOIN" {
			return false
		}
		for _, ch := range strings.Split(l.P(0), ",") {
			c.Send(fmt.Sprintf("@time=%s :%s JOIN %s", iso(joinAt), c.Prefix(), ch),
				fmt.Sprintf(":%s 353 %s = %s :@%s alice Bob[x] zed", up.Host, c.CurNick(), ch, c.CurNick()),
				fmt.Sprintf(":%s 366 %s %s :end", up.Host, c.CurNick(), ch))
		}
		return true
	}
	up.ISupport = []string{"CASEMAPPING=ascii", "CHANTYPES=#", "PREFIX=(ov)@+", "CHANMODES=b,k,l,imnt"}
	up.Start()
	hw.user = w.AddUser("user", false)
	hw.net = w.AddNetwork(hw.user, "net", up)
	for _, ch := range chans {
		w.AddChannel(hw.net, ch)
	}
	var other *Upstream
	if r.Intn(3) == 0 { // another network with conversations of the same names
		other = NewUpstream(t, "other")
		other.Start()
		on := w.AddNetwork(hw.user, "other", other)
		w.AddChannel(on, "#One")
		w.AddChannel(on, "#two")
	}
	w.Start()
	if other != nil {
		other.Ready(0).Sync()
	}
	uc := up.Ready(0)
	uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" && l.P(0) == "#quiet" })
	uc.Sync()
	hw.uc = uc
	for _, ch := range chans {
		hw.add(&histEntry{t: joinAt, cmd: "JOIN", nick: "user", params: []string{ch}, conv: strings.ToLower(ch), event: true})
	}
	// times, per conversation
	n := Pick(r, []int{0, 3, 20, 60, 150})
	type stamped struct {
		t    time.Time
		conv int
	}
	convs := []string{"#One", "#two", "alice", "Bob[x]", "dan"}
	var st []stamped
	cur := base
	if long { // backwards from now
		cur = time.Now().Truncate(time.Second).Add(-96 * time.Hour)
		for i := 0; i < n; i++ {
			st = append([]stamped{{cur, i % len(convs)}}, st...)
			cur = cur.Add(-time.Duration(1+r.Intn(4))*24*time.Hour - time.Duration(r.Intn(7200))*time.Second)
		}
		n = 0
	}
	for i := 0; i < n; i++ {
		switch r.Intn(10) {
		case 0, 1, 2: // same second / instant
			if distinct {
				cur = cur.Add(time.Second)
			}
		case 3, 4, 5:
			cur = cur.Add(time.Duration(1+r.Intn(50)) * time.Second)
		case 6: // exact local midnight
			y, m, d := cur.In(time.Local).Date()
			cur = time.Date(y, m, d+1, 0, 0, 0, 0, time.Local)
		case 7: // last second of the day
			y, m, d := cur.In(time.Local).Date()
			nx := time.Date(y, m, d, 23, 59, 59, 0, time.Local)
			if nx.After(cur) {
				cur = nx
			} else {
				cur = cur.Add(time.Second)
			}
		case 8: // gap of days
			cur = cur.Add(time.Duration(1+r.Intn(5)) * 24 * time.Hour)
		default:
			cur = cur.Add(time.Duration(r.Intn(7200)) * time.Second)
			if distinct {
				cur = cur.Add(time.Second)
			}
		}
		if store == "db" && !distinct && r.Intn(3) == 0 {
			cur = cur.Add(time.Duration(r.Intn(999)) * time.Millisecond)
		}
		if time.Since(cur) < 25*time.Hour {
			break
		}
		st = append(st, stamped{cur, r.Intn(len(convs))})
	}
	if store == "db" && !distinct && r.Intn(2) == 0 {
		r.Shuffle(len(st), func(i, j int) { st[i], st[j] = st[j], st[i] }) // out-of-order times
	}
	var lines, decoy []string
	members := []string{}
	for i, s := range st {
		conv := convs[s.conv]
		isChan := strings.HasPrefix(conv, "#")
		e := &histEntry{t: s.t, conv: strings.ToLower(conv), cmd: "PRIVMSG", nick: Pick(r, []string{"alice", "Bob[x]", "zed", "user", "e-", "_x_"})}
		tm := "@time=" + iso(s.t)
		if !isChan && e.nick != "user" {
			e.nick = conv
		}
		if isChan && !long && r.Intn(4) == 0 {
			e.event = true
			switch k := r.Intn(7); {
			case k < 2 || (k < 6 && len(members) == 0 && k != 4):
				m := fmt.Sprintf("m%d", i)
				members = append(members, m+" "+conv)
				e.cmd, e.nick, e.params = "JOIN", m, []string{conv}
				lines = append(lines, fmt.Sprintf("%s :%s!u@h JOIN %s", tm, m, conv))
			case k == 4:
				e.cmd, e.nick, e.params = "TOPIC", "alice", []string{conv, fmt.Sprintf("topic '%d' is (now)", i)}
				lines = append(lines, fmt.Sprintf("%s :alice!a@h TOPIC %s :%s", tm, conv, e.params[1]))
			case k == 6:
				e.cmd, e.nick, e.params = "MODE", "zed", []string{conv, "+v-o", "alice", "zed"}
				lines = append(lines, fmt.Sprintf("%s :zed!a@h MODE %s +v-o alice zed", tm, conv))
			default:
				mi := r.Intn(len(members))
				m, mc, _ := strings.Cut(members[mi], " ")
				members = append(members[:mi], members[mi+1:]...)
				e.conv, e.nick = strings.ToLower(mc), m
				switch k {
				case 2:
					e.cmd, e.params = "PART", []string{mc, "so (long)"}
					lines = append(lines, fmt.Sprintf("%s :%s!u@h PART %s :so (long)", tm, m, mc))
				case 3:
					e.cmd, e.params = "QUIT", []string{"Ping: timeout (9)"}
					lines = append(lines, fmt.Sprintf("%s :%s!u@h QUIT :Ping: timeout (9)", tm, m))
				default:
					e.cmd, e.nick, e.params = "KICK", "alice", []string{mc, m, "be nice"}
					lines = append(lines, fmt.Sprintf("%s :alice!u@h KICK %s %s :be nice", tm, mc, m))
				}
			}
			hw.add(e)
			continue
		}
		if r.Intn(4) == 0 {
			e.cmd = "NOTICE"
		}
		text := fmt.Sprintf("<h:%d> %s", i, RandText(r))
		switch r.Intn(8) {
		case 0:
			text = fmt.Sprintf("\x01ACTION does <h:%d> it\x01", i)
			e.cmd = "PRIVMSG"
		case 1:
			text = fmt.Sprintf("> - [12:00:00] <alice> *** Joins: <h:%d>", i)
		case 2:
			code := Pick(r, []string{"\x0304", "\x034", "\x0304,12", "\x033,1", "\x04ff8800", "\x04FF8800,00aaff", "\x02", "\x1d\x1f", "\x16"})
			text = fmt.Sprintf("<h:%d> %sred%s %spaint\x0f here\x03", i, code, Pick(r, []string{"\x0f", "\x03", "\x02"}), code)
		}
		tgt := conv
		if !isChan && e.nick != "user" {
			tgt = "user"
		}
		e.params = []string{tgt, text}
		if store == "db" && !long && r.Intn(12) == 0 {
			e.cmd, e.event, e.params = "TAGMSG", true, []string{tgt}
			lines = append(lines, fmt.Sprintf("%s;+draft/react=x :%s!u@h TAGMSG %s", tm, e.nick, tgt))
		} else {
			lines = append(lines, fmt.Sprintf("%s :%s!u@h %s %s :%s", tm, e.nick, e.cmd, tgt, text))
		}
		if r.Intn(4) == 0 {
			decoy = append(decoy, fmt.Sprintf("%s :%s!u@h %s %s :other %s", tm, e.nick, Pick(r, []string{"PRIVMSG", "NOTICE"}), tgt, text))
		}
		hw.add(e)
	}
	if other != nil {
		oc := other.Ready(0)
		for len(decoy) > 0 {
			k := min(len(decoy), 40)
			oc.Send(decoy[:k]...)
			oc.Sync()
			decoy = decoy[k:]
		}
	}
	for len(lines) > 0 {
		k := 40
		if k > len(lines) {
			k = len(lines)
		}
		uc.Send(lines[:k]...)
		uc.Sync()
		lines = lines[k:]
	}
	seen := map[string]bool{}
	for _, e := range hw.ents {
		if !seen[e.conv] {
			seen[e.conv] = true
			hw.convs = append(hw.convs, e.conv)
		}
	}
	if r.Intn(3) == 0 { // the same answers must come after a restart
		k := up.NumConns()
		w.Restart()
		joinAt2 := hw.w
		_ = joinAt2
		hw.uc = up.Ready(k)
		hw.uc.Wait(0, "MODE", func(l Line) bool { return l.Command == "MODE" && l.P(0) == "#quiet" })
		hw.uc.Sync()
		for _, ch := range chans {
			hw.add(&histEntry{t: joinAt, cmd: "JOIN", nick: "user", params: []string{ch}, conv: strings.ToLower(ch), event: true})
		}
	}
	t.Count("messages and events recorded", len(hw.ents))
	return hw
}

func (hw *histWorld) add(e *histEntry) {
	e.seq = hw.nextE
	hw.nextE++
	if hw.store == "fs" {
		e.t = e.t.Truncate(time.Second)
	}
	hw.ents = append(hw.ents, e)
}

// conv returns the entries of a conversation in the order history shows them.
func (hw *histWorld) conv(name string, events bool) []*histEntry {
	var l []*histEntry
	for _, e := range hw.ents {
		if e.conv == strings.ToLower(name) && (events || !e.event) {
			l = append(l, e)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].t.Before(l[j].t) })
	return l
}

func (e *histEntry) String() string {
	return fmt.Sprintf("[%s] :%s %s %q", iso(e.t), e.nick, e.cmd, e.params)
}

// matches compares a line given by the bouncer with an entry.
func (e *histEntry) matches(l Line) bool {
	if l.Command != e.cmd || l.Prefix == nil || l.Prefix.Name != e.nick || len(l.Params) != len(e.params) {
		return false
	}
	for i := range e.params {
		a, b := l.P(i), e.params[i]
		if i == 0 && e.cmd != "QUIT" && e.cmd != "NICK" {
			a, b = strings.ToLower(a), strings.ToLower(b)
		}
		if a != b {
			return false
		}
	}
	return l.Tags["time"] == iso(e.t)
}

// batch sends a command and returns the lines of the single batch answering
// it; fail is the FAIL line, if any.
func queryBatch(c *Client, cmd, typ string) (out []Line, fail *Line, open Line) {
	from := c.Mark()
	c.Send(cmd)
	end := c.Sync()
	ls := c.Lines()[from:end]
	ref := ""
	closed := 0
	for i := range ls {
		l := ls[i]
		switch {
		case l.Command == "FAIL" || l.Command == "421":
			fail = &ls[i]
		case l.Command == "BATCH" && strings.HasPrefix(l.P(0), "+"):
			if ref != "" {
				Failf("%s: %q answered with several batches", c.Name, cmd)
			}
			ref, open = l.P(0)[1:], l
			if l.P(1) != typ {
				Failf("%s: %q answered with a batch of type %q", c.Name, cmd, l.P(1))
			}
		case l.Command == "BATCH":
			if l.P(0) != "-"+ref || ref == "" {
				Failf("%s: %q: unexpected %q", c.Name, cmd, l.Raw)
			}
			closed++
		case ref != "" && closed == 0:
			if string(l.Tags["batch"]) != ref {
				Failf("%s: %q: line inside the batch without its reference: %q", c.Name, cmd, l.Raw)
			}
			out = append(out, l)
		case len(l.Command) == 3 && l.Command[0] >= '0' && l.Command[0] <= '9' && string(l.Tags["batch"]) == "":
			// the network's answer to something else, such as the MODE
			// soju sends after joining
		default:
			Failf("%s: %q: line outside the batch: %q", c.Name, cmd, l.Raw)
		}
	}
	if fail == nil && (ref == "" || closed != 1) {
		c.Dump()
		Failf("%s: %q got no complete answer", c.Name, cmd)
	}
	return
}

func compareHist(t *T, c *Client, what string, got []Line, want []*histEntry) {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i].Raw
		}
		if i < len(want) {
			w = want[i].String()
		}
		if i >= len(got) || i >= len(want) || !want[i].matches(got[i]) {
			Failf("%s: %s: %d results, want %d; at position %d got %q, want %s", c.Name, what, len(got), len(want), i, g, w)
		}
	}
	t.Count("results compared", len(want))
}

func between(l []*histEntry, a, b time.Time) []*histEntry {
	var out []*histEntry
	for _, e := range l {
		if e.t.After(a) && e.t.Before(b) {
			out = append(out, e)
		}
	}
	return out
}

func firstN(l []*histEntry, n int) []*histEntry {
	if len(l) > n {
		return l[:n]
	}
	return l
}

func lastN(l []*histEntry, n int) []*histEntry {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

// randBound picks an interesting instant around the entries.
func (hw *histWorld) randBound(t *T, l []*histEntry) time.Time {
	r := t.Rng
	if len(l) == 0 {
		return time.Now().Add(-time.Duration(r.Intn(80)) * time.Hour)
	}
	e := l[r.Intn(len(l))]
	switch r.Intn(6) {
	case 0, 1:
		return e.t
	case 2:
		return e.t.Add(time.Millisecond)
	case 3:
		return e.t.Add(-time.Millisecond)
	case 4:
		return e.t.Add(time.Duration(r.Intn(172800)-86400) * time.Second)
	default:
		y, m, d := e.t.In(time.Local).Date()
		return time.Date(y, m, d+r.Intn(2), 0, 0, 0, 0, time.Local)
	}
}

// setZone varies the local time zone of the process with the seed.
func setZone(seed int64) {
	zones := []int{0, 5*3600 + 1800, -8 * 3600, 14 * 3600, -3600}
	time.Local = time.FixedZone("verif", zones[int(uint64(seed)%uint64(len(zones)))])
}
