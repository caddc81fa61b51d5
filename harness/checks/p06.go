package checks

import (
	"fmt"
	"regexp"
	"strings"
	"time"
	"unicode"

	. "verif/harness/h"

	"gopkg.in/irc.v4"
)

func init() {
	Register(&Check{
		Prop: "P06", Level: "exploration",
		Rule:   "one execution = a generated history as for P05, then 60 SEARCH queries with random combinations of in, from, text, before, after and limit; each result must consist of recorded messages of that conversation satisfying every criterion, in time order, and must be complete up to the limit; a situation is (store, attributes used, limit class, number of matches, result size)",
		Assume: []string{"text matching is implementation-defined between whole-word phrase matching (every such match is required) and substring matching of all words (nothing else is allowed), ignoring case", "messages at exactly the instant of a bound may or may not be included"},
		Cases: func(e *Env) []Case {
			setZone(e.Seed)
			var l []Case
			l = append(l, Repeat(e, "search", e.N(400, 8000), p06Search)...)
			l = append(l, Repeat(e, "bulk", e.N(24, 400), p06Bulk)...)
			return l
		},
	})
}

func words(s string) []string {
	return strings.FieldsFunc(strings.ToLower(s), func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) })
}

func plainWords(s string) bool {
	for _, r := range s {
		if !(r == ' ' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return false
		}
	}
	return len(strings.Fields(s)) > 0 && strings.Join(strings.Fields(s), " ") == s
}

var fmtCodes = regexp.MustCompile("[\x02\x1d\x1f\x1e\x11\x16\x0f]|\x03([0-9]{1,2}(,[0-9]{1,2})?)?|\x04([0-9a-fA-F]{6}(,[0-9a-fA-F]{6})?)?")

// mustMatch: the query occurs in the message, as it is shown, as whole words.
func mustMatch(text, q string) bool {
	if !plainWords(q) || !strings.Contains(strings.ToLower(text), strings.ToLower(q)) {
		return false
	}
	text = fmtCodes.ReplaceAllString(text, "")
	text, q = strings.ToLower(text), strings.ToLower(q)
	alnum := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 0x80 }
	for i := 0; i+len(q) <= len(text); i++ {
		if text[i:i+len(q)] == q && (i == 0 || !alnum(text[i-1])) && (i+len(q) == len(text) || !alnum(text[i+len(q)])) {
			return true
		}
	}
	return false
}

var deburr = strings.NewReplacer("é", "e", "É", "e")

// mayMatch: every word of the query occurs in the message.
func mayMatch(text, q string) bool {
	lt := strings.ToLower(text)
	if strings.Contains(lt, strings.ToLower(q)) {
		return true
	}
	lt += " " + fmtCodes.ReplaceAllString(lt, "")
	ws := words(q)
	if len(ws) == 0 {
		return false
	}
	for _, w := range ws {
		if !strings.Contains(deburr.Replace(lt), deburr.Replace(w)) {
			return false
		}
	}
	return true
}

type searchQuery struct {
	in, from, text string
	before, after  time.Time
	limit          int // 0: not given
}

func (q *searchQuery) String() string {
	tags := irc.Tags{"in": q.in}
	if q.from != "" {
		tags["from"] = q.from
	}
	if q.text != "" {
		tags["text"] = q.text
	}
	if !q.before.IsZero() {
		tags["before"] = iso(q.before)
	}
	if !q.after.IsZero() {
		tags["after"] = iso(q.after)
	}
	if q.limit != 0 {
		tags["limit"] = fmt.Sprint(q.limit)
	}
	return "SEARCH :" + tags.String()
}

func (q *searchQuery) class(e *histEntry) (must, may bool) {
	if e.event || len(e.params) != 2 {
		return false, false
	}
	must, may = true, true
	if q.from != "" && e.nick != q.from {
		return false, false
	}
	if q.text != "" {
		if !mayMatch(e.params[1], q.text) {
			return false, false
		}
		must = mustMatch(e.params[1], q.text)
	}
	for _, b := range []struct {
		t     time.Time
		after bool
	}{{q.after, true}, {q.before, false}} {
		if b.t.IsZero() {
			continue
		}
		if e.t.Equal(b.t) {
			must = false
		} else if e.t.After(b.t) != b.after {
			return false, false
		}
	}
	return must, may
}

func checkSearch(t *T, hw *histWorld, c *Client, q *searchQuery) {
	cmd := q.String()
	got, fail, _ := queryBatch(c, cmd, "soju.im/search")
	if fail != nil {
		Failf("%s: %s store: %q refused: %q", c.Name, hw.store, cmd, fail.Raw)
	}
	limit := q.limit
	if limit == 0 || limit > 100 {
		limit = 100
	}
	if len(got) > limit {
		Failf("%s: %s store: %q returned %d messages, more than the limit", c.Name, hw.store, cmd, len(got))
	}
	l := hw.conv(q.in, false)
	used := map[int]bool{}
	first, last := len(l), -1
	prev := ""
	for _, g := range got {
		found := -1
		for i, e := range l {
			if !used[i] && e.matches(g) {
				found = i
				break
			}
		}
		if found < 0 {
			Failf("%s: %s store: %q returned a message that was not exchanged there (or twice): %q", c.Name, hw.store, cmd, g.Raw)
		}
		if _, may := q.class(l[found]); !may {
			Failf("%s: %s store: %q returned a message that does not match: %q", c.Name, hw.store, cmd, g.Raw)
		}
		if tm := string(g.Tags["time"]); tm < prev {
			Failf("%s: %s store: %q: results are not in time order: %s after %s", c.Name, hw.store, cmd, tm, prev)
		} else {
			prev = tm
		}
		used[found] = true
		if found < first {
			first = found
		}
		if found > last {
			last = found
		}
	}
	var missBefore, missAfter, missIn []*histEntry
	nmust := 0
	for i, e := range l {
		must, _ := q.class(e)
		if !must {
			continue
		}
		nmust++
		if used[i] {
			continue
		}
		// equal instants at the ends of the result are interchangeable
		switch {
		case last < 0 || i > last || e.t.Equal(l[last].t):
			missAfter = append(missAfter, e)
		case i < first || e.t.Equal(l[first].t):
			missBefore = append(missBefore, e)
		default:
			missIn = append(missIn, e)
		}
	}
	if len(missIn) > 0 {
		Failf("%s: %s store: %q skipped the matching message %s", c.Name, hw.store, cmd, missIn[0])
	}
	if len(got) < limit && len(missBefore)+len(missAfter) > 0 {
		Failf("%s: %s store: %q returned %d messages and left out %s", c.Name, hw.store, cmd, len(got), append(missBefore, missAfter...)[0])
	}
	t.Count("searches checked", 1)
	t.Count("results compared", len(got))
	attrs := ""
	for _, a := range []struct {
		s string
		b bool
	}{{"f", q.from != ""}, {"t", q.text != ""}, {"b", !q.before.IsZero()}, {"a", !q.after.IsZero()}} {
		if a.b {
			attrs += a.s
		}
	}
	t.State("%s|%s|%s|%s|%s", hw.store, attrs, sizeClass(q.limit), sizeClass(nmust), sizeClass(len(got)))
}

var searchTexts = []string{"hello", "world", "hello world", "paint", "red paint", "c", "HELLO", "World Hello", "bold", "joins", "does", "action",
	"nosuchword", "hel", "日本", "é", "a,b", "\"q\"", "q", "100%", "100", "chan", "#chan", "http", "e.x", "hello*", "hello OR world", "NOT hello",
	"NEAR", "text:hello", "'", "\"", "\\o/", "-- ", "*", "%", "_", "(", ")", ";", " ", "hello\" OR \"world", "--", "hello -world", "{}", "^hello", "x:y", "+", "\x02", "1"}

func p06Search(t *T) {
	r := t.Rng
	store := Pick(r, []string{"fs", "db"})
	hw := newHistWorld(t, store, false, false)
	caps := []string{"message-tags", "server-time", "batch", "soju.im/search"}
	c := hw.w.Connect(ClientOpts{User: "user", Network: "net", Caps: caps})
	for k := 0; k < 60; k++ {
		conv := Pick(r, append(append([]string{}, hw.convs...), "nobody", "#quiet"))
		l := hw.conv(conv, false)
		q := &searchQuery{in: conv}
		if r.Intn(2) == 0 {
			q.in = respell(t, conv)
		}
		if r.Intn(3) == 0 {
			q.from = Pick(r, []string{"alice", "Bob[x]", "zed", "user", "e-", "_x_", "nobody", "dan", "ali", "al_ce", "a%", "%", "_e_", "z*d"})
		}
		if r.Intn(2) == 0 {
			q.text = Pick(r, searchTexts)
			if len(l) > 0 && r.Intn(3) == 0 {
				ws := words(l[r.Intn(len(l))].params[1])
				if len(ws) > 0 {
					i := r.Intn(len(ws))
					q.text = ws[i]
				}
			}
		}
		if r.Intn(3) == 0 {
			q.after = hw.randBound(t, l)
		}
		if r.Intn(3) == 0 {
			q.before = hw.randBound(t, l)
		}
		if r.Intn(2) == 0 {
			q.limit = Pick(r, []int{1, 2, 3, 7, 100, 101, 1000, 1 << 30})
		}
		checkSearch(t, hw, c, q)
	}
	for _, bad := range []string{"text=x", "in=#one;limit=0", "in=#one;limit=-3", "in=#one;limit=x", "in=#one;before=now", "in=#one;after=", "from=alice"} {
		_, fail, _ := queryBatch(c, "SEARCH :"+bad, "soju.im/search")
		if fail == nil || fail.Command != "FAIL" {
			Failf("%s: invalid search %q was not refused", c.Name, bad)
		}
	}
	hw.w.CheckNoPanic()
}

// p06Bulk: more matches than the documented maximum.
func p06Bulk(t *T) {
	r := t.Rng
	store := Pick(r, []string{"fs", "db"})
	hw := newHistWorld(t, store, true, false)
	base := time.Now().Truncate(time.Second).Add(-20 * time.Hour)
	n := 90 + r.Intn(200)
	var lines []string
	for i := 0; i < n; i++ {
		e := &histEntry{t: base.Add(time.Duration(i*60) * time.Second), cmd: "PRIVMSG", nick: Pick(r, []string{"alice", "zed"}), conv: "#two", params: []string{"#two", fmt.Sprintf("bulk number%d %s", i, Pick(r, []string{"red", "green"}))}}
		lines = append(lines, fmt.Sprintf("@time=%s :%s!u@h PRIVMSG #two :%s", iso(e.t), e.nick, e.params[1]))
		hw.add(e)
	}
	hw.uc.Send(lines...)
	hw.uc.Sync()
	c := hw.w.Connect(ClientOpts{User: "user", Network: "net", Caps: []string{"message-tags", "server-time", "batch", "soju.im/search"}})
	for k := 0; k < 12; k++ {
		q := &searchQuery{in: "#two", text: Pick(r, []string{"bulk", "red", "green", "", fmt.Sprintf("number%d", r.Intn(n))}), limit: Pick(r, []int{0, 50, 99, 100, 101, 5000})}
		if r.Intn(3) == 0 {
			q.from = "zed"
		}
		if r.Intn(3) == 0 {
			q.after = base.Add(time.Duration(r.Intn(n*60)) * time.Second)
		}
		if r.Intn(3) == 0 {
			q.before = base.Add(time.Duration(r.Intn(n*60)) * time.Second)
		}
		checkSearch(t, hw, c, q)
	}
	hw.w.CheckNoPanic()
}
