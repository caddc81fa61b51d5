package checks

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P25", Level: "stress_oracle",
		Rule:   "crud: random histories of every database operation with hostile values, including operations that must be refused (duplicates, dangling references) and re-opening, compared after every few steps with an in-memory reference model (all records of all users and networks through the interface, row counts per table, foreign key and full-text index integrity through a separate connection). upgrade: a database of every historical schema version is filled with random rows through plain SQL, opened by the current code, compared with the model and then put through the same random histories. parallel: several goroutines with their own users on one database. A situation is (case, schema version or operation, outcome)",
		Assume: []string{"SQLite is correct", "the historical schema versions are the ones in sqlite.go of the pinned commit", "PostgreSQL is not available in this sandbox, so that back end is not exercised"},
		Cases: func(e *Env) []Case {
			c := Repeat(e, "upgrade", e.N(54, 1200), p25Upgrade)
			c = append(c, Repeat(e, "crud", e.N(40, 1500), func(t *T) { p25Crud(t) })...)
			return append(c, Repeat(e, "parallel", e.N(6, 200), p25Parallel)...)
		},
	})
}

type p25Msg struct {
	id  int64
	t   time.Time
	raw string
	txt bool
	src string
}

type p25Net struct {
	user int64
	rec  database.Network
	chs  map[int64]database.Channel
	drs  map[string]map[string]string
	rrs  map[string]database.ReadReceipt
	wps  map[int64]database.WebPushSubscription
	msgs map[string][]p25Msg
}

type p25User struct {
	rec     database.User
	created time.Time
	wps     map[int64]database.WebPushSubscription
}

type p25Model struct {
	users map[int64]*p25User
	nets  map[int64]*p25Net
	cfgs  map[int64]database.WebPushConfig
	dead  []int64 // deleted users and networks
}

func newP25Model() *p25Model {
	return &p25Model{users: map[int64]*p25User{}, nets: map[int64]*p25Net{}, cfgs: map[int64]database.WebPushConfig{}}
}

func newP25Net(user int64, rec database.Network) *p25Net {
	return &p25Net{user: user, rec: rec, chs: map[int64]database.Channel{}, drs: map[string]map[string]string{}, rrs: map[string]database.ReadReceipt{}, wps: map[int64]database.WebPushSubscription{}, msgs: map[string][]p25Msg{}}
}

type p25 struct {
	t    *T
	r    *rand.Rand
	path string
	db   database.Database
	raw  *sql.DB
	m    *p25Model
	pfx  string // keeps names of parallel histories apart
	own  bool   // only look at the own users
}

func (p *p25) str() string {
	switch p.r.Intn(9) {
	case 0:
		return ""
	case 1:
		return Pick(p.r, []string{"'", "\"", "''; DROP TABLE User; --", ":nick", "?", "%", "_", "\\", "NULL", "0", "-1", "1e3", " lead", "trail ", "\t", "é日本\u2028", "a\nb", "x'41'", "\xff\xfe"})
	case 2:
		return strings.Repeat("long", 1+p.r.Intn(300))
	}
	return fmt.Sprintf("v%d", p.r.Intn(1000000))
}

// name is a value that collides now and then.
func (p *p25) name(kind string) string {
	if p.r.Intn(12) == 0 {
		return p.pfx + kind + Pick(p.r, []string{"'", "\"", " ", "é", "É", "_", "%", "\\"})
	}
	s := fmt.Sprintf("%s%s%d", p.pfx, kind, p.r.Intn(12))
	if p.r.Intn(5) == 0 {
		s = strings.ToUpper(s)
	}
	return s
}

func (p *p25) time() time.Time {
	if p.r.Intn(5) == 0 {
		return time.Time{}
	}
	return time.UnixMilli(1200000000000 + p.r.Int63n(600000000000)).UTC()
}

func (p *p25) blob() []byte {
	if p.r.Intn(3) == 0 {
		return nil
	}
	b := make([]byte, 1+p.r.Intn(60))
	p.r.Read(b)
	return b
}

func p25Busy(err error) bool {
	if err == nil {
		return false
	}
	s := err.Error()
	return errors.Is(err, context.DeadlineExceeded) || strings.Contains(s, "locked") || strings.Contains(s, "deadline") || strings.Contains(s, "interrupted") || strings.Contains(s, "busy")
}

func (p *p25) ok(what string, err error) {
	if p25Busy(err) {
		panic(Inconclusive{"database busy: " + what + ": " + err.Error()})
	}
	if err != nil {
		Failf("%s failed: %v", what, err)
	}
}

// result checks an operation that must be refused exactly when refuse is set.
func (p *p25) result(what string, err error, refuse bool) bool {
	if p25Busy(err) {
		panic(Inconclusive{"database busy: " + what + ": " + err.Error()})
	}
	p.t.Count("operations", 1)
	p.t.State("%s refused=%v", strings.SplitN(what, " ", 2)[0], refuse)
	if refuse && err == nil {
		Failf("%s was accepted, it must be refused", what)
	}
	if !refuse && err != nil {
		Failf("%s failed: %v", what, err)
	}
	return err == nil
}

var ctx0 = context.Background()

func normUser(u database.User) database.User {
	u.DownstreamInteractedAt = normTime(u.DownstreamInteractedAt)
	return u
}

func normTime(t time.Time) time.Time {
	if t.IsZero() {
		return time.Time{}
	}
	return t.UTC().Truncate(time.Millisecond)
}

func normNet(n database.Network) database.Network {
	if len(n.SASL.External.CertBlob) == 0 {
		n.SASL.External.CertBlob = nil
	}
	if len(n.SASL.External.PrivKeyBlob) == 0 {
		n.SASL.External.PrivKeyBlob = nil
	}
	switch n.SASL.Mechanism { // only the credentials in use are kept
	case "PLAIN":
		n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = nil, nil
	default:
		n.SASL.Plain.Username, n.SASL.Plain.Password = "", ""
	}
	if len(n.ConnectCommands) == 0 {
		n.ConnectCommands = nil
	}
	return n
}

func sameRec(what string, got, want interface{}) {
	if !reflect.DeepEqual(got, want) {
		Failf("%s: stored %+v, read back %+v", what, want, got)
	}
}

func sortedIDs[V any](m map[int64]V) []int64 {
	var l []int64
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// verify compares everything the database returns with the model.
func (p *p25) verify(why string) {
	db, m := p.db, p.m
	users, err := db.ListUsers(ctx0)
	p.ok("ListUsers", err)
	seen := map[int64]bool{}
	for _, u := range users {
		mu := m.users[u.ID]
		if mu == nil {
			if p.own {
				continue
			}
			Failf("%s: unexpected user %+v", why, u)
		}
		if seen[u.ID] {
			Failf("%s: user %d listed twice", why, u.ID)
		}
		seen[u.ID] = true
		sameRec(why+": user", normUser(u), mu.rec)
		g, err := db.GetUser(ctx0, mu.rec.Username)
		p.ok("GetUser", err)
		sameRec(why+": GetUser", normUser(*g), mu.rec)
		p.t.Count("records compared", 2)
	}
	for id, u := range m.users {
		if !seen[id] {
			Failf("%s: user %+v is missing", why, u.rec)
		}
	}
	if g, err := db.GetUser(ctx0, p.pfx+"nobody at all"); err == nil {
		Failf("%s: GetUser of an unknown name returned %+v", why, g)
	}
	p.inactive(why)
	nseen := map[int64]bool{}
	uids := map[int64]bool{}
	for _, uid := range append(sortedIDs(m.users), m.dead...) {
		if uids[uid] {
			continue
		}
		uids[uid] = true
		nets, err := db.ListNetworks(ctx0, uid)
		p.ok("ListNetworks", err)
		for _, n := range nets {
			mn := m.nets[n.ID]
			if mn == nil || mn.user != uid {
				if m.users[uid] == nil && p.own {
					continue // the identifier was given to someone else
				}
				Failf("%s: unexpected network %+v of user %d", why, n, uid)
			}
			if nseen[n.ID] {
				Failf("%s: network %d listed twice", why, n.ID)
			}
			nseen[n.ID] = true
			sameRec(why+": network", normNet(n), mn.rec)
			p.t.Count("records compared", 1)
		}
		want := map[int64]database.WebPushSubscription{}
		if u := m.users[uid]; u != nil {
			want = u.wps
		}
		if m.users[uid] != nil || !p.own {
			p.verifyWPS(why, uid, 0, want)
		}
	}
	for id, n := range m.nets {
		if !nseen[id] {
			Failf("%s: network %+v is missing", why, n.rec)
		}
	}
	for _, id := range sortedIDs(m.nets) {
		p.verifyNet(why, id, m.nets[id])
	}
	if !p.own {
		for _, id := range m.dead {
			if m.nets[id] == nil {
				p.verifyNet(why+" (deleted)", id, newP25Net(0, database.Network{}))
			}
		}
		cfgs, err := db.ListWebPushConfigs(ctx0)
		p.ok("ListWebPushConfigs", err)
		if len(cfgs) != len(m.cfgs) {
			Failf("%s: %d web push configurations, want %d", why, len(cfgs), len(m.cfgs))
		}
		for _, c := range cfgs {
			sameRec(why+": web push configuration", c, m.cfgs[c.ID])
		}
		p.verifyRows(why)
	}
}

func (p *p25) inactive(why string) {
	for _, lim := range []time.Time{time.UnixMilli(1200000000000 + p.r.Int63n(600000000000)).UTC(), time.Now().Add(time.Hour)} {
		l, err := p.db.ListInactiveUsernames(ctx0, lim)
		p.ok("ListInactiveUsernames", err)
		got := setOf(l)
		for _, u := range p.m.users {
			at := u.rec.DownstreamInteractedAt
			if at.IsZero() {
				at = u.created
			}
			if want := at.Before(lim); want != got[u.rec.Username] {
				Failf("%s: user %q was last active %v; listed as inactive since %v: %v", why, u.rec.Username, at, lim, got[u.rec.Username])
			}
		}
	}
}

func (p *p25) verifyWPS(why string, uid, nid int64, want map[int64]database.WebPushSubscription) {
	subs, err := p.db.ListWebPushSubscriptions(ctx0, uid, nid)
	p.ok("ListWebPushSubscriptions", err)
	if len(subs) != len(want) {
		Failf("%s: user %d network %d has %d web push subscriptions, want %d", why, uid, nid, len(subs), len(want))
	}
	for _, s := range subs {
		if s.CreatedAt.IsZero() || s.UpdatedAt.IsZero() || s.UpdatedAt.Before(s.CreatedAt) {
			Failf("%s: web push subscription has bad times: %+v", why, s)
		}
		w := want[s.ID]
		s.CreatedAt, s.UpdatedAt = w.CreatedAt, w.UpdatedAt
		sameRec(why+": web push subscription", s, w)
	}
	p.t.Count("records compared", len(want))
}

func (p *p25) verifyNet(why string, id int64, n *p25Net) {
	db := p.db
	chs, err := db.ListChannels(ctx0, id)
	p.ok("ListChannels", err)
	if len(chs) != len(n.chs) {
		Failf("%s: network %d has %d channels, want %d", why, id, len(chs), len(n.chs))
	}
	for _, c := range chs {
		sameRec(why+": channel", c, n.chs[c.ID])
	}
	drs, err := db.ListDeliveryReceipts(ctx0, id)
	p.ok("ListDeliveryReceipts", err)
	cnt := 0
	for _, d := range n.drs {
		cnt += len(d)
	}
	if len(drs) != cnt {
		Failf("%s: network %d has %d delivery receipts, want %d", why, id, len(drs), cnt)
	}
	for _, d := range drs {
		if w, ok := n.drs[d.Client][d.Target]; !ok || w != d.InternalMsgID {
			Failf("%s: delivery receipt %+v, stored %q", why, d, w)
		}
	}
	for i := 0; i < 12; i++ {
		tgt := fmt.Sprintf("%s#c%d", p.pfx, i)
		if _, ok := n.rrs[tgt]; !ok {
			r, err := db.GetReadReceipt(ctx0, id, tgt)
			p.ok("GetReadReceipt", err)
			if r != nil {
				Failf("%s: unexpected read receipt %+v", why, *r)
			}
		}
	}
	for tgt, w := range n.rrs {
		r, err := db.GetReadReceipt(ctx0, id, tgt)
		p.ok("GetReadReceipt", err)
		if r == nil {
			Failf("%s: read receipt %+v is missing", why, w)
		}
		r.Timestamp = normTime(r.Timestamp)
		sameRec(why+": read receipt", *r, w)
	}
	if n.user != 0 {
		p.verifyWPS(why, n.user, id, n.wps)
	}
	p.verifyMsgs(why, id, n)
	p.t.Count("records compared", len(chs)+len(drs)+len(n.rrs))
}

func (p *p25) verifyMsgs(why string, id int64, n *p25Net) {
	db := p.db
	latest := map[string]time.Time{}
	for tgt, ms := range n.msgs {
		ord := append([]p25Msg(nil), ms...)
		sort.SliceStable(ord, func(i, j int) bool { return ord[i].t.Before(ord[j].t) })
		if len(ord) == 0 {
			continue
		}
		latest[tgt] = ord[len(ord)-1].t
		o := &database.MessageOptions{Limit: 1 + p.r.Intn(40), Events: p.r.Intn(2) == 0, TakeLast: p.r.Intn(2) == 0}
		if p.r.Intn(2) == 0 {
			o.Limit = 100000
		}
		if p.r.Intn(3) == 0 {
			o.AfterTime = ord[p.r.Intn(len(ord))].t
		}
		if p.r.Intn(3) == 0 {
			o.BeforeTime = ord[p.r.Intn(len(ord))].t
		}
		if p.r.Intn(3) == 0 {
			o.AfterID = ord[p.r.Intn(len(ord))].id
		}
		if p.r.Intn(4) == 0 {
			o.Sender = ord[p.r.Intn(len(ord))].src
		}
		if p.r.Intn(4) == 0 {
			o.Text = fmt.Sprintf("word%d", p.r.Intn(8))
		}
		var want []p25Msg
		for _, m := range ord {
			if (!o.AfterTime.IsZero() && !m.t.After(o.AfterTime)) || (!o.BeforeTime.IsZero() && !m.t.Before(o.BeforeTime)) || m.id <= o.AfterID ||
				(o.Sender != "" && o.Sender != m.src) || (!o.Events && !m.txt) {
				continue
			}
			if o.Text != "" {
				hit := false
				for _, w := range strings.Fields(m.raw) {
					hit = hit || w == o.Text || w == ":"+o.Text
				}
				if !hit || !m.txt {
					continue
				}
			}
			want = append(want, m)
		}
		if len(want) > o.Limit {
			if o.TakeLast {
				want = want[len(want)-o.Limit:]
			} else {
				want = want[:o.Limit]
			}
		}
		got, err := db.ListMessages(ctx0, id, tgt, o)
		p.ok("ListMessages", err)
		if len(got) != len(want) {
			Failf("%s: network %d target %q options %+v: %d messages, want %d", why, id, tgt, *o, len(got), len(want))
		}
		// messages of the same instant may come in any order
		left := map[string]int{}
		for _, w := range want {
			left[w.raw]++
		}
		prev := time.Time{}
		for i, g := range got {
			raw := g.String()
			at, _ := time.Parse(isoMs, g.Tags["time"])
			if at.Before(prev) {
				Failf("%s: messages out of order at %q", why, raw)
			}
			prev = at
			if left[raw] == 0 && !(len(want) == o.Limit && at.Equal(want[i].t)) {
				Failf("%s: network %d target %q options %+v: unexpected message %q", why, id, tgt, *o, raw)
			}
			left[raw]--
		}
		p.t.Count("messages compared", len(want))
		last, err := db.GetMessageLastID(ctx0, id, tgt)
		p.ok("GetMessageLastID", err)
		found := false
		for _, m := range ord {
			found = found || m.id == last && m.t.Equal(latest[tgt])
		}
		if !found {
			Failf("%s: network %d target %q: last message is %d", why, id, tgt, last)
		}
	}
	for i := 0; i < 3; i++ {
		tgt := fmt.Sprintf("%s#c%d", p.pfx, p.r.Intn(12))
		if len(n.msgs[tgt]) > 0 {
			continue
		}
		got, err := db.ListMessages(ctx0, id, tgt, &database.MessageOptions{Limit: 100, Events: true})
		p.ok("ListMessages", err)
		last, err := db.GetMessageLastID(ctx0, id, tgt)
		p.ok("GetMessageLastID", err)
		if len(got) > 0 || last != 0 {
			Failf("%s: network %d has %d messages (last %d) of %q, want none", why, id, len(got), last, tgt)
		}
	}
	tg, err := db.ListMessageLastPerTarget(ctx0, id, &database.MessageOptions{Limit: 1000, Events: true})
	p.ok("ListMessageLastPerTarget", err)
	if len(tg) != len(latest) {
		Failf("%s: network %d has %d targets, want %d", why, id, len(tg), len(latest))
	}
	for _, x := range tg {
		if w, ok := latest[x.Name]; !ok || !normTime(x.LatestMessage).Equal(w) {
			Failf("%s: network %d: last message of %q at %v, want %v", why, id, x.Name, x.LatestMessage, w)
		}
	}
}

// verifyRows counts the rows of every table: nothing may stay behind.
func (p *p25) verifyRows(why string) {
	if p.raw == nil {
		var err error
		p.raw, err = sql.Open("sqlite3", p.path+"?_busy_timeout=5000")
		Must(err)
		p.raw.SetMaxOpenConns(1)
		raw := p.raw
		p.t.Cleanup(func() { raw.Close() })
	}
	want := map[string]int{"User": len(p.m.users), "Network": len(p.m.nets), "WebPushConfig": len(p.m.cfgs)}
	for _, u := range p.m.users {
		want["WebPushSubscription"] += len(u.wps)
	}
	for _, n := range p.m.nets {
		want["Channel"] += len(n.chs)
		want["ReadReceipt"] += len(n.rrs)
		want["WebPushSubscription"] += len(n.wps)
		for _, d := range n.drs {
			want["DeliveryReceipt"] += len(d)
		}
		for _, m := range n.msgs {
			want["Message"] += len(m)
			if len(m) > 0 {
				want["MessageTarget"]++
			}
		}
	}
	for _, tb := range []string{"User", "Network", "Channel", "DeliveryReceipt", "ReadReceipt", "WebPushConfig", "WebPushSubscription", "Message", "MessageTarget"} {
		var n int
		p.ok("counting rows of "+tb, p.raw.QueryRow(`SELECT COUNT(*) FROM "`+tb+`"`).Scan(&n))
		if n != want[tb] {
			Failf("%s: table %s has %d rows, want %d", why, tb, n, want[tb])
		}
	}
	rows, err := p.raw.Query("PRAGMA foreign_key_check")
	p.ok("foreign_key_check", err)
	bad := rows.Next()
	rows.Close()
	if bad {
		Failf("%s: the database has dangling references", why)
	}
	if _, err := p.raw.Exec("INSERT INTO MessageFTS(MessageFTS, rank) VALUES('integrity-check', 1)"); err != nil {
		p.ok("full-text index check", err)
	}
	st, err := p.db.Stats(ctx0)
	p.ok("Stats", err)
	if int(st.Users) != want["User"] || int(st.Networks) != want["Network"] || int(st.Channels) != want["Channel"] {
		Failf("%s: statistics are %+v, want %v", why, *st, want)
	}
}

func (p *p25) randUser() int64 {
	l := sortedIDs(p.m.users)
	if len(l) == 0 {
		return 0
	}
	return Pick(p.r, l)
}

func (p *p25) randNet() int64 {
	l := sortedIDs(p.m.nets)
	if len(l) == 0 {
		return 0
	}
	return Pick(p.r, l)
}

func (p *p25) netRec() database.Network {
	n := database.Network{Name: p.name("n"), Addr: p.name("a"), Nick: p.name("k"), Username: p.str(), Realname: p.str(), Pass: p.str(), CertFP: p.str(), AutoAway: p.r.Intn(2) == 0, Enabled: p.r.Intn(2) == 0}
	if p.r.Intn(4) == 0 {
		n.Name = ""
	}
	if p.r.Intn(3) == 0 {
		n.Nick = ""
	}
	for i := p.r.Intn(4); i > 0; i-- {
		n.ConnectCommands = append(n.ConnectCommands, "PRIVMSG x :"+strings.ReplaceAll(p.str(), "\n", ""))
	}
	n.SASL.Plain.Username, n.SASL.Plain.Password = p.str(), p.str()
	n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = p.blob(), p.blob()
	n.SASL.Mechanism = Pick(p.r, []string{"", "PLAIN", "EXTERNAL"})
	return n
}

func (p *p25) netConflict(user, id int64, rec database.Network) bool {
	for oid, o := range p.m.nets {
		if o.user != user || oid == id {
			continue
		}
		if rec.Name != "" && o.rec.Name == rec.Name || rec.Nick != "" && o.rec.Nick == rec.Nick && o.rec.Addr == rec.Addr {
			return true
		}
	}
	return false
}

func (p *p25) step() {
	r, db, m := p.r, p.db, p.m
	uid, nid := p.randUser(), p.randNet()
	n := m.nets[nid]
	op := r.Intn(30)
	if len(m.users) < 2 {
		op = 0
	} else if n == nil {
		op = 3
	}
	switch op {
	case 0, 1:
		rec := database.User{Username: p.name("u"), Password: p.str(), Nick: p.str(), Realname: p.str(), Admin: r.Intn(2) == 0, Enabled: r.Intn(2) == 0, DownstreamInteractedAt: p.time(), MaxNetworks: r.Intn(20) - 5}
		dup := false
		for _, u := range m.users {
			dup = dup || u.rec.Username == rec.Username
		}
		if p.result("StoreUser(new) "+rec.Username, db.StoreUser(ctx0, &rec), dup) {
			if rec.ID == 0 || m.users[rec.ID] != nil {
				Failf("StoreUser gave the identifier %d", rec.ID)
			}
			m.users[rec.ID] = &p25User{rec: normUser(rec), created: time.Now(), wps: map[int64]database.WebPushSubscription{}}
		}
	case 2:
		u := m.users[uid]
		rec := database.User{ID: uid, Username: u.rec.Username, Password: p.str(), Nick: p.str(), Realname: p.str(), Admin: r.Intn(2) == 0, Enabled: r.Intn(2) == 0, DownstreamInteractedAt: p.time(), MaxNetworks: r.Intn(20) - 5}
		p.result("StoreUser(update)", db.StoreUser(ctx0, &rec), false)
		u.rec = normUser(rec)
	case 3, 4, 5:
		rec := p.netRec()
		user := uid
		dangling := r.Intn(12) == 0
		if dangling {
			user = 99999999
		}
		bad := r.Intn(15) == 0
		if bad {
			rec.SASL.Mechanism = "NOPE"
		}
		if p.result(fmt.Sprintf("StoreNetwork(new) %+v", rec), db.StoreNetwork(ctx0, user, &rec), dangling || bad || p.netConflict(user, 0, rec)) {
			if rec.ID == 0 || m.nets[rec.ID] != nil {
				Failf("StoreNetwork gave the identifier %d", rec.ID)
			}
			m.nets[rec.ID] = newP25Net(user, normNet(rec))
		}
	case 6, 7:
		rec := p.netRec()
		rec.ID = nid
		if p.result(fmt.Sprintf("StoreNetwork(update) %+v", rec), db.StoreNetwork(ctx0, n.user, &rec), p.netConflict(n.user, nid, rec)) {
			n.rec = normNet(rec)
		}
	case 8, 9, 10, 11:
		c := database.Channel{Name: p.name("#c"), Key: p.str(), Detached: r.Intn(2) == 0, DetachedInternalMsgID: p.str(), RelayDetached: database.MessageFilter(r.Intn(4)), ReattachOn: database.MessageFilter(r.Intn(4)), DetachOn: database.MessageFilter(r.Intn(4)), DetachAfter: time.Duration(r.Intn(100000)) * time.Second}
		if l := sortedIDs(n.chs); len(l) > 0 && op > 9 {
			c.ID = Pick(r, l)
		}
		net := nid
		dangling := c.ID == 0 && r.Intn(12) == 0
		if dangling {
			net = 99999999
		}
		dup := false
		for id, o := range n.chs {
			dup = dup || id != c.ID && o.Name == c.Name
		}
		if p.result(fmt.Sprintf("StoreChannel(update=%v) %+v", c.ID != 0, c), db.StoreChannel(ctx0, net, &c), dup || dangling) {
			n.chs[c.ID] = c
		} else if dangling && !dup {
			break
		}
	case 12:
		if l := sortedIDs(n.chs); len(l) > 0 {
			id := Pick(r, l)
			p.result("DeleteChannel", db.DeleteChannel(ctx0, id), false)
			delete(n.chs, id)
		}
	case 13, 14, 15:
		client := Pick(r, []string{"", "a", "b", "'", "é"})
		var l []database.DeliveryReceipt
		want := map[string]string{}
		dup := false
		for i := r.Intn(6); i > 0; i-- {
			d := database.DeliveryReceipt{Target: p.name("#c"), InternalMsgID: p.str()}
			if _, ok := want[d.Target]; ok {
				if r.Intn(3) > 0 || client == "" { // NULL clients never collide
					continue
				}
				dup = true
			}
			want[d.Target] = d.InternalMsgID
			l = append(l, d)
		}
		if p.result("StoreClientDeliveryReceipts", db.StoreClientDeliveryReceipts(ctx0, nid, client, l), dup) {
			n.drs[client] = want
		}
	case 16, 17, 18:
		rr := database.ReadReceipt{Target: p.name("#c"), Timestamp: p.time()}
		if rr.Timestamp.IsZero() {
			rr.Timestamp = time.UnixMilli(1700000000123)
		}
		o, have := n.rrs[rr.Target]
		if have && r.Intn(4) > 0 {
			rr.ID = o.ID
		}
		if p.result(fmt.Sprintf("StoreReadReceipt(update=%v)", rr.ID != 0), db.StoreReadReceipt(ctx0, nid, &rr), have && rr.ID == 0) {
			rr.Timestamp = normTime(rr.Timestamp)
			n.rrs[rr.Target] = rr
		}
	case 19:
		if p.own {
			break
		}
		c := database.WebPushConfig{}
		c.VAPIDKeys.Public, c.VAPIDKeys.Private = p.name("pub"), p.str()
		dup := false
		for _, o := range m.cfgs {
			dup = dup || o.VAPIDKeys.Public == c.VAPIDKeys.Public
		}
		if p.result("StoreWebPushConfig", db.StoreWebPushConfig(ctx0, &c), dup) {
			m.cfgs[c.ID] = c
		}
	case 20, 21, 22:
		s := database.WebPushSubscription{Endpoint: p.name("https://push/")}
		s.Keys.Auth, s.Keys.P256DH, s.Keys.VAPID = p.str(), p.str(), p.str()
		set, user, net := n.wps, n.user, nid
		if r.Intn(3) == 0 {
			set, user, net = m.users[uid].wps, uid, 0
		}
		if l := sortedIDs(set); len(l) > 0 && r.Intn(3) == 0 {
			s.ID = Pick(r, l)
			s.Endpoint = set[s.ID].Endpoint
		}
		dup := false
		for _, o := range set {
			dup = dup || net != 0 && s.ID == 0 && o.Endpoint == s.Endpoint
		}
		if p.result(fmt.Sprintf("StoreWebPushSubscription(update=%v)", s.ID != 0), db.StoreWebPushSubscription(ctx0, user, net, &s), dup) {
			set[s.ID] = s
		}
	case 23:
		set := n.wps
		if r.Intn(3) == 0 {
			set = m.users[uid].wps
		}
		if l := sortedIDs(set); len(l) > 0 {
			id := Pick(r, l)
			p.result("DeleteWebPushSubscription", db.DeleteWebPushSubscription(ctx0, id), false)
			delete(set, id)
		}
	case 24, 25, 26:
		tgt := p.name("#c")
		var msgs []*irc.Message
		var l []p25Msg
		for i := 1 + r.Intn(5); i > 0; i-- {
			at := time.UnixMilli(1600000000000 + r.Int63n(100)*1000*int64(r.Intn(2)+1)).UTC()
			x := p25Msg{t: at, src: Pick(r, []string{"alice", "bob", "Alice"})}
			body := fmt.Sprintf("PRIVMSG x :word%d %d\x02b %s", r.Intn(8), r.Intn(1000000), RandText(r))
			switch r.Intn(5) {
			case 0:
				body = fmt.Sprintf("NOTICE x :word%d", r.Intn(8))
			case 1:
				body = fmt.Sprintf("TOPIC x :word%d %d", r.Intn(8), r.Intn(1000000))
			}
			x.txt = body[0] != 'T'
			x.raw = fmt.Sprintf("@time=%s :%s!u@h %s", iso(at), x.src, body)
			msg := irc.MustParseMessage(x.raw)
			x.raw = msg.String()
			msgs = append(msgs, msg)
			l = append(l, x)
		}
		dangling := r.Intn(15) == 0
		net := nid
		if dangling {
			net = 99999999
		}
		ids, err := db.StoreMessages(ctx0, net, tgt, msgs)
		if p.result("StoreMessages", err, dangling) {
			if len(ids) != len(l) {
				Failf("StoreMessages of %d messages gave %d identifiers", len(l), len(ids))
			}
			last := int64(0)
			for _, o := range n.msgs[tgt] {
				if o.id > last {
					last = o.id
				}
			}
			for i := range l {
				l[i].id = ids[i]
				if ids[i] <= last {
					Failf("StoreMessages gave the identifier %d after %d", ids[i], last)
				}
				last = ids[i]
			}
			n.msgs[tgt] = append(n.msgs[tgt], l...)
		}
	case 27:
		if r.Intn(2) == 0 {
			p.result("DeleteNetwork", db.DeleteNetwork(ctx0, nid), false)
			delete(m.nets, nid)
			m.dead = append(m.dead, nid)
			p.verify("after deleting a network")
		}
	case 28:
		if r.Intn(3) == 0 {
			p.result("DeleteUser", db.DeleteUser(ctx0, uid), false)
			delete(m.users, uid)
			m.dead = append(m.dead, uid)
			for id, o := range m.nets {
				if o.user == uid {
					delete(m.nets, id)
					m.dead = append(m.dead, id)
				}
			}
			p.verify("after deleting a user")
		}
	default:
		p.verify("after a history")
	}
}

func p25Run(t *T, path string, m *p25Model, steps int) {
	p := &p25{t: t, r: t.Rng, path: path, m: m}
	var err error
	p.db, err = database.Open("sqlite3", path)
	if err != nil {
		Failf("the database cannot be opened: %v", err)
	}
	defer func() { p.db.Close() }()
	p.verify("after opening")
	for i := 0; i < steps; i++ {
		if t.Rng.Intn(40) == 0 {
			Must(p.db.Close())
			p.db, err = database.Open("sqlite3", path)
			p.ok("re-opening", err)
			p.verify("after re-opening")
			t.State("re-opened")
		}
		p.step()
	}
	p.verify("at the end")
}

func p25Crud(t *T) {
	p25Run(t, filepath.Join(t.Dir(), "crud.db"), newP25Model(), 150+t.Rng.Intn(250))
}

func p25Parallel(t *T) {
	path := filepath.Join(t.Dir(), "par.db")
	db, err := database.Open("sqlite3", path)
	Must(err)
	defer db.Close()
	var wg sync.WaitGroup
	errs := make([]interface{}, 4)
	for i := range errs {
		i := i
		p := &p25{t: t, r: rand.New(rand.NewSource(t.Rng.Int63())), path: path, db: db, m: newP25Model(), pfx: fmt.Sprintf("g%d-", i), own: true}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { errs[i] = recover() }()
			for j := 0; j < 60; j++ {
				p.step()
			}
			p.verify("at the end of a parallel history")
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			panic(e)
		}
	}
	t.State("parallel histories")
}

// p25Upgrade fills a database of a historical version with plain SQL.
func p25Upgrade(t *T) {
	r := t.Rng
	var idx int
	fmt.Sscanf(t.Case.Name, "upgrade-%d", &idx)
	version := 1 + idx%(len(p25Migrations))
	t.State("upgrade from version %d of %d", version, len(p25Migrations))
	path := filepath.Join(t.Dir(), "old.db")
	raw, err := sql.Open("sqlite3", path)
	Must(err)
	raw.SetMaxOpenConns(1)
	exec := func(q string, a ...interface{}) {
		if _, err := raw.Exec(q, a...); err != nil {
			panic(fmt.Sprintf("harness error: building version %d: %q: %v", version, q, err))
		}
	}
	exec(p25V1Schema)
	for i := 1; i < version; i++ {
		exec(p25Migrations[i])
	}
	exec(fmt.Sprintf("PRAGMA user_version = %d", version))
	cols := func(tb string) map[string]bool {
		m := map[string]bool{}
		rows, err := raw.Query("SELECT name FROM pragma_table_info('" + tb + "')")
		Must(err)
		for rows.Next() {
			var n string
			Must(rows.Scan(&n))
			m[n] = true
		}
		rows.Close()
		return m
	}
	insert := func(tb string, vals map[string]interface{}) {
		have := cols(tb)
		var c, q []string
		var a []interface{}
		for k, v := range vals {
			if have[k] {
				c, q, a = append(c, `"`+k+`"`), append(q, "?"), append(a, v)
			}
		}
		exec("INSERT INTO "+tb+"("+strings.Join(c, ",")+") VALUES ("+strings.Join(q, ",")+")", a...)
	}
	null := func(s string) interface{} {
		if s == "" {
			return nil
		}
		return s
	}
	tm := func(x time.Time) interface{} {
		if x.IsZero() {
			return nil
		}
		return x.UTC().Format(isoMs)
	}
	m := newP25Model()
	p := &p25{t: t, r: r, m: m}
	uc, nc, cc := cols("User"), cols("Network"), cols("Channel")
	dr, rr, wp, wc, mt := cols("DeliveryReceipt"), cols("ReadReceipt"), cols("WebPushSubscription"), cols("WebPushConfig"), cols("MessageTarget")
	nid, cid := int64(0), int64(0)
	nUsers := r.Intn(5)
	for i := 1; i <= nUsers; i++ {
		id := int64(i)
		if uc["id"] {
			id = int64(i*3 - r.Intn(3)) // gaps, as deletions leave them
		}
		u := database.User{ID: id, Username: fmt.Sprintf("user%d%s", i, Pick(r, []string{"", "'", "É", " x"})), Password: p.str(), Enabled: true, MaxNetworks: -1}
		row := map[string]interface{}{"id": id, "username": u.Username, "password": null(u.Password)}
		created := time.Now()
		if uc["admin"] {
			u.Admin = r.Intn(2) == 0
			row["admin"] = u.Admin
		}
		if uc["realname"] {
			u.Realname = p.str()
			row["realname"] = null(u.Realname)
		}
		if uc["nick"] {
			u.Nick = p.str()
			row["nick"] = null(u.Nick)
		}
		if uc["created_at"] {
			created = time.UnixMilli(1300000000000 + r.Int63n(300000000000)).UTC()
			row["created_at"] = tm(created)
		}
		if uc["enabled"] {
			u.Enabled = r.Intn(2) == 0
			row["enabled"] = u.Enabled
		}
		if uc["downstream_interacted_at"] {
			u.DownstreamInteractedAt = p.time()
			row["downstream_interacted_at"] = tm(u.DownstreamInteractedAt)
		}
		if uc["max_networks"] {
			u.MaxNetworks = r.Intn(9) - 1
			row["max_networks"] = u.MaxNetworks
		}
		insert("User", row)
		mu := &p25User{rec: u, created: created, wps: map[int64]database.WebPushSubscription{}}
		m.users[id] = mu
		for k := r.Intn(4); k > 0; k-- {
			nid += 1 + int64(r.Intn(3))
			n := p.netRec()
			n.ID, n.AutoAway, n.Enabled = nid, true, true
			if n.Nick == "" && version < 14 {
				n.Nick = "nick"
			}
			if p.netConflict(id, 0, n) {
				continue
			}
			if !nc["certfp"] {
				n.CertFP = ""
			}
			if !nc["connect_commands"] {
				n.ConnectCommands = nil
			}
			if !nc["sasl_external_key"] {
				n.SASL.External.CertBlob, n.SASL.External.PrivKeyBlob = nil, nil
				if n.SASL.Mechanism == "EXTERNAL" {
					n.SASL.Mechanism = ""
				}
			}
			if nc["auto_away"] {
				n.AutoAway = r.Intn(2) == 0
			}
			if nc["enabled"] {
				n.Enabled = r.Intn(2) == 0
			}
			n = normNet(n)
			row := map[string]interface{}{"id": nid, "name": null(n.Name), "user": id, "addr": n.Addr, "nick": null(n.Nick), "username": null(n.Username), "realname": null(n.Realname), "certfp": null(n.CertFP), "pass": null(n.Pass),
				"connect_commands": null(strings.Join(n.ConnectCommands, "\r\n")), "sasl_mechanism": null(n.SASL.Mechanism), "sasl_plain_username": null(n.SASL.Plain.Username), "sasl_plain_password": null(n.SASL.Plain.Password),
				"sasl_external_cert": n.SASL.External.CertBlob, "sasl_external_key": n.SASL.External.PrivKeyBlob, "auto_away": n.AutoAway, "enabled": n.Enabled}
			if !uc["id"] {
				row["user"] = u.Username
			}
			if version == 7 {
				row["user"] = u.Username // the reference was changed by the next version
			}
			insert("Network", row)
			mn := newP25Net(id, n)
			m.nets[nid] = mn
			for k := r.Intn(4); k > 0; k-- {
				cid += 1 + int64(r.Intn(2))
				c := database.Channel{ID: cid, Name: fmt.Sprintf("#c%d", cid), Key: p.str()}
				row := map[string]interface{}{"id": cid, "network": nid, "name": c.Name, "key": null(c.Key)}
				if cc["detached"] {
					c.Detached = r.Intn(2) == 0
					row["detached"] = c.Detached
				}
				if cc["relay_detached"] {
					c.RelayDetached, c.ReattachOn, c.DetachOn, c.DetachAfter = database.MessageFilter(r.Intn(4)), database.MessageFilter(r.Intn(4)), database.MessageFilter(r.Intn(4)), time.Duration(r.Intn(5000))*time.Second
					row["relay_detached"], row["reattach_on"], row["detach_on"], row["detach_after"] = int(c.RelayDetached), int(c.ReattachOn), int(c.DetachOn), int(c.DetachAfter/time.Second)
				}
				if cc["detached_internal_msgid"] {
					c.DetachedInternalMsgID = p.str()
					row["detached_internal_msgid"] = null(c.DetachedInternalMsgID)
				}
				insert("Channel", row)
				mn.chs[cid] = c
			}
			if dr["id"] {
				for _, cl := range []string{"", "a", "b"} {
					for k := r.Intn(3); k > 0; k-- {
						tgt, v := fmt.Sprintf("#c%d", k), p.str()
						insert("DeliveryReceipt", map[string]interface{}{"network": nid, "target": tgt, "client": null(cl), "internal_msgid": v})
						if mn.drs[cl] == nil {
							mn.drs[cl] = map[string]string{}
						}
						mn.drs[cl][tgt] = v
					}
				}
			}
			if rr["id"] {
				for k := r.Intn(3); k > 0; k-- {
					x := database.ReadReceipt{ID: nid*10 + int64(k), Target: fmt.Sprintf("#c%d", k), Timestamp: time.UnixMilli(1650000000000 + r.Int63n(1000000)).UTC()}
					insert("ReadReceipt", map[string]interface{}{"id": x.ID, "network": nid, "target": x.Target, "timestamp": tm(x.Timestamp)})
					mn.rrs[x.Target] = x
				}
			}
			if wp["id"] {
				for k := r.Intn(3); k > 0; k-- {
					x := database.WebPushSubscription{ID: nid*10 + int64(k), Endpoint: fmt.Sprintf("https://push/%d", k)}
					x.Keys.Auth, x.Keys.P256DH, x.Keys.VAPID = p.str(), p.str(), p.str()
					insert("WebPushSubscription", map[string]interface{}{"id": x.ID, "network": nid, "user": id, "endpoint": x.Endpoint, "created_at": tm(time.UnixMilli(1650000000000)), "updated_at": tm(time.UnixMilli(1650000000001)), "key_auth": x.Keys.Auth, "key_p256dh": x.Keys.P256DH, "key_vapid": x.Keys.VAPID})
					mn.wps[x.ID] = x
				}
			}
			if mt["id"] && r.Intn(2) == 0 {
				insert("MessageTarget", map[string]interface{}{"id": nid, "network": nid, "target": "#old"})
				for k := 1; k < 4; k++ {
					at := time.UnixMilli(1600000000000 + int64(k)*1000).UTC()
					x := p25Msg{id: nid*10 + int64(k), t: at, src: "alice", txt: true}
					x.raw = irc.MustParseMessage(fmt.Sprintf("@time=%s :alice!u@h PRIVMSG x :word%d old", iso(at), k)).String()
					insert("Message", map[string]interface{}{"id": x.id, "target": nid, "raw": x.raw, "time": tm(at), "sender": "alice", "text": fmt.Sprintf("word%d old", k)})
					mn.msgs["#old"] = append(mn.msgs["#old"], x)
				}
			}
		}
	}
	if wc["id"] {
		x := database.WebPushConfig{ID: 7}
		x.VAPIDKeys.Public, x.VAPIDKeys.Private = "pub", "priv"
		insert("WebPushConfig", map[string]interface{}{"id": 7, "created_at": tm(time.UnixMilli(1650000000000)), "vapid_key_public": "pub", "vapid_key_private": "priv"})
		m.cfgs[7] = x
	}
	Must(raw.Close())
	t.Count("databases upgraded", 1)
	p25Run(t, path, m, 60+r.Intn(100))
}
