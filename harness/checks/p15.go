package checks

import (
	"context"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	. "verif/harness/h"
)

func init() {
	Register(&Check{
		Prop: "P15", Level: "exploration",
		Rule:   "one execution = one bouncer with administrators and ordinary users, every account carrying unique marker values, and a random sequence of privileged service commands and broadcasts in full, abbreviated, quoted, escaped and nested spellings, from ordinary users (registered directly or through an administrator acting under their identity), users promoted or demoted meanwhile, administrators and the administration socket; a refused caller must get only errors, no marker of another account, change nothing in the database and reach nobody; an entitled caller's command must have its effect. A situation is (command, caller kind, channel, spelling, outcome)",
		Assume: nil,
		Cases: func(e *Env) []Case {
			return Repeat(e, "authz", e.N(250, 5000), p15Authz)
		},
	})
}

// spell rewrites a service command line into an equivalent one.
func spellCmd(r *rand.Rand, words []string) (string, string) {
	kind := Pick(r, []string{"plain", "abbrev", "quoted", "escaped", "spaces", "mixed"})
	var out []string
	for i, w := range words {
		mode := kind
		if kind == "mixed" {
			mode = Pick(r, []string{"plain", "abbrev", "quoted", "escaped"})
		}
		switch {
		case mode == "abbrev" && i < 2:
			switch w {
			case "user":
				w = Pick(r, []string{"u", "us", "use", "user"})
			case "server":
				w = Pick(r, []string{"se", "serv", "server"})
			case "status":
				w = Pick(r, []string{"s", "stat", "statu"})
			case "create":
				w = Pick(r, []string{"c", "cr", "creat"})
			case "update":
				w = Pick(r, []string{"u", "up", "updat"})
			case "delete":
				if words[0] == "server" {
					break
				}
				w = Pick(r, []string{"d", "del"})
			case "run":
				w = Pick(r, []string{"r", "ru"})
			case "notice":
				w = Pick(r, []string{"n", "not"})
			case "debug":
				w = Pick(r, []string{"d", "deb"})
			}
		case mode == "quoted":
			q := Pick(r, []string{`"`, `'`})
			if !strings.ContainsAny(w, `"'\`) {
				if len(w) > 1 && !strings.Contains(w, " ") && r.Intn(2) == 0 {
					k := 1 + r.Intn(len(w)-1)
					w = w[:k] + q + w[k:] + q
				} else {
					w = q + w + q
				}
				out = append(out, w)
				continue
			}
		case mode == "escaped" && len(w) > 0:
			k := r.Intn(len(w))
			if w[k] < 0x80 && w[k] != ' ' {
				out = append(out, quoteRest(w[:k])+`\`+w[k:k+1]+quoteRest(w[k+1:]))
				continue
			}
		}
		if strings.ContainsAny(w, " \\'\"") || w == "" {
			w = strconv.Quote(w)
		}
		out = append(out, w)
	}
	sep := " "
	pre := ""
	if kind == "spaces" {
		sep = Pick(r, []string{"  ", "\t", " \t "})
		pre = Pick(r, []string{"", " ", "  "})
	}
	return pre + strings.Join(out, sep), kind
}

func quoteRest(s string) string { return strings.NewReplacer(" ", `\ `, `"`, `\"`).Replace(s) }

func p15Authz(t *T) {
	r := t.Rng
	w := NewWorld(t, "memory")
	up := NewUpstream(t, "net").Start()
	type acct struct {
		name   string
		admin  bool
		marker string
	}
	accts := []*acct{{"root", true, "mk-r00t"}, {"boss", true, "mk-b0ss"}, {"alice", false, "mk-al1ce"}, {"bob", false, "mk-b0b"}}
	for _, a := range accts {
		u := w.AddUser(a.name, a.admin)
		u.Realname = a.marker
		u.MaxNetworks = 5 + r.Intn(3)
		Must(w.DB.StoreUser(context.Background(), u))
		n := w.AddNetwork(u, a.marker+"-net", up)
		n.Enabled = false
		n.Pass = a.marker + "-pass"
		Must(w.DB.StoreNetwork(context.Background(), u.ID, n))
		w.AddChannel(n, "#"+a.marker)
	}
	w.Start()
	cl := map[string]*Client{}
	for _, a := range accts {
		cl[a.name] = w.Connect(ClientOpts{User: a.name})
	}
	byName := func(n string) *acct {
		for _, a := range accts {
			if a.name == n {
				return a
			}
		}
		return nil
	}
	// connections by which commands may come
	type caller struct {
		user string
		kind string
		c    *Client
	}
	var callers []*caller
	for _, a := range accts {
		callers = append(callers, &caller{a.name, "direct", cl[a.name]})
	}
	for _, n := range []string{"alice", "bob"} {
		c := w.Connect(ClientOpts{User: n, Network: byName(n).marker + "-net"})
		callers = append(callers, &caller{n, "bound", c})
	}
	{
		// an administrator acting under an ordinary user's identity
		c := w.Dial("imp")
		c.Send("CAP LS 302", "CAP REQ :sasl", "AUTHENTICATE PLAIN")
		c.Wait(0, "AUTHENTICATE", func(l Line) bool { return l.Command == "AUTHENTICATE" })
		c.Send("AUTHENTICATE " + B64("alice\x00root\x00pw-root"))
		c.Wait(0, "903", func(l Line) bool { return l.Command == "903" })
		c.Send("NICK x", "USER alice 0 * :x", "CAP END")
		c.Wait(0, "001", func(l Line) bool { return l.Command == "001" })
		c.Sync()
		callers = append(callers, &caller{"alice", "impersonated", c})
	}
	socket := &caller{"", "socket", nil}
	created := 0
	steps := 30
	for i := 0; i < steps; i++ {
		var by *caller
		switch r.Intn(8) {
		case 0:
			by = socket
		default:
			by = Pick(r, callers)
		}
		isAdmin := by == socket || byName(by.user).admin
		var others []string
		for _, a := range accts {
			if a.name != by.user {
				others = append(others, a.name)
			}
		}
		target := Pick(r, others)
		self := by.user
		newName := fmt.Sprintf("new%d", created)
		num := fmt.Sprint(10 + r.Intn(80))
		type priv struct {
			id    string
			words []string
			// effect returns "" when the command had its effect
			effect func(before, after map[string]string) string
			// always means that even administrators are refused
			never bool
		}
		has := func(name, sub string) func(b, a map[string]string) string {
			return func(b, a map[string]string) string {
				if !strings.Contains(a[name], sub) {
					return fmt.Sprintf("account %s has no %s:\n%s", name, sub, a[name])
				}
				return ""
			}
		}
		none := func(b, a map[string]string) string { return "" }
		opts := []priv{
			{"status", []string{"user", "status"}, none, false},
			{"status-one", []string{"user", "status", target}, none, false},
			{"create", []string{"user", "create", "-username", newName, "-password", "x"}, has(newName, "enabled=true"), false},
			{"create-admin", []string{"user", "create", "-username", newName, "-password", "x", "-admin", "-max-networks", num}, has(newName, "admin=true"), false},
			{"update-max", []string{"user", "update", target, "-max-networks", num}, has(target, "max="+num), false},
			{"update-pw", []string{"user", "update", newName + "x", "-password", "zzz"}, nil, true},
			{"update-admin", []string{"user", "update", "boss", "-admin", "false"}, has("boss", "admin=false"), false},
			{"update-admin-on", []string{"user", "update", "boss", "-admin", "true"}, has("boss", "admin=true"), false},
			{"update-nick-other", []string{"user", "update", target, "-nick", "evil"}, nil, true},
			{"update-real-other", []string{"user", "update", target, "-realname", "evil"}, nil, true},
			{"delete-unconfirmed", []string{"user", "delete", target}, none, false},
			{"delete-badtoken", []string{"user", "delete", target, "000000"}, nil, true},
			{"notice", []string{"server", "notice", "hear ye " + num}, none, false},
			{"debug", []string{"server", "debug", Pick(r, []string{"true", "false"})}, none, false},
			{"server-status", []string{"server", "status"}, none, false},
			{"run", []string{"user", "run", target, "network", "status"}, none, false},
			{"run-create", []string{"user", "run", target, "channel", "update", "#" + byName(target).marker + "/" + byName(target).marker + "-net", "-relay-detached", Pick(r, []string{"none", "message", "highlight"})}, none, false},
			{"run-update", []string{"user", "run", target, "user", "update", "-realname", byName(target).marker}, none, false},
			{"broadcast", nil, none, false},
		}
		if self != "" {
			opts = append(opts,
				priv{"self-admin", []string{"user", "update", "-admin", "true"}, nil, true},
				priv{"self-admin-named", []string{"user", "update", self, "-nick", "evil", "-admin", "true"}, nil, true},
				priv{"self-enabled", []string{"user", "update", "-enabled", Pick(r, []string{"false", "true"}), "-realname", "evil"}, nil, true},
				priv{"self-max", []string{"user", "update", "-max-networks", num}, has(self, "max="+num), false},
				priv{"self-max-named", []string{"user", "update", self, "-max-networks", num}, has(self, "max="+num), false},
				priv{"run-self", []string{"user", "run", self, "user", "status"}, none, false},
				priv{"run-self-max", []string{"user", "run", self, "user", "update", "-max-networks", num}, has(self, "max="+num), false},
			)
		}
		// deleting another account (a fresh one, so that the others stay)
		if created > 0 {
			victim := fmt.Sprintf("new%d", created-1)
			opts = append(opts, priv{"delete", []string{"user", "delete", victim, delToken(victim)}, func(b, a map[string]string) string {
				if _, ok := a[victim]; ok {
					return "the account still exists"
				}
				return ""
			}, false})
		}
		p := Pick(r, opts)
		if p.id == "update-admin" && by.user == "boss" || p.id == "update-admin-on" && by.user == "boss" {
			continue // own administrator flag: covered by self-admin
		}
		if p.id == "delete" {
			if _, ok := snapshotUsers(w.DB)[p.words[2]]; !ok && isAdmin {
				continue
			}
		}
		before := snapshotUsers(w.DB)
		marks := map[*Client]int{}
		for _, c := range callers {
			c.c.Sync()
			marks[c.c] = c.c.Mark()
		}
		var line, spelling string
		channel := "-"
		var replies []string
		var refused bool
		copies := 1
		if p.id == "broadcast" {
			if by == socket {
				continue
			}
			tgt := Pick(r, []string{"$soju.test", "$soju.test,$soju.test"})
			if by.kind == "direct" && r.Intn(2) == 0 {
				tgt = "$*"
			}
			channel = Pick(r, []string{"PRIVMSG", "NOTICE"})
			line = channel + " " + tgt + " :hear ye " + num
			by.c.Send(line)
			// the caller's own copy is queued behind what it already sent
			by.c.Sync()
			end := by.c.Sync()
			from := marks[by.c]
			refused = true
			for k, l := range by.c.Since(from) {
				if from+k < end && strings.Contains(l.Raw, "hear ye") {
					refused = false
				}
			}
			copies = strings.Count(tgt, ",") + 1
		} else {
			line, spelling = spellCmd(r, p.words)
			if by == socket {
				out, ok := w.Admin(line)
				replies, refused = out, !ok
			} else {
				svc := Pick(r, []string{"BouncerServ", "bouncerserv", "BOUNCERSERV"})
				channel = "PRIVMSG"
				from := marks[by.c]
				by.c.Send(channel + " " + svc + " :" + line)
				end := by.c.Sync()
				refused = false
				for k, l := range by.c.Since(from) {
					if from+k >= end {
						break
					}
					if l.Prefix != nil && l.Prefix.Name == "BouncerServ" && l.Command == "PRIVMSG" {
						replies = append(replies, l.P(1))
						if strings.HasPrefix(l.P(1), "error") {
							refused = true
						}
					}
				}
				if len(replies) == 0 && p.id != "debug" {
					by.c.Dump()
					Failf("%q got no reply", line)
				}
			}
		}
		for _, c := range callers {
			if c.c.TrySync() < 0 {
				Failf("%q by %s (%s) closed a connection of %s", line, by.user, by.kind, c.user)
			}
		}
		after := snapshotUsers(w.DB)
		fail := func(format string, x ...interface{}) {
			Failf("%q by %q (%s, administrator=%v) answered %q: %s", line, by.user, by.kind, isAdmin, replies, fmt.Sprintf(format, x...))
		}
		if !isAdmin || p.never {
			if !refused {
				fail("the command was not refused")
			}
			if d := snapDiff(before, after); d != "" {
				fail("the refused command changed something:\n%s", d)
			}
			for _, c := range callers {
				for _, l := range c.c.Since(marks[c.c]) {
					if strings.Contains(l.Raw, "hear ye") && l.Prefix != nil && l.Prefix.Name == "BouncerServ" && !strings.Contains(l.Raw, "error") {
						fail("%s received %q", c.user, l.Raw)
					}
					if c == by {
						for _, a := range accts {
							if a.name != by.user && strings.Contains(l.Raw, a.marker) && !strings.Contains(line, a.marker) {
								fail("the reply contains data of %s: %q", a.name, l.Raw)
							}
						}
					}
				}
			}
			t.Count("refusals_checked", 1)
		} else {
			if refused {
				fail("the command was refused")
			}
			if d := p.effect(before, after); d != "" {
				fail("no effect: %s", d)
			}
			switch p.id {
			case "status":
				for name := range after {
					found := false
					for _, l := range replies {
						if strings.HasPrefix(l, name+":") || strings.HasPrefix(l, name+" (") {
							found = true
						}
					}
					if !found {
						fail("account %s is not listed", name)
					}
				}
			case "notice", "broadcast":
				for _, c := range callers {
					n := 0
					for _, l := range c.c.Since(marks[c.c]) {
						if (l.Command == "NOTICE" || l.Command == "PRIVMSG") && l.P(1) == "hear ye "+num && l.Prefix != nil && l.Prefix.Name == "BouncerServ" {
							n++
						}
					}
					if n != copies {
						c.c.Dump()
						fail("%s (%s) received the broadcast %d times", c.user, c.kind, n)
					}
				}
			case "create", "create-admin":
				created++
			case "update-admin":
				byName("boss").admin = false
			case "update-admin-on":
				byName("boss").admin = true
			}
			t.Count("effects_checked", 1)
		}
		t.State("%s|%v|%s|%s|%s", p.id, isAdmin, by.kind, channel, spelling)
		t.Count("commands", 1)
	}
	w.CheckNoPanic()
}
