package checks

import (
	"fmt"
	"math/rand"
	"strings"

	. "verif/harness/h"
)

// fuzzer generates hostile protocol lines: grammar-based (every command the
// bouncer knows, with plausible arguments), mutated (arguments missing, empty,
// repeated, replaced) and raw garbage.
type fuzzer struct {
	r     *rand.Rand
	nicks []string
	chans []string
	words []string // further interesting words (account, network names)
	me    func() string
	seen  map[string]bool
	seq   int
}

func newFuzzer(r *rand.Rand, nicks, chans, words []string) *fuzzer {
	return &fuzzer{r: r, nicks: nicks, chans: chans, words: words, seen: map[string]bool{}, me: func() string { return nicks[0] }}
}

var fuzzOdd = []string{"", "", "*", ",", ",,", ":", "::", "-", "+", "=", "#", "&", "$*", "@", "!", "!@", "@#", "/", "..", "../../x", "\\", "\x01ACTION x\x01", "\x01", "\xff\xfe", "é", "\xe2\x28", "0", "-1", "1", "99999999999999999999", "00:00", "timestamp=", "timestamp=x", "msgid=1", "true", "a,b,,c", "#a,#b", "nick!user@host", "!user@host", "*!*@*", "BouncerServ", "bouncerserv", "NickServ", "soju.test", "\u0130\u0131", "[x]", "{x}", "%s%n"}

func (f *fuzzer) case_(s string) string {
	switch f.r.Intn(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

func (f *fuzzer) word() string {
	switch f.r.Intn(9) {
	case 0, 1, 2:
		return Pick(f.r, fuzzOdd)
	case 3, 4:
		return f.nick()
	case 5:
		return f.chan_()
	case 6:
		if len(f.words) > 0 {
			return Pick(f.r, f.words)
		}
		return "w"
	case 7:
		n := f.r.Intn(40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(f.r.Intn(256))
			if b[i] == '\r' || b[i] == '\n' || b[i] == 0 {
				b[i] = 'x'
			}
		}
		return string(b)
	default:
		return strings.Repeat(Pick(f.r, []string{"a", "#", ",", "é", "+", "ab ", "b,"}), Pick(f.r, []int{2, 30, 64, 100, 400, 511, 1200, 9000}))
	}
}

func (f *fuzzer) nick() string {
	if f.r.Intn(4) == 0 {
		return f.case_(f.me())
	}
	return f.case_(Pick(f.r, f.nicks))
}

func (f *fuzzer) chan_() string { return f.case_(Pick(f.r, f.chans)) }

func (f *fuzzer) text() string {
	switch f.r.Intn(5) {
	case 0:
		return ""
	case 1:
		return f.word()
	case 2:
		return "hi " + f.me() + ": x"
	case 3:
		return "\x01" + Pick(f.r, []string{"ACTION", "VERSION", "DCC SEND", ""}) + " x\x01"
	}
	return fmt.Sprintf("text %d", f.r.Intn(1000))
}

func (f *fuzzer) list(g func() string) string {
	n := 1 + f.r.Intn(4)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, g())
	}
	return strings.Join(l, ",")
}

func (f *fuzzer) letters(set string) string {
	n := f.r.Intn(7)
	b := make([]byte, n)
	for i := range b {
		b[i] = set[f.r.Intn(len(set))]
	}
	return string(b)
}

// fill resolves a {placeholder}.
func (f *fuzzer) fill(name string) string {
	f.seq++
	switch name {
	case "nick":
		return f.nick()
	case "me":
		return f.me()
	case "chan":
		return f.chan_()
	case "chans":
		return f.list(f.chan_)
	case "nicks":
		return f.list(f.nick)
	case "target":
		switch f.r.Intn(5) {
		case 0:
			return f.nick()
		case 1:
			return Pick(f.r, []string{"@", "+", "@+", "~"}) + f.chan_()
		case 2:
			return f.list(func() string {
				if f.r.Intn(2) == 0 {
					return f.nick()
				}
				return f.chan_()
			})
		case 3:
			return Pick(f.r, []string{"BouncerServ", "NickServ", "$*", "*", "bouncerserv", "nickserv"})
		}
		return f.chan_()
	case "text":
		return f.text()
	case "num":
		return Pick(f.r, []string{"0", "1", "2", "3", "10", "100", "1000", "-1", "4294967296", "9223372036854775808", "abc", "1e9", "+5"})
	case "modes":
		return f.letters("+-+-ovhqabeIklimntsBzZ")
	case "mask":
		return Pick(f.r, []string{"*!*@*", "*", f.nick(), f.chan_(), "nick!user@host", ""})
	case "bound":
		return Pick(f.r, []string{"*", "timestamp=2024-01-01T00:00:00.000Z", "timestamp=2099-01-01T00:00:00.000Z", "timestamp=0000-01-01T00:00:00.000Z", "timestamp=", "timestamp=x", "msgid=1", "msgid=", "x", "timestamp=2024-01-01T00:00:00Z"})
	case "ts":
		return Pick(f.r, []string{"timestamp=2024-01-01T00:00:00.000Z", "timestamp=2099-01-01T00:00:00.000Z", "timestamp=-", "*", "2024-01-01T00:00:00.000Z"})
	case "cap":
		return Pick(f.r, []string{"sasl", "-sasl", "message-tags", "-message-tags", "server-time", "echo-message", "labeled-response", "batch", "soju.im/bouncer-networks", "-soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "away-notify", "account-notify", "draft/chathistory", "draft/event-playback", "draft/read-marker", "soju.im/read", "soju.im/webpush", "soju.im/search", "extended-monitor", "setname", "chghost", "invite-notify", "cap-notify", "-cap-notify", "draft/account-registration=before-connect", "sasl=PLAIN,EXTERNAL", "sasl=", "draft/pre-away", "draft/extended-monitor", "extended-join", "multi-prefix", "unknown", "=", "-", "SASL", "soju.im/no-implicit-names", "draft/no-implicit-names", "soju.im/account-required", "account-tag", "standard-replies"})
	case "caps":
		n := f.r.Intn(6)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, f.fill("cap"))
		}
		return strings.Join(l, " ")
	case "b64":
		switch f.r.Intn(8) {
		case 0:
			return B64(strings.Repeat("A", f.r.Intn(600)))
		case 1:
			return "+"
		case 2:
			return "*"
		case 3:
			return "!!!"
		case 4:
			return B64("\x00" + Pick(f.r, append([]string{"", "user"}, f.words...)) + "\x00pw")
		case 5:
			return B64(Pick(f.r, []string{"\x00\x00", "\x00", "a\x00b", "a\x00b\x00c", "n,,\x01auth=Bearer x\x01\x01", "n,a=x,\x01\x01"}))
		case 6:
			return B64("\x00user\x00" + strings.Repeat("p", 292)) // exactly 400 bytes encoded
		}
		return strings.Repeat("QUFB", 100)
	case "mech":
		return Pick(f.r, []string{"PLAIN", "plain", "EXTERNAL", "ANONYMOUS", "OAUTHBEARER", "SCRAM-SHA-256", "*", "+", ""})
	case "netid":
		return Pick(f.r, []string{"1", "2", "3", "4", "0", "-1", "x", "99", "9223372036854775807", "*"})
	case "attrs":
		n := f.r.Intn(5)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, Pick(f.r, []string{"name=", "host=127.0.0.1", "port=1", "port=x", "tls=0", "tls=1", "nickname=", "username=", "realname=", "pass=", "host=", "unknown=1", "name", "=", "state=connected", ""})+Pick(f.r, []string{"", "", "x", "\\s", "\\", "\\:"}))
		}
		return strings.Join(l, ";")
	case "search":
		n := f.r.Intn(4)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, Pick(f.r, []string{"text=", "in=", "from=", "before=", "after=", "limit=", "x=", "="})+Pick(f.r, []string{"", "x", f.chan_(), f.nick(), "2024-01-01T00:00:00.000Z", "10", "-1", "%"}))
		}
		return strings.Join(l, ";")
	case "addr":
		return Pick(f.r, []string{"irc+insecure://127.0.0.1:1", "irc+insecure://127.0.0.1", "ircs://127.0.0.1:1", "127.0.0.1:1", "irc+unix:///nonexistent", "unix:///x", "http://x", "ircs://", "irc+insecure://[::1", "://", "", "irc+insecure://127.0.0.1:99999", "irc+insecure://127.0.0.1:1/x?y"})
	case "dur":
		return Pick(f.r, []string{"1s", "0", "-1s", "10d", "x", "1h", "999999999h", ""})
	case "filter":
		return Pick(f.r, []string{"default", "none", "highlight", "message", "x", ""})
	case "bool":
		return Pick(f.r, []string{"true", "false", "x", ""})
	case "flags":
		return Pick(f.r, []string{"%tcuihsnfdlaor,42", "%n", "%", "%tn,", "o", "%tuhnf,999", "x", "%xyz,1", "%tcuhnar,abc"})
	case "endpoint":
		return Pick(f.r, []string{"https://127.0.0.1:1/x", "http://127.0.0.1:1/x", "https://localhost/x", "x", "", "https://", "https://127.0.0.1:1/" + strings.Repeat("a", 600), "ftp://x/y", "https://[::1]:1/"})
	case "pushkeys":
		return Pick(f.r, []string{"p256dh=BCVxsr7N_eNgVRqvHtD0zTZsEc6-VV-JvLexhqUzORcxaOzi6-AYWXvTBHm4bjyPjs7Vd8pZGH6SRpkNtoIAiw4;auth=BTBZMqHH6r4Tts7J_aSIgg", "p256dh=x;auth=y", "auth=x", "", "p256dh=;auth=", "x"})
	case "word":
		return f.word()
	case "n":
		return fmt.Sprintf("%s%d", Pick(f.r, []string{"a", "b", "c"}), f.r.Intn(6))
	case "net":
		return Pick(f.r, append([]string{"neta", "none", "*", "n1", ""}, f.words...))
	case "label":
		return fmt.Sprintf("sd-%d-%d", f.r.Intn(12), f.r.Intn(5))
	case "isup":
		return Pick(f.r, []string{"CASEMAPPING=ascii", "CASEMAPPING=rfc1459", "CASEMAPPING=rfc1459-strict", "CASEMAPPING=x", "CASEMAPPING", "-CASEMAPPING", "CASEMAPPING=", "CHANMODES=beI,k,l,imnst", "CHANMODES=", "CHANMODES=,,,", "CHANMODES=a", "CHANMODES", "-CHANMODES", "CHANTYPES=#&", "CHANTYPES=", "CHANTYPES", "-CHANTYPES", "CHANTYPES=ab", "STATUSMSG=@+", "STATUSMSG=", "STATUSMSG=#", "-STATUSMSG", "STATUSMSG", "PREFIX=(ov)@+", "PREFIX=", "PREFIX=(", "PREFIX=()", "PREFIX=(ov)@", "PREFIX", "-PREFIX", "PREFIX=(qaohv)~&@%+", "PREFIX=ov", "PREFIX=)(", "MONITOR=10", "MONITOR", "MONITOR=x", "MONITOR=0", "-MONITOR", "BOT=B", "BOT", "BOT=", "WHOX", "NETWORK=x", "NETWORK", "-NETWORK", "TOPICLEN=1", "NICKLEN=x", "=", "-", "", "=x", "-=", "X=\\x20", "LINELEN=1", "LINELEN=x", "UTF8ONLY", "EXTBAN=~,a", "MODES=", "bot=b", "UTF8MAPPING=rfc8265"})
	case "members":
		n := f.r.Intn(5)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, Pick(f.r, []string{"", "@", "+", "@+", "~&@%+", "@@", "+@", " "})+Pick(f.r, []string{f.nick(), f.nick(), f.nick() + "!u@h", "", "!u@h"}))
		}
		return strings.Join(l, " ")
	case "status":
		return Pick(f.r, []string{"=", "@", "*", "", "x", "==", " "})
	case "unix":
		return Pick(f.r, []string{"1700000000", "0", "-1", "x", "99999999999999999999", "9223372036854775807", ""})
	case "uinfo":
		return Pick(f.r, []string{"H", "G", "H*@", "", "H@+B", "x", "@", "*"})
	case "btag":
		return Pick(f.r, []string{"b1", "b2", "b3", ""})
	case "cmd":
		return Pick(f.r, []string{"WHO", "WHOIS", "LIST", "AUTHENTICATE", "REGISTER", "VERIFY", "JOIN", "*", "PRIVMSG", "", "who", "MONITOR", "CAP", "SETNAME"})
	case "fcode":
		return Pick(f.r, []string{"ACCOUNT_REQUIRED", "TEMPORARILY_UNAVAILABLE", "X", "", "NEED_MORE_PARAMS"})
	}
	return "{" + name + "}"
}

// expand turns a template such as "PRIVMSG {target} {text}" into a line,
// sometimes mutated.
func (f *fuzzer) expand(tmpl string, mutate float64) string {
	fields := strings.Fields(tmpl)
	cmd := fields[0]
	var params []string
	for _, p := range fields[1:] {
		for {
			i := strings.IndexByte(p, '{')
			j := strings.IndexByte(p, '}')
			if i < 0 || j < i {
				break
			}
			p = p[:i] + strings.ReplaceAll(f.fill(p[i+1:j]), "{", "(") + p[j+1:]
			if strings.IndexByte(p, '{') < 0 {
				break
			}
		}
		params = append(params, p)
	}
	for f.r.Float64() < mutate {
		switch f.r.Intn(6) {
		case 0:
			if len(params) > 0 {
				params = params[:len(params)-1]
			}
		case 1:
			if len(params) > 0 {
				params = params[:f.r.Intn(len(params)+1)]
			}
		case 2:
			if len(params) > 0 {
				params[f.r.Intn(len(params))] = ""
			}
		case 3:
			if len(params) > 0 {
				params[f.r.Intn(len(params))] = f.word()
			}
		case 4:
			params = append(params, f.word())
		case 5:
			if len(params) > 1 {
				i, j := f.r.Intn(len(params)), f.r.Intn(len(params))
				params[i], params[j] = params[j], params[i]
			}
		}
	}
	f.seen[cmd] = true
	return joinLine(f.r, cmd, params)
}

func joinLine(r *rand.Rand, cmd string, params []string) string {
	var sb strings.Builder
	sb.WriteString(cmd)
	for i, p := range params {
		sb.WriteByte(' ')
		if i == len(params)-1 {
			if p == "" || strings.ContainsAny(p, " ") || p[0] == ':' || r.Intn(3) == 0 {
				sb.WriteByte(':')
			}
			sb.WriteString(p)
			break
		}
		p = strings.ReplaceAll(p, " ", "_")
		if p == "" && r.Intn(2) == 0 {
			p = "*"
		}
		sb.WriteString(strings.TrimPrefix(p, ":"))
	}
	return sb.String()
}

func (f *fuzzer) tags(server bool) string {
	if f.r.Intn(3) != 0 {
		return ""
	}
	n := 1 + f.r.Intn(3)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, Pick(f.r, []string{"time=2024-01-01T00:00:00.000Z", "time=x", "time", "msgid=abc", "msgid=", "+draft/react=x", "+draft/reply=y", "+typing=active", "+draft/channel-context=" + f.chan_(), "+draft/channel-context", "label=" + f.fill("label"), "label=", "label=x", "label=sd-1", "account=x", "account", "bot", "=", "", "a=\\", "x=" + strings.Repeat("y", f.r.Intn(5000)), "+x"}))
		if server && f.r.Intn(2) == 0 {
			l = append(l, "batch="+f.fill("btag"))
		}
	}
	return "@" + strings.Join(l, ";") + " "
}

func (f *fuzzer) garbage() string {
	switch f.r.Intn(6) {
	case 0:
		return ""
	case 1:
		return Pick(f.r, []string{":", "@", ": ", "@ ", ":x", "@x", "@x :y", "@x :y ", " ", "   PING x", ":a :b :c", "@=;=;; PING x", ":!@ PING x", "\x00", "PING\x00x"})
	case 2:
		n := f.r.Intn(300)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(f.r.Intn(256))
			if b[i] == '\n' {
				b[i] = '\r'
			}
		}
		return string(b)
	case 3:
		return strings.Repeat("A", Pick(f.r, []int{511, 513, 4097, 9000, 70000}))
	case 4:
		return fmt.Sprintf("%03d %s", f.r.Intn(1000), f.word())
	}
	return f.word()
}

var clientTemplates = strings.Split(strings.TrimSpace(`
CAP LS 302
CAP LS {num}
CAP LIST
CAP REQ {caps}
CAP REQ {cap}
CAP END
CAP {word}
AUTHENTICATE {mech}
AUTHENTICATE {mech}
AUTHENTICATE {b64}
AUTHENTICATE {b64}
AUTHENTICATE *
BOUNCER BIND {netid}
BOUNCER LISTNETWORKS
BOUNCER ADDNETWORK {attrs}
BOUNCER ADDNETWORK name={n};host=127.0.0.1;port=1;tls=0
BOUNCER CHANGENETWORK {netid} {attrs}
BOUNCER DELNETWORK {netid}
BOUNCER {word}
AWAY {text}
AWAY
NICK {nick}
NICK {n}
USER {nick} 0 * {text}
PASS {word}
PING {word}
PONG {word}
SETNAME {text}
JOIN {chans} {word}
JOIN {chan}
JOIN 0
PART {chans} {text}
PART {chan}
KICK {chan} {nick} {text}
MODE {chan}
MODE {chan} {modes} {nick} {num}
MODE {nick}
MODE {nick} {modes}
MODE {chan} b
TOPIC {chan}
TOPIC {chan} {text}
LIST
LIST {chans}
LIST {word} {word}
NAMES {chans}
NAMES
WHO {chan}
WHO {nick} {flags}
WHO {mask} {flags}
WHO
WHOIS {nick}
WHOIS {nick} {nick}
WHOIS
PRIVMSG {target} {text}
PRIVMSG {target} {text}
NOTICE {target} {text}
TAGMSG {target}
PRIVMSG NickServ :IDENTIFY
PRIVMSG NickServ {text}
INVITE {nick} {chan}
REGISTER {nick} {word} {word}
REGISTER * * pw
VERIFY {nick} {word}
INFO
INFO {word}
MONITOR + {nicks}
MONITOR - {nicks}
MONITOR C
MONITOR L
MONITOR S
MONITOR {word} {nicks}
CHATHISTORY BEFORE {target} {bound} {num}
CHATHISTORY AFTER {target} {bound} {num}
CHATHISTORY LATEST {target} {bound} {num}
CHATHISTORY BETWEEN {target} {bound} {bound} {num}
CHATHISTORY TARGETS {bound} {bound} {num}
CHATHISTORY AROUND {target} {bound} {num}
CHATHISTORY {word} {word}
READ {target} {ts}
READ {target}
MARKREAD {target} {ts}
MARKREAD {target}
SEARCH {search}
WEBPUSH REGISTER {endpoint} {pushkeys}
WEBPUSH UNREGISTER {endpoint}
WEBPUSH {word}
MOTD
VERSION {word}
STATS {word}
{num} {word}
ERROR {text}
BATCH +x {word}
`), "\n")

// Commands of the service; none of them removes or locks the account.
var svcTemplates = strings.Split(strings.TrimSpace(`
help
help {word}
help network
network
network create -addr {addr} -name {n} -enabled {bool}
network create -addr irc+insecure://127.0.0.1:1 -name {n} -nick {nick} -pass {word} -connect-command {word}
network status
network update {net} -name {n} -realname {word}
network update {net} -addr {addr}
network update {net} -auto-away {bool} -enabled {bool}
network update {net} -connect-command {word} -connect-command {word}
network delete {net}
network quote {net} {word}
network quote PING
network quote {net} :
certfp generate -key-type {word} -bits {num}
certfp generate -key-type ed25519 -network {net}
certfp fingerprint -network {net}
sasl status
sasl set-plain -network {net} {word} {word}
sasl reset -network {net}
channel status
channel status -network {net}
channel create {chan} -detached {bool} -relay-detached {filter}
channel update {chan} -detached {bool} -reattach-on {filter} -detach-after {dur} -detach-on {filter}
channel update {chan} -detached {bool}
channel delete {chan}
user status
user status {nick}
user update -nick {nick} -realname {word}
user update -realname {word}
user run {nick} help
server status
server notice {word}
server debug {word}
{word} {word}
network {word}
channel {word} {word}
"unterminated
'
network "create
`), "\n")

// svcLine is a service command with arguments containing no line breaks.
func (f *fuzzer) svcLine() string {
	t := Pick(f.r, svcTemplates)
	line := f.expand(t, 0.25)
	line = strings.Replace(line, " :", " ", 1)
	return line
}

func (f *fuzzer) clientLine() string {
	switch x := f.r.Intn(20); {
	case x == 0:
		return f.garbage()
	case x < 4:
		return f.tags(false) + "PRIVMSG BouncerServ :" + f.svcLine()
	case x == 4:
		return f.tags(false) + ":" + f.nick() + " " + f.expand(Pick(f.r, clientTemplates), 0.3)
	case x == 5:
		return f.tags(false) + f.expand(f.case_("PRIVMSG")+" {target} {text}", 0)
	}
	return f.tags(false) + f.expand(Pick(f.r, clientTemplates), 0.35)
}

var serverTemplates = strings.Split(strings.TrimSpace(`
PING {word}
PONG {word}
PRIVMSG {target} {text}
PRIVMSG {me} {text}
PRIVMSG {chan} {text}
NOTICE {target} {text}
TAGMSG {target}
CAP * LS {caps}
CAP * LS * {caps}
CAP {nick} ACK {caps}
CAP {nick} NAK {caps}
CAP {nick} NEW {caps}
CAP {nick} DEL {caps}
CAP {nick} {word} {caps}
AUTHENTICATE +
AUTHENTICATE {b64}
900 {me} {word} {nick} {text}
900 {me} nick!user@host {nick} {text}
901 {me} {word} {text}
396 {me} {word} {text}
902 {me} {text}
903 {me} {text}
904 {me} {text}
905 {me} {text}
906 {me} {text}
907 {me} {text}
REGISTER SUCCESS {nick} {text}
REGISTER {word} {word}
VERIFY SUCCESS {nick} {text}
001 {nick} {text}
001 {me} {text}
002 {me} {text}
003 {me} {text}
004 {me} {word} {word} {modes} {modes}
005 {me} {isup} {isup} {isup} {text}
005 {me} {isup} {text}
005 {me} {isup}
375 {me} {text}
372 {me} {text}
376 {me} {text}
422 {me} {text}
BATCH +{btag} {word} {word}
BATCH +{btag} chathistory {chan}
BATCH -{btag}
BATCH {word}
NICK {nick}
NICK {n}
SETNAME {text}
CHGHOST {word} {word}
JOIN {chan}
JOIN {chan}
JOIN {chans}
JOIN {chan} {nick} {text}
PART {chan} {text}
PART {chans}
KICK {chan} {nick} {text}
KICK {chan} {me}
QUIT {text}
331 {me} {chan} {text}
332 {me} {chan} {text}
333 {me} {chan} {word} {unix}
TOPIC {chan} {text}
TOPIC {chan}
MODE {chan} {modes} {nick} {nick} {num}
MODE {chan} {modes}
MODE {me} {modes}
MODE {nick} {modes}
221 {me} {modes}
324 {me} {chan} {modes} {word} {num}
324 {me} {chan} {modes}
329 {me} {chan} {unix}
321 {me} Channel :Users
322 {me} {chan} {num} {text}
323 {me} {text}
353 {me} {status} {chan} {members}
353 {me} = {chan} {members}
366 {me} {chan} {text}
352 {me} {chan} {word} {word} {word} {nick} {uinfo} {text}
352 {me} {chan} u h s {nick} {uinfo} :0_x
354 {me} {num} {word} {word} {nick} {word} {word} {text}
354 {me} {word}
315 {me} {mask} {text}
311 {me} {nick} u h * {text}
312 {me} {nick} s {text}
317 {me} {nick} {num} {text}
319 {me} {nick} {text}
330 {me} {nick} {word} {text}
338 {me} {nick} {word}
671 {me} {nick} {text}
318 {me} {nick} {text}
INVITE {nick} {chan}
INVITE {me} {chan}
341 {me} {nick} {chan}
730 {me} {nicks}
730 {me} {nick}!u@h
731 {me} {nicks}
734 {me} {num} {nicks} {text}
301 {me} {nick} {text}
305 {me} {text}
306 {me} {text}
AWAY {text}
AWAY
ACCOUNT {word}
ACCOUNT *
367 {me} {chan} {mask} {nick} {unix}
368 {me} {chan} {text}
401 {me} {nick} {text}
402 {me} {nick} {text}
400 {me} {cmd} {text}
421 {me} {cmd} {text}
461 {me} {cmd} {text}
263 {me} {cmd} {text}
FAIL {cmd} {fcode} {text}
WARN {cmd} {fcode} {text}
NOTE {cmd} {fcode} {text}
ACK
251 {me} {text}
265 {me} {num} {num} {text}
433 {me} {nick} {text}
433 * {n} {text}
432 {me} {nick} {text}
436 {me} {nick} {text}
437 {me} {nick} {text}
464 {me} {text}
465 {me} {text}
463 {me} {text}
MARKREAD {chan} {ts}
CHATHISTORY {word}
BOUNCER {word} {word}
WALLOPS {text}
KILL {nick} {text}
`), "\n")

func (f *fuzzer) serverPrefix(host string) string {
	switch f.r.Intn(14) {
	case 0:
		return ""
	case 1:
		return ":" + Pick(f.r, []string{"!u@h", "@h", "!", "*", "", "x!y", "x@y", "!@", "BouncerServ!x@y", "NickServ!x@y", host + "!x@y"}) + " "
	case 2:
		return ":" + strings.ReplaceAll(f.word(), " ", "_") + " "
	case 3, 4, 5:
		return ":" + host + " "
	case 6, 7, 8, 9:
		return ":" + f.me() + "!user@host.example "
	}
	return ":" + f.nick() + Pick(f.r, []string{"!u@h", "!u@h", "", "@h"}) + " "
}

func (f *fuzzer) serverLine(host string) string {
	if f.r.Intn(40) == 0 {
		return f.garbage()
	}
	return f.tags(true) + f.serverPrefix(host) + f.expand(Pick(f.r, serverTemplates), 0.2)
}
