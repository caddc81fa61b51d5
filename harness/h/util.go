package h

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"
	"time"
)

func B64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// RandText generates message text: mostly ordinary, sometimes with control
// bytes, colons, leading spaces, UTF-8, mIRC formatting or CTCP.
func RandText(r *rand.Rand) string {
	words := []string{"hello", "world", ":", ":x", "  ", "é", "日本", "\x02bold\x02", "\x0304,05c\x03", "a,b", "@+tag", "100%", "\\o/", "\"q\"", "'", "$x", "<b>", "-- ", "\t", "\x1f", "{}", "[1]", "~^", "#chan", "!cmd", "http://e.x/?a=b;c", "\xff\xfe"}
	var sb strings.Builder
	for i, n := 0, 1+r.Intn(8); i < n; i++ {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(words[r.Intn(len(words))])
	}
	return sb.String()
}

// Pick returns a random element.
func Pick[X any](r *rand.Rand, l []X) X { return l[r.Intn(len(l))] }

// Subset returns a random subset, in order.
func Subset[X any](r *rand.Rand, l []X, p float64) []X {
	var out []X
	for _, x := range l {
		if r.Float64() < p {
			out = append(out, x)
		}
	}
	return out
}

// Until waits until cond holds.
func Until(what string, cond func() bool) {
	for start := time.Now(); !cond(); time.Sleep(time.Millisecond) {
		if time.Since(start) > Watchdog {
			panic(Stuck{"waiting until " + what})
		}
	}
}

// StrDiff describes where two strings first differ.
func StrDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-40, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return fmt.Sprintf("%q", s[lo:hi])
	}
	return fmt.Sprintf("at byte %d: %s instead of %s", i, cut(b), cut(a))
}
