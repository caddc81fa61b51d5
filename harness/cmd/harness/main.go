// Command harness runs the check of one property and reports its verdict.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	_ "verif/harness/checks"
	"verif/harness/h"
)

var (
	prop    = flag.String("prop", "", "property id")
	tier    = flag.String("tier", "quick", "quick or thorough")
	seedArg = flag.Int64("seed", 1, "seed")
	child   = flag.String("child", "", "run the cases in this process and write the outcome here")
	only    = flag.String("only", "", "run only the named case")
	root    = flag.String("root", "/verif", "verification root")
	timeout = flag.Duration("timeout", 800*time.Second, "overall limit")
)

func main() {
	flag.Parse()
	c := h.Checks[*prop]
	if c == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	e := &h.Env{Prop: *prop, Tier: *tier, Seed: *seedArg, Thorough: *tier == "thorough"}
	if *child != "" {
		out := h.RunCheck(c, e, *only)
		h.WriteJSON(*child, out)
		return
	}
	os.Exit(drive(c, e))
}

func runChild(dir string, n int) (*h.Outcome, string, error) {
	res := filepath.Join(dir, fmt.Sprintf("outcome%d.json", n))
	args := []string{"-prop", *prop, "-tier", *tier, "-seed", strconv.FormatInt(*seedArg, 10), "-child", res, "-root", *root}
	if *only != "" {
		args = append(args, "-only", *only)
	}
	cmd := exec.Command(os.Args[0], args...)
	logPath := filepath.Join(dir, fmt.Sprintf("child%d.log", n))
	f, err := os.Create(logPath)
	h.Must(err)
	cmd.Stdout, cmd.Stderr = f, f
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "TMPDIR="+dir)
	if race := os.Getenv("VERIF_RACE"); race != "" {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"), "VERIF_RACE_LOG="+filepath.Join(dir, "race"))
	}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(*timeout):
		cmd.Process.Kill()
		<-done
		err = fmt.Errorf("run exceeded %v", *timeout)
	}
	f.Close()
	log, _ := os.ReadFile(logPath)
	b, rerr := os.ReadFile(res)
	if rerr != nil {
		return nil, string(log), fmt.Errorf("no outcome: %v", err)
	}
	var out h.Outcome
	if jerr := json.Unmarshal(b, &out); jerr != nil {
		return nil, string(log), jerr
	}
	return &out, string(log), nil
}

// crashInSoju tells whether the crashing goroutine of a Go crash log runs
// code of the system under test.
func crashInSoju(log string) (string, bool) {
	i := strings.Index(log, "panic: ")
	if j := strings.Index(log, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return "", false
	}
	s := log[i:]
	// the first goroutine dump is the crashing one
	g := strings.Index(s, "goroutine ")
	if g < 0 {
		return s, false
	}
	end := strings.Index(s[g:], "\n\n")
	if end < 0 {
		end = len(s) - g
	}
	first := s[:g+end]
	if len(s) > 20000 {
		s = s[:20000]
	}
	return s, strings.Contains(first, "codeberg.org/emersion/soju")
}

func drive(c *h.Check, e *h.Env) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "sojucheck-")
	h.Must(err)
	defer os.RemoveAll(dir)

	known := loadKnown(e.Prop)
	var out *h.Outcome
	var log string
	for try := 0; ; try++ {
		out, log, err = runChild(dir, try)
		if err != nil {
			txt, ok := crashInSoju(log)
			if ok {
				return violation(c, e, start, nil, "the bouncer process crashed:\n"+txt)
			}
			if txt == "" {
				txt = tail(log, 6000)
			}
			fmt.Fprintf(os.Stderr, "check error: %v\n%s\n", err, txt)
			return 3
		}
		if (out.Kind == "stuck" || out.Kind == "inconclusive" || out.Kind == "error") && try == 0 {
			fmt.Fprintf(os.Stderr, "%s on the first attempt (%s); running again\n", out.Kind, first(out).Msg)
			if f := os.Getenv("VERIF_FIRST"); f != "" {
				os.WriteFile(f, []byte(first(out).Name+"\n"+first(out).Msg+"\n"+first(out).Trace), 0o644)
			}
			continue
		}
		break
	}
	if races := readRaces(dir); len(races) > 0 {
		return violation(c, e, start, out, fmt.Sprintf("%d distinct data races, the first one:\n%s", len(races), strings.Join(races, "\n\n")))
	}
	switch out.Kind {
	case "violation", "stuck":
		return violation(c, e, start, out, "")
	case "ok":
	default:
		b := first(out)
		fmt.Fprintf(os.Stderr, "check %s: %s in case %s: %s\n%s\n", e.Prop, out.Kind, b.Name, b.Msg, tail(b.Trace, 6000))
		return 3
	}
	if out.Cases == 0 {
		fmt.Fprintf(os.Stderr, "check %s: nothing was run\n", e.Prop)
		return 3
	}
	for _, f := range out.Findings {
		what, ok := known[f]
		if !ok {
			return violation(c, e, start, out, "unlisted finding "+f)
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", e.Prop, f, what)
	}
	writeEvidence(c, e, start, out, 0)
	var keys []string
	for k := range out.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s seed=%d: held on %d executions, %d distinct situations, %.1fs\n", e.Prop, e.Tier, e.Seed, out.Cases, out.Distinct, time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf("  %-40s %d\n", k, out.Counters[k])
	}
	return 0
}

func first(o *h.Outcome) h.CaseOutcome {
	for _, b := range o.Bad {
		if b.Kind == o.Kind {
			return b
		}
	}
	return h.CaseOutcome{}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func violation(c *h.Check, e *h.Env, start time.Time, out *h.Outcome, msg string) int {
	rdir := filepath.Join(*root, "replays")
	os.MkdirAll(rdir, 0755)
	path := filepath.Join(rdir, fmt.Sprintf("%s-seed%d.txt", e.Prop, e.Seed))
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s, tier %s, seed %d\n", e.Prop, e.Tier, e.Seed)
	if out != nil {
		for _, b := range out.Bad {
			fmt.Fprintf(&sb, "\ncase %s: %s: %s\nreplay: VERIF_SEED=%d ./check.sh %s %s -only %s\n\n%s\n", b.Name, b.Kind, b.Msg, e.Seed, e.Prop, e.Tier, b.Name, b.Trace)
			if msg == "" {
				msg = fmt.Sprintf("case %s: %s: %s", b.Name, b.Kind, b.Msg)
			}
		}
	}
	if msg != "" {
		fmt.Fprintf(&sb, "\n%s\n", msg)
	}
	os.WriteFile(path, []byte(sb.String()), 0644)
	if out == nil {
		out = &h.Outcome{}
	}
	writeEvidence(c, e, start, out, 1)
	if len(msg) > 1500 {
		msg = msg[:1500] + "..."
	}
	fmt.Printf("%s\n", msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", e.Prop, path)
	return 1
}

func writeEvidence(c *h.Check, e *h.Env, start time.Time, out *h.Outcome, nviol int) {
	samples := out.Samples
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"evaluations":         out.Cases,
		"distinct_nontrivial": out.Distinct,
		"rule":                c.Rule,
		"samples":             samples,
		"observed":            out.Counters,
	}
	ev := map[string]interface{}{
		"property":   e.Prop,
		"tier":       e.Tier,
		"seed":       e.Seed,
		"level":      c.Level,
		"coverage":   cov,
		"wall_s":     time.Since(start).Seconds(),
		"violations": nviol,
		"assumptions": append([]string{
			"executions run on " + runtime.GOOS + "/" + runtime.GOARCH + " with " + runtime.Version() + " over loopback sockets",
		}, c.Assume...),
	}
	h.WriteJSON(filepath.Join(*root, "evidence", e.Prop+".json"), ev)
}

// loadKnown reads known_findings.txt: lines "finding: property=<id> <key>: <text>".
func loadKnown(prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(*root, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		rest, ok := strings.CutPrefix(sc.Text(), "finding: property="+prop+" ")
		if !ok {
			continue
		}
		if key, text, ok := strings.Cut(rest, ": "); ok {
			m[key] = text
		}
	}
	return m
}

// readRaces collects the race detector's reports about accesses by the system
// under test: for both accesses the innermost frame outside of the standard
// library must not be the harness's own.
func readRaces(dir string) []string {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	var l []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			keys, ours := raceKey(rep)
			if !ours {
				fmt.Fprintf(os.Stderr, "ignored report about the harness itself: %s\n", keys)
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, rep)
				}
				continue
			}
			if !seen[keys] {
				seen[keys] = true
				l = append(l, keys+"\n"+strings.TrimSpace(rep))
			}
		}
	}
	sort.Strings(l)
	return l
}

func raceKey(rep string) (string, bool) {
	var keys []string
	ours := true
	soju := false
	for _, sec := range strings.Split(rep, "\n\n") {
		lines := strings.Split(strings.TrimSpace(sec), "\n")
		for len(lines) > 0 && !strings.Contains(lines[0], " at 0x") {
			lines = lines[1:]
		}
		if len(lines) == 0 || strings.HasPrefix(strings.TrimSpace(lines[0]), "Goroutine") {
			continue
		}
		key := strings.Fields(strings.TrimSpace(lines[0]))[0]
		for i := 1; i+1 < len(lines); i += 2 {
			fn, file := strings.TrimSpace(lines[i]), strings.TrimSpace(lines[i+1])
			if strings.Contains(fn, "emersion/soju") {
				soju = true
			}
			dot := strings.IndexByte(fn, '/')
			host := fn
			if dot >= 0 {
				host = fn[:dot]
			}
			if strings.HasPrefix(fn, "verif/") || strings.HasPrefix(fn, "main.") && strings.Contains(file, "/verif/") {
				ours = false
				key += " " + fn
				break
			}
			if dot >= 0 && strings.Contains(host, ".") || strings.HasPrefix(fn, "main.") {
				if j := strings.IndexByte(file, ' '); j >= 0 {
					file = file[:j]
				}
				key += " " + fn + " " + file
				break
			}
		}
		keys = append(keys, key)
	}
	sort.Strings(keys)
	return strings.Join(keys, " / "), ours && soju
}
