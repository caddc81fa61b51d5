// Package h is the core of the runtime-monitoring harness: it runs the real
// soju server over loopback sockets between scripted IRC networks and scripted
// IRC clients, records every line crossing those sockets, and provides fences
// so that oracles decide on logical steps instead of wall-clock time.
package h

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Watchdog bounds every wait. It is far above anything a healthy run needs:
// its firing means that the awaited event did not happen at all.
var Watchdog = 60 * time.Second

// Violation is thrown (as a panic value) by an oracle.
type Violation struct{ Msg string }

// Stuck is thrown when the watchdog fires.
type Stuck struct{ Msg string }

// Inconclusive is thrown when the workload could not exercise the property.
type Inconclusive struct{ Msg string }

func Failf(format string, a ...interface{}) { panic(Violation{fmt.Sprintf(format, a...)}) }

func Must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness error: %v", err))
	}
}

// Env describes one invocation of a check.
type Env struct {
	Prop string
	Tier string
	Seed int64
	// N scales the number of cases: quick count vs thorough count.
	Thorough bool
}

func (e *Env) N(quick, thorough int) int {
	if e.Thorough {
		return thorough
	}
	return quick
}

// Case is one execution of the system under a generated workload.
type Case struct {
	Name string
	Seed int64
	Run  func(t *T)
}

// Check is the machinery deciding one property.
type Check struct {
	Prop  string
	Level string
	Rule  string
	// Assume lists what the oracle relies on.
	Assume []string
	Cases  func(e *Env) []Case
	// Par limits the number of concurrent cases (0: number of CPUs).
	Par int
}

var Checks = map[string]*Check{}

func Register(c *Check) { Checks[c.Prop] = c }

// T is the context of one case.
type T struct {
	Case   *Case
	Rng    *rand.Rand
	res    *Result
	mu     sync.Mutex
	closer []func()
	last   []func()
	notes  []string
	dir    string
}

func (t *T) Logf(format string, a ...interface{}) {
	t.mu.Lock()
	t.notes = append(t.notes, fmt.Sprintf(format, a...))
	t.mu.Unlock()
}

// Cleanup registers f to run at the end of the case.
func (t *T) Cleanup(f func()) {
	t.mu.Lock()
	t.closer = append(t.closer, f)
	t.mu.Unlock()
}

// CleanupLast registers f to run after all other cleanups. Network servers are
// stopped last: their ports may be reused by another case at once, and must not
// be reached by a bouncer that is still running.
func (t *T) CleanupLast(f func()) {
	t.mu.Lock()
	t.last = append(t.last, f)
	t.mu.Unlock()
}

// Dir returns a scratch directory of the case.
func (t *T) Dir() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.dir == "" {
		d, err := os.MkdirTemp("", "sojuverif-")
		Must(err)
		t.dir = d
	}
	return t.dir
}

// Count adds n to the named counter of observed events.
func (t *T) Count(name string, n int) { t.res.count(name, n) }

// State records a distinct observed situation for the evidence.
func (t *T) State(format string, a ...interface{}) {
	t.res.state(fmt.Sprintf(format, a...))
}

// Sample records an example case in the evidence.
func (t *T) Sample(format string, a ...interface{}) { t.res.sample(fmt.Sprintf(format, a...)) }

// Known reports a known finding (listed in known_findings.txt).
func (t *T) Known(id string) { t.res.known(id) }

// Result accumulates what a run observed.
type Result struct {
	mu       sync.Mutex
	Counters map[string]int64
	states   map[[8]byte]struct{}
	Samples  []string
	Findings map[string]bool
	Cases    int64
}

func newResult() *Result {
	return &Result{Counters: map[string]int64{}, states: map[[8]byte]struct{}{}, Findings: map[string]bool{}}
}

func (r *Result) count(name string, n int) {
	r.mu.Lock()
	r.Counters[name] += int64(n)
	r.mu.Unlock()
}

func (r *Result) state(s string) {
	sum := sha256.Sum256([]byte(s))
	var k [8]byte
	copy(k[:], sum[:8])
	r.mu.Lock()
	r.states[k] = struct{}{}
	r.mu.Unlock()
}

func (r *Result) sample(s string) {
	r.mu.Lock()
	if len(r.Samples) < 6 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}

func (r *Result) known(id string) {
	r.mu.Lock()
	r.Findings[id] = true
	r.mu.Unlock()
}

// CaseOutcome is the verdict of one case.
type CaseOutcome struct {
	Name  string
	Kind  string // "ok", "violation", "stuck", "inconclusive", "error"
	Msg   string
	Trace string
}

// Outcome is the verdict of a run, passed from the child to the driver.
type Outcome struct {
	Kind     string
	Bad      []CaseOutcome
	Counters map[string]int64
	Distinct int
	Samples  []string
	Findings []string
	Cases    int
}

func runCase(c *Case, res *Result) (out CaseOutcome) {
	t := &T{Case: c, Rng: rand.New(rand.NewSource(c.Seed)), res: res}
	out = CaseOutcome{Name: c.Name, Kind: "ok"}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch v := r.(type) {
				case Violation:
					out.Kind, out.Msg = "violation", v.Msg
				case Stuck:
					out.Kind, out.Msg = "stuck", v.Msg
				case Inconclusive:
					out.Kind, out.Msg = "inconclusive", v.Msg
				default:
					out.Kind, out.Msg = "error", fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				if out.Kind == "stuck" {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					t.Logf("goroutines:\n%s", buf[:n])
				}
			}
		}()
		c.Run(t)
	}()
	if out.Kind != "ok" {
		t.mu.Lock()
		out.Trace = strings.Join(t.notes, "\n")
		t.mu.Unlock()
	}
	// Cleanups must not hang the run: a stuck server is simply left behind.
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { recover() }()
		for i := len(t.closer) - 1; i >= 0; i-- {
			t.closer[i]()
		}
		for _, f := range t.last {
			f()
		}
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
	}
	if t.dir != "" {
		os.RemoveAll(t.dir)
	}
	atomic.AddInt64(&res.Cases, 1)
	return out
}

// RunCheck runs all cases of a check in this process.
func RunCheck(c *Check, e *Env, only string) *Outcome {
	res := newResult()
	cases := c.Cases(e)
	par := c.Par
	if par == 0 {
		par = runtime.NumCPU()
	}
	var bad []CaseOutcome
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan *Case)
	var stop atomic.Bool
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				if stop.Load() {
					continue
				}
				o := runCase(c, res)
				if o.Kind != "ok" {
					mu.Lock()
					bad = append(bad, o)
					n := len(bad)
					mu.Unlock()
					if o.Kind == "violation" || o.Kind == "stuck" || n >= 5 {
						stop.Store(true)
					}
				}
			}
		}()
	}
	for i := range cases {
		if only != "" && cases[i].Name != only {
			continue
		}
		ch <- &cases[i]
	}
	close(ch)
	wg.Wait()
	out := &Outcome{Kind: "ok", Bad: bad, Counters: res.Counters, Distinct: len(res.states), Samples: res.Samples, Cases: int(res.Cases)}
	rank := map[string]int{"ok": 0, "inconclusive": 1, "error": 2, "stuck": 3, "violation": 4}
	for _, b := range bad {
		if rank[b.Kind] > rank[out.Kind] {
			out.Kind = b.Kind
		}
	}
	for k := range res.Findings {
		out.Findings = append(out.Findings, k)
	}
	sort.Strings(out.Findings)
	return out
}

func WriteJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	Must(err)
	Must(os.MkdirAll(filepath.Dir(path), 0755))
	Must(os.WriteFile(path, append(b, '\n'), 0644))
}

func ShortHash(s string) string {
	sum := sha256.Sum256([]byte(s))
	return hex.EncodeToString(sum[:6])
}

// SubSeed derives the seed of case i of a check.
func SubSeed(e *Env, i int) int64 {
	sum := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", e.Prop, e.Seed, i)))
	var x int64
	for _, b := range sum[:8] {
		x = x<<8 | int64(b)
	}
	if x < 0 {
		x = -x
	}
	return x
}

// Repeat builds n cases running f.
func Repeat(e *Env, name string, n int, f func(t *T)) []Case {
	var l []Case
	for i := 0; i < n; i++ {
		l = append(l, Case{Name: fmt.Sprintf("%s-%d", name, i), Seed: SubSeed(e, len(name)*1000003+i), Run: f})
	}
	return l
}
