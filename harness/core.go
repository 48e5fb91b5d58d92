// Package main is the runtime-monitoring harness for nlpodyssey/spago.
//
// One binary plays two roles. The parent (-prop P01) builds the variants it
// needs, runs child processes (one per phase and shard), merges what their
// monitors observed and prints the verdict. A child (-child) executes the
// workload of one phase against the real code, with the monitors attached.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Phase is one workload of a property.
type Phase struct {
	Name    string
	Variant string   // "plain" (default), "race", "purego"
	Env     []string // extra environment
	Shards  int      // number of parallel children (default 1)
	Run     func(c *C)
	// MinEvents lists counters that must have been observed at least n times,
	// or the run is worthless (and errors out).
	MinEvents map[string]int64
	// ThoroughOnly phases are skipped in the quick tier.
	ThoroughOnly bool
}

// Property describes one check.
type Property struct {
	ID     string
	Rule   string
	Level  string
	Boost  int // quick counts are raised by this factor, up to the thorough ones
	Phases []Phase
}

var properties = map[string]*Property{}

func register(p *Property) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	properties[p.ID] = p
}

// Failure is one observed violation.
type Failure struct {
	Phase  string `json:"phase"`
	Case   string `json:"case"`
	Index  int    `json:"index"`
	Key    string `json:"key"` // identifies the call site / input class that fails
	Detail string `json:"detail"`
}

// Result is what a child reports.
type Result struct {
	Cases       int64            `json:"cases"`
	Evaluations int64            `json:"evaluations"` // instances tried inside the cases
	Checks      int64            `json:"checks"`
	Sigs        []uint64         `json:"sigs"`
	Events      map[string]int64 `json:"events"`
	Samples     []string         `json:"samples"`
	Failures    []Failure        `json:"failures"`
	Done        bool             `json:"done"`
}

// C is the context of one child run.
type C struct {
	Prop, PhaseName, Tier string
	Seed                  int64
	Shard, Shards         int
	Only                  string
	Skip                  map[int]bool
	index                 int
	res                   Result
	sigs                  map[uint64]struct{}
	journal               *os.File
	maxFailures, newFails int
	known                 map[string]int // keys of the listed findings, with the occurrences stored
	samples               int
}

func (c *C) Quick() bool { return c.Tier != "thorough" }

// N picks a workload size according to the tier.
func (c *C) N(quick, thorough int) int {
	if b := properties[c.Prop].Boost; c.Quick() && b > 1 && quick < thorough {
		return min(quick*b, thorough)
	}
	if c.Quick() {
		return quick
	}
	return thorough
}

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return h.Sum64()
}

// T is the context of one case.
type T struct {
	*C
	Name   string
	R      *Rng
	idx    int
	fail   int
	failed bool
	big    bool // draw large sizes
	kinky  bool // an activation with kinks was drawn
	far    bool // draw long sequences instead
}

// Case runs one case, if it belongs to this shard.
func (c *C) Case(name string, f func(t *T)) {
	idx := c.index
	c.index++
	if c.Only != "" {
		if c.Only != name {
			return
		}
	} else if idx%c.Shards != c.Shard || c.Skip[idx] {
		return
	}
	if c.newFails >= c.maxFailures {
		return
	}
	c.note(idx, name)
	t := &T{C: c, Name: name, idx: idx, R: NewRng(hash64(c.Seed, "|", c.Prop, "|", c.PhaseName, "|", name))}
	c.res.Cases++
	defer func() {
		if e := recover(); e != nil {
			t.Fail("panic", "unexpected panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	f(t)
}

// note journals the case about to run, so that the parent can attribute a
// crash, a hang or a process exit to it.
func (c *C) note(idx int, name string) {
	if c.journal == nil {
		return
	}
	b := make([]byte, 512)
	for i := range b {
		b[i] = ' '
	}
	copy(b, fmt.Sprintf("%d\t%s\n", idx, name))
	c.journal.WriteAt(b, 0)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Fail records a violation. key identifies what fails (call site and input
// class), independently of the random case that exposed it.
func (t *T) Fail(key, format string, args ...any) {
	if n, ok := t.known[key]; ok {
		t.failed = true
		t.known[key]++
		if n >= 2 {
			return
		}
	} else {
		t.failed = true
		t.fail++
		if t.fail > 3 {
			return
		}
		t.newFails++
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 4000 {
		d = d[:4000] + "…"
	}
	t.res.Failures = append(t.res.Failures, Failure{Phase: t.PhaseName, Case: t.Name, Index: t.idx, Key: key, Detail: d})
}

func (t *T) Failed() bool { return t.failed }

// Check counts one oracle evaluation and records a failure when !ok.
func (t *T) Check(ok bool, key, format string, args ...any) bool {
	t.res.Checks++
	if !ok {
		t.Fail(key, format, args...)
	}
	return ok
}

// Checked counts n oracle evaluations that passed.
func (c *C) Checked(n int) { c.res.Checks += int64(n) }

// Event counts an observed event.
func (c *C) Event(name string, n int) {
	c.res.Events[name] += int64(n)
}

// Seen counts one instance (execution) and records its signature.
func (c *C) Seen(parts ...any) {
	c.res.Evaluations++
	if len(c.sigs) < 400000 {
		c.sigs[hash64(parts...)] = struct{}{}
	}
}

// Sample keeps some cases, written out.
func (c *C) Sample(format string, args ...any) {
	c.samples++
	if n := c.samples; n&(n-1) == 0 { // 1, 2, 4, 8 …: the last four are kept
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		if len(c.res.Samples) == 4 {
			c.res.Samples = c.res.Samples[1:]
		}
		c.res.Samples = append(c.res.Samples, s)
	}
}

func runChild(prop *Property, ph *Phase, tier string, seed int64, shard, shards int, only string, skip map[int]bool, journal, out string) {
	c := &C{
		Prop: prop.ID, PhaseName: ph.Name, Tier: tier, Seed: seed,
		Shard: shard, Shards: shards, Only: only, Skip: skip,
		sigs: map[uint64]struct{}{}, maxFailures: 40, known: map[string]int{},
	}
	for _, k := range strings.Split(os.Getenv("SPAGOVERIF_KNOWN"), "\n") {
		if k != "" {
			c.known[k] = 0
		}
	}
	c.res.Events = map[string]int64{}
	if journal != "" {
		f, err := os.OpenFile(journal, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		c.journal = f
	}
	ph.Run(c)
	c.note(-1, "done")
	c.res.Done = true
	for s := range c.sigs {
		c.res.Sigs = append(c.res.Sigs, s)
	}
	sort.Slice(c.res.Sigs, func(i, j int) bool { return c.res.Sigs[i] < c.res.Sigs[j] })
	b, err := json.Marshal(&c.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- randomness

// Rng is a splitmix64 generator: small, and independent of the code under test.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int             { return int(r.U64() % uint64(n)) }
func (r *Rng) Range(lo, hi int) int       { return lo + r.Intn(hi-lo+1) }
func (r *Rng) F() float64                 { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Uni(lo, hi float64) float64 { return lo + (hi-lo)*r.F() }
func (r *Rng) Bool() bool                 { return r.U64()&1 == 1 }
func (r *Rng) P(p float64) bool           { return r.F() < p }
func (r *Rng) Norm() float64 {
	u := r.F()
	for u == 0 {
		u = r.F()
	}
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*r.F())
}
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func (r *Rng) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }
func (r *Rng) Fork() *Rng         { return NewRng(r.U64()) }

// ------------------------------------------------------------------- helpers

// expectPanic runs f and reports whether it panicked.
func panics(f func()) (v any) {
	defer func() { v = recover() }()
	f()
	return nil
}

// close64 is the comparison used by all numeric oracles: absolute or relative
// tolerance; NaN equals NaN, infinities must match exactly.
func closeTo(got, want, tol float64) bool {
	if math.IsNaN(want) {
		return math.IsNaN(got)
	}
	if math.IsInf(want, 0) {
		return got == want
	}
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return false
	}
	d := math.Abs(got - want)
	return d <= tol || d <= tol*math.Max(math.Abs(got), math.Abs(want))
}

// closeScale compares with a tolerance relative to a given magnitude.
func closeScale(got, want, tol, scale float64) bool {
	if math.IsNaN(want) {
		return math.IsNaN(got)
	}
	if math.IsInf(want, 0) {
		return got == want
	}
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return false
	}
	return math.Abs(got-want) <= tol*(scale+math.Abs(want))
}

// quiesce waits (logically: by yielding) until only the calling goroutine and
// the given baseline remain, or every other goroutine is blocked in a state it
// cannot leave by itself. It returns a dump of the blocked goroutines, if any.
func leakedGoroutines(baseline int) string {
	for i := 0; i < 200000; i++ {
		if runtime.NumGoroutine() <= baseline {
			return ""
		}
		runtime.Gosched()
		if i > 2000 && i%500 == 0 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if d := string(buf); allBlocked(d) && staysBlocked(d) {
				return d
			}
		}
	}
	return ""
}

// staysBlocked tells whether the goroutines of a dump are still exactly where
// they were after a while: a goroutine that waits for the garbage collector,
// say, is blocked only for a moment.
func staysBlocked(dump string) bool {
	for i := 0; i < 5; i++ {
		time.Sleep(20 * time.Millisecond)
		buf := make([]byte, 1<<20)
		now := string(buf[:runtime.Stack(buf, true)])
		if !allBlocked(now) || strings.Count(now, "\n\n") != strings.Count(dump, "\n\n") {
			return false
		}
		if othersOf(now) != othersOf(dump) {
			return false
		}
	}
	return true
}

// othersOf returns a dump without the calling goroutine and the waiting times.
func othersOf(dump string) string {
	_, rest, _ := strings.Cut(dump, "\n\n")
	return waitTime.ReplaceAllString(rest, "")
}

var waitTime = regexp.MustCompile(`, \d+ minutes`)

// allBlocked reports whether all goroutines but the first (the caller) of a
// dump are waiting on channels, locks or semaphores.
func allBlocked(dump string) bool {
	gs := strings.Split(dump, "\n\n")
	n := 0
	for i, g := range gs {
		if i == 0 || !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		n++
		head := g[:strings.IndexByte(g+"\n", '\n')]
		blocked := false
		for _, s := range []string{"[chan receive", "[chan send", "[select", "[semacquire", "[sync.", "[sleep"} {
			if strings.Contains(head, s) {
				blocked = true
			}
		}
		if strings.Contains(head, "[sleep") {
			return false
		}
		if !blocked {
			return false
		}
	}
	return n > 0
}
