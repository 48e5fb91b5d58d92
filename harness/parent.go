package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Known is an entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Key      string `json:"key"`    // matches Failure.Key exactly (open entries)
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func main() {
	var (
		propID   = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "", "quick or thorough")
		child    = flag.Bool("child", false, "run as child")
		phase    = flag.String("phase", "", "phase (child), or restrict the run to this phase")
		shard    = flag.Int("shard", 0, "shard")
		shards   = flag.Int("shards", 1, "shards")
		seed     = flag.Int64("seed", 1, "seed")
		only     = flag.String("only", "", "run only the case with this name")
		skip     = flag.String("skip", "", "comma separated case indexes to skip")
		journal  = flag.String("journal", "", "journal file (child)")
		out      = flag.String("out", "", "result file (child)")
		root     = flag.String("root", "/verif", "verif root")
		bin      = flag.String("bin", "", "directory holding the built variants")
		list     = flag.Bool("list", false, "list properties")
		variants = flag.Bool("variants", false, "print the variants a property needs")
	)
	flag.Parse()
	if *list {
		ids := []string{}
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	p := properties[*propID]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *propID)
		os.Exit(2)
	}
	if *variants {
		m := map[string]bool{}
		for _, ph := range p.Phases {
			if !(ph.ThoroughOnly && *tier != "thorough") {
				m[variantOf(&ph)] = true
			}
		}
		for v := range m {
			fmt.Println(v)
		}
		return
	}
	if *child {
		for i := range p.Phases {
			if p.Phases[i].Name == *phase {
				sk := map[int]bool{}
				for _, s := range strings.Split(*skip, ",") {
					if n, err := strconv.Atoi(s); err == nil {
						sk[n] = true
					}
				}
				runChild(p, &p.Phases[i], *tier, *seed, *shard, *shards, *only, sk, *journal, *out)
				return
			}
		}
		os.Exit(2)
	}
	os.Exit(runParent(p, *tier, *seed, *root, *bin, *phase, *only))
}

func variantOf(ph *Phase) string {
	if ph.Variant == "" {
		return "plain"
	}
	return ph.Variant
}

type childRun struct {
	res      Result
	failures []Failure
	errors   []string // inconclusive or harness errors
	races    int
}

func runParent(p *Property, tier string, seed int64, root, bin, onlyPhase, only string) int {
	start := time.Now()
	work, err := os.MkdirTemp("", "spagoverif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)

	known := loadKnown(filepath.Join(root, "known_findings.json"), p.ID)
	var keys []string
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	os.Setenv("SPAGOVERIF_KNOWN", strings.Join(keys, "\n"))

	type job struct {
		ph    *Phase
		shard int
		n     int
		out   childRun
	}
	var jobs []*job
	for i := range p.Phases {
		ph := &p.Phases[i]
		if ph.ThoroughOnly && tier != "thorough" {
			continue
		}
		if onlyPhase != "" && ph.Name != onlyPhase {
			continue
		}
		n := ph.Shards
		if n < 1 {
			n = 1
		}
		if only != "" {
			n = 1
		}
		for s := 0; s < n; s++ {
			jobs = append(jobs, &job{ph: ph, shard: s, n: n})
		}
	}
	par := runtime.NumCPU()
	var slow atomic.Bool // a violation is known, and shards take minutes: enough
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, j *job) {
			defer wg.Done()
			defer func() { <-sem }()
			if slow.Load() {
				return
			}
			defer func() {
				if len(j.out.failures) > 0 && time.Since(start) > 2*time.Minute {
					for _, f := range j.out.failures {
						if _, ok := known[f.Key]; !ok && only == "" && tier != "thorough" {
							slow.Store(true)
						}
					}
				}
			}()
			j.out = runShard(p, j.ph, tier, seed, j.shard, j.n, only, bin, filepath.Join(work, fmt.Sprintf("j%d", i)))
		}(i, j)
	}
	wg.Wait()

	// merge
	total := Result{Events: map[string]int64{}}
	sigs := map[uint64]struct{}{}
	perPhase := map[string]map[string]any{}
	phaseEvents := map[string]map[string]int64{}
	var failures []Failure
	var errs []string
	for _, j := range jobs {
		r := &j.out.res
		total.Cases += r.Cases
		total.Evaluations += r.Evaluations
		total.Checks += r.Checks
		for _, s := range r.Sigs {
			sigs[s] = struct{}{}
		}
		pe := phaseEvents[j.ph.Name]
		if pe == nil {
			pe = map[string]int64{}
			phaseEvents[j.ph.Name] = pe
		}
		for k, v := range r.Events {
			total.Events[k] += v
			pe[k] += v
		}
		pp := perPhase[j.ph.Name]
		if pp == nil {
			pp = map[string]any{"variant": variantOf(j.ph), "shards": j.n, "cases": int64(0), "executions": int64(0), "oracle_checks": int64(0)}
			if len(j.ph.Env) > 0 {
				pp["env"] = strings.Join(j.ph.Env, " ")
			}
			perPhase[j.ph.Name] = pp
		}
		pp["cases"] = pp["cases"].(int64) + r.Cases
		pp["executions"] = pp["executions"].(int64) + r.Evaluations
		pp["oracle_checks"] = pp["oracle_checks"].(int64) + r.Checks
		for i, s := range r.Samples {
			if (i >= len(r.Samples)-2 || len(jobs) < 8) && len(total.Samples) < 16 {
				total.Samples = append(total.Samples, j.ph.Name+": "+s)
			}
		}
		failures = append(failures, j.out.failures...)
		errs = append(errs, j.out.errors...)
	}

	// verdict
	exit := 0
	knownHit := map[string]bool{}
	var fresh []Failure
	for _, f := range failures {
		if k, ok := known[f.Key]; ok {
			if !knownHit[f.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
			}
			knownHit[f.Key] = true
			continue
		}
		fresh = append(fresh, f)
	}
	if only == "" && onlyPhase == "" {
		for key, k := range known {
			if !knownHit[key] {
				// A listed finding that no longer shows is not an alarm.
				fmt.Printf("note: listed finding not observed in this run: property=%s %s\n", p.ID, k.What)
			}
		}
	}
	if len(fresh) > 0 {
		exit = 1
		rdir := filepath.Join(root, "replay")
		os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, p.ID+".json")
		b, _ := json.MarshalIndent(map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "failures": fresh,
			"replay": fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s -phase %s -only %s", root, seed, tier, p.ID, shq(fresh[0].Phase), shq(fresh[0].Case)),
		}, "", " ")
		os.WriteFile(rp, b, 0o644)
		seen := map[string]bool{}
		for _, f := range fresh {
			if seen[f.Key] || len(seen) >= 12 {
				continue
			}
			seen[f.Key] = true
			d := f.Detail
			if len(d) > 1500 {
				d = d[:1500] + "…"
			}
			fmt.Printf("--- phase=%s case=%s key=%s\n%s\n", f.Phase, f.Case, f.Key, d)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	}
	if only == "" && onlyPhase == "" && exit == 0 {
		for _, ph := range p.Phases {
			if ph.ThoroughOnly && tier != "thorough" {
				continue
			}
			for k, min := range ph.MinEvents {
				if phaseEvents[ph.Name][k] < min {
					errs = append(errs, fmt.Sprintf("phase %s observed %d events %q, expected at least %d", ph.Name, phaseEvents[ph.Name][k], k, min))
				}
			}
		}
		if total.Evaluations == 0 || total.Checks == 0 {
			errs = append(errs, "nothing was observed")
		}
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Printf("INCONCLUSIVE property=%s %s\n", p.ID, e)
		}
		if exit == 0 {
			exit = 2
		}
	}

	if only == "" && onlyPhase == "" {
		if len(total.Samples) == 0 {
			total.Samples = []string{"(none)"}
		}
		cov := map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(sigs),
			"rule":                p.Rule,
			"samples":             total.Samples,
			"oracle_checks":       total.Checks,
			"observed_events":     total.Events,
			"phases":              perPhase,
		}
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
			"coverage": cov, "wall_s": time.Since(start).Seconds(),
			"violations": len(fresh),
			"assumptions": []string{
				"held on the executions observed by this run only; paths the workloads never drive are not covered",
				"linux/amd64, Go toolchain of this sandbox; reference models in /verif/harness are trusted",
			},
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d executions, %d oracle checks, %d distinct, %d new failures, %d known, %.1fs\n", p.ID, tier, total.Cases, total.Evaluations, total.Checks, len(sigs), len(fresh), len(knownHit), time.Since(start).Seconds())
	return exit
}

func shq(s string) string { return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'" }

func loadKnown(path, prop string) map[string]Known {
	m := map[string]Known{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	var all struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, k := range all.Findings {
		if k.Property == prop && k.Status == "open" {
			m[k.Key] = k
		}
	}
	return m
}

// runShard runs one child, restarting it past cases that crash the process.
func runShard(p *Property, ph *Phase, tier string, seed int64, shard, shards int, only, bin, prefix string) (out childRun) {
	skip := []string{}
	for attempt := 0; attempt < 4; attempt++ {
		res, f, retry, e := runOnce(p, ph, tier, seed, shard, shards, only, bin, fmt.Sprintf("%s.%d", prefix, attempt), strings.Join(skip, ","))
		if res != nil {
			out.res = *res
			out.failures = append(out.failures, res.Failures...)
		}
		out.failures = append(out.failures, f...)
		if e != "" {
			out.errors = append(out.errors, e)
		}
		if retry < 0 || only != "" {
			return
		}
		skip = append(skip, strconv.Itoa(retry))
	}
	return
}

const (
	maxWall    = 780 * time.Second // whole child; firing is inconclusive
	maxCaseCPU = 150.0             // CPU seconds in one case (cases take milliseconds): livelock
	idleWall   = 40 * time.Second  // no CPU progress for this long: inspect the goroutines
)

func runOnce(p *Property, ph *Phase, tier string, seed int64, shard, shards int, only, bin, prefix, skip string) (*Result, []Failure, int, string) {
	outf, jf, racef := prefix+".out", prefix+".journal", prefix+".race"
	exe := filepath.Join(bin, variantOf(ph))
	args := []string{"-child", "-prop", p.ID, "-phase", ph.Name, "-tier", tier, "-seed", fmt.Sprint(seed),
		"-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards), "-journal", jf, "-out", outf, "-skip", skip}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 log_path="+racef)
	cmd.Env = append(cmd.Env, ph.Env...)
	var stderr tailBuffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return nil, nil, -1, "cannot start child: " + err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()

	readCase := func() (int, string) {
		b, err := os.ReadFile(jf)
		if err != nil {
			return -1, "?"
		}
		line := strings.TrimSpace(string(bytes.SplitN(b, []byte("\n"), 2)[0]))
		parts := strings.SplitN(line, "\t", 2)
		if len(parts) != 2 {
			return -1, line
		}
		n, _ := strconv.Atoi(parts[0])
		return n, parts[1]
	}

	start := time.Now()
	lastCase, lastCPU := -2, 0.0
	caseCPU := 0.0
	idleCPU, idleSince := 0.0, time.Now()
	var werr error
	verdict := ""
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			cpu := cpuSeconds(cmd.Process.Pid)
			n, _ := readCase()
			if n != lastCase {
				lastCase, lastCPU = n, cpu
			}
			caseCPU = cpu - lastCPU
			if cpu-idleCPU > 0.05 {
				idleCPU, idleSince = cpu, time.Now()
			}
			switch {
			case verdict != "":
				if time.Since(idleSince) > 2*idleWall {
					cmd.Process.Kill()
				}
			case caseCPU > maxCaseCPU:
				verdict = "livelock"
				cmd.Process.Kill()
			case time.Since(idleSince) > idleWall:
				verdict = "idle"
				idleSince = time.Now()
				cmd.Process.Signal(syscall.SIGQUIT)
			case time.Since(start) > maxWall:
				verdict = "watchdog"
				cmd.Process.Kill()
			}
		}
	}

	races := raceFailures(racef, ph, readCase)
	if verdict == "" && werr == nil {
		b, err := os.ReadFile(outf)
		if err == nil {
			var r Result
			if err = json.Unmarshal(b, &r); err == nil && r.Done {
				return &r, races, -1, ""
			}
		}
		// exit status 0 without a result: the code under test ended the process
	}
	idx, name := readCase()
	tail := stderr.String()
	mk := func(key, what string) []Failure {
		return append(races, Failure{Phase: ph.Name, Case: name, Index: idx, Key: key, Detail: what + "\n" + tail})
	}
	switch verdict {
	case "livelock":
		return nil, mk("livelock", fmt.Sprintf("the case consumed more than %.0f CPU-seconds without finishing", maxCaseCPU)), -1, "" // no more of the same
	case "watchdog":
		return nil, races, -1, fmt.Sprintf("watchdog: phase %s shard %d still running after %v (case %s)", ph.Name, shard, maxWall, name)
	case "idle":
		if dumpAllBlocked(tail) {
			return nil, mk("deadlock", "no goroutine can make progress: every goroutine is blocked"), idx, ""
		}
		return nil, races, -1, fmt.Sprintf("watchdog: phase %s shard %d idle (case %s)\n%s", ph.Name, shard, name, tail)
	}
	if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		return nil, races, -1, "harness error: " + tail
	}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		return nil, races, -1, fmt.Sprintf("child killed (memory?) in case %s", name)
	}
	if strings.Contains(tail, "all goroutines are asleep - deadlock!") {
		return nil, mk("deadlock", "deadlock: all goroutines are asleep"), idx, ""
	}
	return nil, mk("crash", fmt.Sprintf("the process ended unexpectedly (%v)", werr)), idx, ""
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

var goHead = regexp.MustCompile(`(?m)^goroutine (\d+)[^\[\n]* \[([^\]]*)\]:`)

func dumpAllBlocked(dump string) bool {
	n := 0
	for _, m := range goHead.FindAllStringSubmatch(dump, -1) {
		if m[1] == "0" {
			continue
		}
		st := m[2]
		switch {
		case strings.Contains(st, "finalizer"), strings.Contains(st, "GC "), strings.Contains(st, "force gc"), strings.Contains(st, "cleanup"), strings.Contains(st, "runtime."):
			continue
		}
		n++
		ok := false
		for _, s := range []string{"chan receive", "chan send", "select", "semacquire", "sync."} {
			if strings.HasPrefix(st, s) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return n > 0
}

var (
	raceFrame = regexp.MustCompile(`(?m)^  ([^\s(].*)\(\)?.*$`)
)

// raceFailures reads the race detector's log and reports each report once per
// pair of innermost frames that belong to the library.
func raceFailures(prefix string, ph *Phase, readCase func() (int, string)) []Failure {
	files, _ := filepath.Glob(prefix + ".*")
	var out []Failure
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			var frames []string
			for _, m := range raceFrame.FindAllStringSubmatch(blk, -1) {
				if strings.Contains(m[1], "nlpodyssey/spago") {
					frames = append(frames, m[1])
				}
				if len(frames) == 2 {
					break
				}
			}
			key := "race:" + strings.Join(frames, "|")
			if seen[key] {
				continue
			}
			seen[key] = true
			_, name := readCase()
			out = append(out, Failure{Phase: ph.Name, Case: name, Key: key, Detail: blk})
		}
	}
	return out
}

// tailBuffer keeps the head and the tail of what is written to it.
type tailBuffer struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if room := 64<<10 - len(t.head); room > 0 {
		k := min(room, len(p))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 64<<10 {
		t.tail = t.tail[len(t.tail)-32<<10:]
	}
	return n, nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.tail) == 0 {
		return string(t.head)
	}
	return string(t.head) + "\n…\n" + string(t.tail)
}
