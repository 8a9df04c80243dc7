// Command mc explores bounded spaces of inputs, operation sequences, fault
// points and schedules of GoSlice exhaustively and compares every execution of
// the real code with a reference model.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the registration of one property's check.
type Check struct {
	ID     string
	Level  string // exploration, fault_enumeration or model_checking
	Rule   string
	Assume []string
	Run    func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// violation is one failed case.
type violation struct {
	Property string   `json:"property"`
	Section  string   `json:"section"`
	Index    int      `json:"index"`
	Key      string   `json:"case"`
	Messages []string `json:"messages"`
	Repro    string   `json:"reproduced"`
	Rerun    string   `json:"rerun"`
}

// Ctx collects what one run of a check covers.
type Ctx struct {
	check    *Check
	tier     string
	seed     int
	deadline time.Time
	only     string // "section:index" restricts the run to one case (replay)

	mu        sync.Mutex
	evals     int64
	states    int64
	trans     int64
	traces    int64
	outcomes  map[uint64]struct{}
	nontriv   int64
	samples   []interface{}
	sections  []map[string]interface{}
	viol      []*violation
	capped    bool
	extra     map[string]interface{}
	liveMu    sync.Mutex
	live      map[int]*liveCase
	liveNext  int
	maxSample int
}

type liveCase struct {
	section string
	index   int
	start   time.Time
	t       *T
}

// T is the handle of one case.
type T struct {
	c       *Ctx
	section string
	index   int
	key     string
	msgs    []string
	out     uint64
	nontriv bool
	quiet   bool
}

// Thorough reports whether the deep tier runs.
func (c *Ctx) Thorough() bool { return c.tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func (c *Ctx) Pick(q, th int) int {
	if c.Thorough() {
		return th
	}
	return q
}

// Key names the case in a way that is stable under changes of the enumeration.
func (t *T) Key(format string, a ...interface{}) { t.key = fmt.Sprintf(format, a...) }

// Fail records that the case breaks the property.
func (t *T) Fail(format string, a ...interface{}) {
	if len(t.msgs) < 10 {
		t.msgs = append(t.msgs, fmt.Sprintf(format, a...))
	}
}

// Failed tells if the case has failed already.
func (t *T) Failed() bool { return len(t.msgs) > 0 }

// Outcome mixes the observed behaviour into the hash used to count distinct behaviours.
func (t *T) Outcome(a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, t.section, t.out)
	fmt.Fprint(h, a...)
	t.out = h.Sum64()
	t.nontriv = true
}

// States adds explored states and transitions.
func (t *T) States(s, tr int) {
	atomic.AddInt64(&t.c.states, int64(s))
	atomic.AddInt64(&t.c.trans, int64(tr))
}

// Traces adds traces which have been replayed against the implementation.
func (t *T) Traces(n int) { atomic.AddInt64(&t.c.traces, int64(n)) }

// Sample keeps one written-out case for the evidence.
func (t *T) Sample(v interface{}) {
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	if t.quiet {
		return
	}
	n := 0
	for _, s := range t.c.samples {
		if m, ok := s.(map[string]interface{}); ok && m["section"] == t.section {
			n++
		}
	}
	if n < 2 && len(t.c.samples) < 24 {
		t.c.samples = append(t.c.samples, map[string]interface{}{"section": t.section, "case": t.key, "data": v})
	}
}

// Extra puts one measured value into the evidence.
func (c *Ctx) Extra(k string, v interface{}) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

func (c *Ctx) runCase(section string, i int, f func(t *T, i int), quiet bool) (t *T) {
	t = &T{c: c, section: section, index: i, key: fmt.Sprint(i), quiet: quiet}
	c.liveMu.Lock()
	id := c.liveNext
	c.liveNext++
	c.live[id] = &liveCase{section, i, time.Now(), t}
	c.liveMu.Unlock()
	defer func() {
		c.liveMu.Lock()
		delete(c.live, id)
		c.liveMu.Unlock()
		if r := recover(); r != nil {
			where := ""
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if k := strings.Index(l, "/repo/"); k >= 0 && strings.Count(where, "\n") < 8 {
					where += "\n" + strings.TrimSpace(l)
				}
			}
			t.Fail("panic: %v%s", r, where)
		}
	}()
	f(t, i)
	return t
}

// Run explores the n cases of a section on all cores; every case is run.
func (c *Ctx) Run(section string, n int, f func(t *T, i int)) {
	c.run(section, n, runtime.NumCPU(), f)
}

// RunSerial explores the n cases one after another.
func (c *Ctx) RunSerial(section string, n int, f func(t *T, i int)) { c.run(section, n, 1, f) }

func (c *Ctx) run(section string, n, workers int, f func(t *T, i int)) {
	if c.only != "" {
		want := c.only
		for i := 0; i < n; i++ {
			if fmt.Sprintf("%s:%d", section, i) == want {
				t := c.runCase(section, i, f, false)
				c.finish(t)
			}
		}
		return
	}
	start := time.Now()
	var next int64 = -1
	var done, nviol int64
	var wg sync.WaitGroup
	var first [2]string
	local := make([]map[uint64]struct{}, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		local[w] = map[uint64]struct{}{}
		go func(w int) {
			defer wg.Done()
			for {
				if atomic.LoadInt64(&nviol) >= 5 || time.Now().After(c.deadline) {
					return
				}
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				t := c.runCase(section, i, f, false)
				atomic.AddInt64(&done, 1)
				if i < 2 {
					c.mu.Lock()
					first[i] = t.key
					c.mu.Unlock()
				}
				if t.nontriv {
					local[w][t.out] = struct{}{}
				}
				if t.Failed() {
					if !c.isKnown(t) {
						atomic.AddInt64(&nviol, 1)
					}
					// run it again: the same case has to fail the same way every time
					again := 0
					for k := 0; k < 4; k++ {
						if c.runCase(section, i, f, true).Failed() {
							again++
						}
					}
					c.addViolation(t, fmt.Sprintf("%d of 5 runs", again+1))
				}
			}
		}(w)
	}
	wg.Wait()
	distinct := map[uint64]struct{}{}
	for _, l := range local {
		for k := range l {
			distinct[k] = struct{}{}
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals += done
	for k := range distinct {
		c.outcomes[k] = struct{}{}
	}
	complete := int(done) == n
	sampled := false
	for _, s := range c.samples {
		if m, ok := s.(map[string]interface{}); ok && m["section"] == section {
			sampled = true
		}
	}
	for i := 0; !sampled && i < 2 && i < n && len(c.samples) < 40; i++ {
		c.samples = append(c.samples, map[string]interface{}{"section": section, "case": first[i]})
	}
	if !complete {
		c.capped = true
	}
	c.sections = append(c.sections, map[string]interface{}{
		"section": section, "cases": n, "run": done, "distinct_outcomes": len(distinct),
		"complete": complete, "seconds": float64(int(time.Since(start).Seconds()*100)) / 100,
	})
}

func (c *Ctx) finish(t *T) {
	c.evals++
	if t.Failed() {
		c.addViolation(t, "replayed")
	}
}

func (c *Ctx) addViolation(t *T, repro string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.viol = append(c.viol, &violation{
		Property: c.check.ID, Section: t.section, Index: t.index, Key: t.key, Messages: t.msgs, Repro: repro,
		Rerun: fmt.Sprintf("./run.sh %s --tier %s --only '%s:%d'", c.check.ID, c.tier, t.section, t.index),
	})
}

type knownFinding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Section  string `json:"section"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	seen     bool
}

var known []*knownFinding
var knownOnce sync.Once

func loadKnown() {
	knownOnce.Do(func() {
		b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
		if err != nil {
			return
		}
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	})
}

func (c *Ctx) isKnown(t *T) bool { return c.known(t.section, t.key) != nil }

func (c *Ctx) known(section, key string) *knownFinding {
	loadKnown()
	for _, k := range known {
		if k.Status == "known" && k.Property == c.check.ID && k.Section == section && k.Case == key {
			return k
		}
	}
	return nil
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func (c *Ctx) evidence(wall float64, nviol int) {
	cov := map[string]interface{}{}
	for k, v := range c.extra {
		cov[k] = v
	}
	cov["evaluations"] = c.evals
	cov["distinct_nontrivial"] = len(c.outcomes)
	cov["rule"] = c.check.Rule
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none recorded")
	}
	cov["samples"] = c.samples
	cov["sections"] = c.sections
	cov["exhaustive"] = !c.capped && c.only == ""
	if c.check.Level == "model_checking" {
		cov["states"] = c.states
		cov["transitions"] = c.trans
		cov["traces_validated_against_impl"] = c.traces
	}
	ev := map[string]interface{}{
		"property": c.check.ID, "tier": c.tier, "seed": c.seed, "level": c.check.Level,
		"coverage": cov, "wall_s": float64(int(wall*100)) / 100, "violations": nviol,
		"assumptions": append([]string{"bounds as listed under coverage.sections; values outside the enumerated alphabets are not covered"}, c.check.Assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", c.check.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// report prints the verdict and returns the exit code.
func (c *Ctx) report(start time.Time) int {
	sort.SliceStable(c.viol, func(i, j int) bool {
		if c.viol[i].Section != c.viol[j].Section {
			return c.viol[i].Section < c.viol[j].Section
		}
		return c.viol[i].Index < c.viol[j].Index
	})
	var fresh []*violation
	for _, v := range c.viol {
		if k := c.known(v.Section, v.Key); k != nil {
			if !k.seen {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s)\n", c.check.ID, k.What, v.Section, v.Key)
				k.seen = true
			}
			continue
		}
		fresh = append(fresh, v)
	}
	if c.only == "" {
		c.evidence(time.Since(start).Seconds(), len(fresh))
	}
	for _, s := range c.sections {
		fmt.Printf("  %-40v cases=%v run=%v distinct=%v complete=%v %vs\n", s["section"], s["cases"], s["run"], s["distinct_outcomes"], s["complete"], s["seconds"])
	}
	fmt.Printf("%s tier=%s evaluations=%d distinct=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n",
		c.check.ID, c.tier, c.evals, len(c.outcomes), c.states, c.trans, !c.capped, time.Since(start).Seconds())
	if len(fresh) == 0 {
		return 0
	}
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.check.ID+".json")
	b, _ := json.MarshalIndent(fresh, "", " ")
	os.WriteFile(path, b, 0o644)
	for _, v := range fresh {
		fmt.Printf("  case %s:%d %s (%s)\n", v.Section, v.Index, v.Key, v.Repro)
		for _, m := range v.Messages {
			fmt.Println("    " + strings.ReplaceAll(m, "\n", "\n    "))
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.check.ID, path)
	return 1
}

const caseLimit = 150 * time.Second
const heapLimit = 14 << 30

// watchdog turns a case which does not come back, or eats all memory, into a violation.
func (c *Ctx) watchdog(start time.Time) {
	for {
		time.Sleep(250 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		var worst *liveCase
		c.liveMu.Lock()
		for _, l := range c.live {
			if worst == nil || l.start.Before(worst.start) {
				worst = l
			}
		}
		c.liveMu.Unlock()
		if worst == nil {
			continue
		}
		what := ""
		if time.Since(worst.start) > caseLimit {
			what = fmt.Sprintf("the case has not come back after %v", caseLimit)
		} else if ms.HeapAlloc > heapLimit {
			what = fmt.Sprintf("the heap has grown to %d MB", ms.HeapAlloc>>20)
		}
		if what != "" {
			c.mu.Lock()
			c.viol = append(c.viol, &violation{Property: c.check.ID, Section: worst.section, Index: worst.index, Key: worst.t.key,
				Messages: []string{what}, Repro: "not repeated",
				Rerun: fmt.Sprintf("./run.sh %s --tier %s --only '%s:%d'", c.check.ID, c.tier, worst.section, worst.index)})
			c.capped = true
			c.mu.Unlock()
			os.Exit(c.report(start))
		}
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "helper" {
		os.Exit(helperMain(os.Args[2:]))
	}
	id := flag.String("check", "", "property id")
	tier := flag.String("tier", "", "quick or thorough (default $VERIF_TIER)")
	only := flag.String("only", "", "section:index of one case to replay")
	child := flag.Bool("child", false, "internal")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	ch := checks[*id]
	if ch == nil {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "unknown check; have", ids)
		os.Exit(2)
	}
	if !*child {
		os.Exit(supervise(*id, *tier, *only))
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	budget := 420 * time.Second
	if *tier == "thorough" {
		budget = 780 * time.Second
	}
	c := &Ctx{check: ch, tier: *tier, seed: seed, only: *only, deadline: time.Now().Add(budget),
		outcomes: map[uint64]struct{}{}, extra: map[string]interface{}{}, live: map[int]*liveCase{}}
	start := time.Now()
	go c.watchdog(start)
	ch.Run(c)
	os.Exit(c.report(start))
}

// supervise runs the check in a child process, so that an end of the process
// which the code under test forces (stack overflow, concurrent map access, os.Exit)
// is seen and reported as well.
func supervise(id, tier, only string) int {
	args := []string{"-child", "-check", id, "-tier", tier}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout = os.Stdout
	var tail tailBuf
	cmd.Stderr = &tail
	err := cmd.Run()
	if err == nil {
		return 0
	}
	ee, ok := err.(*exec.ExitError)
	if ok && ee.ExitCode() == 1 {
		return 1
	}
	s := string(tail.b)
	if strings.Contains(s, "fatal error: ") || strings.Contains(s, "goroutine stack exceeds") || strings.Contains(s, "\npanic: ") || strings.HasPrefix(s, "panic: ") {
		if !strings.Contains(s, "out of memory") {
			dir := filepath.Join(verifDir(), "replays")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, id+"-crash.txt")
			os.WriteFile(path, tail.b, 0o644)
			fmt.Println("the process under test was ended by the runtime:")
			if len(s) > 3000 {
				s = s[:3000]
			}
			fmt.Println(s)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			return 1
		}
	}
	fmt.Println(s)
	fmt.Println("the check did not finish:", err)
	return 2
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 1<<20 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
