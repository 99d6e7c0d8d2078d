// Package core runs a check: it counts what was explored, supervises single cases, confirms failures by re-running them,
// separates known findings from violations, and writes the evidence file.
package core

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// stdout is where results go, also while os.Stdout is something else.
var stdout = os.Stdout

// Fail is a failing case. Key identifies it (for known findings), What says what is wrong, Replay is whatever is needed to
// see it again.
type Fail struct {
	Key    string
	What   string
	Replay interface{}
}

func Failf(key string, replay interface{}, format string, a ...interface{}) *Fail {
	return &Fail{Key: key, What: fmt.Sprintf(format, a...), Replay: replay}
}

type Ctx struct {
	ID, Tier, Level string
	Seed            int
	Thorough        bool
	Verif           string
	Start           time.Time
	Deadline        time.Time
	Workers         int
	MemLimit        uint64 // of the heap
	full            atomic.Bool

	evals, nontrivial          atomic.Int64
	states, transitions, trace atomic.Int64
	stop                       atomic.Bool
	truncated                  atomic.Bool

	mu          sync.Mutex
	samples     []interface{}
	outcomes    map[string]int64
	rule        []string
	assumptions []string
	extra       map[string]interface{}
	known       map[string]string
	printed     map[string]bool
	slots       []slot
	freeSlots   chan int
	unrepro     atomic.Int64

	cases   sync.RWMutex // read-locked by every running case
	pausing atomic.Bool
	hang    atomic.Int64 // seconds after which a case counts as hanging
	slowest atomic.Int64 // milliseconds
	slow    string
}

// Patient is called with true before, and with false after, a case which failed because of a time limit of the code under
// test is run again: it lengthens these limits.
var Patient = func(bool) {}

// IsTimeout tells whether the failure says that a time limit of the code under test was hit.
var IsTimeout = func(what string) bool { return strings.Contains(what, "nfinite loop") }

type slot struct {
	mu    sync.Mutex
	since time.Time
	desc  func() string
}

const hangAfter = 90 // seconds

func NewCtx(id, level, verif string) *Ctx {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 200 * time.Second
	if tier == "thorough" {
		budget = 690 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("MC_BUDGET")); err == nil && s > 0 {
		budget = time.Duration(s) * time.Second
	}
	c := &Ctx{ID: id, Tier: tier, Level: level, Seed: seed, Thorough: tier == "thorough", Verif: verif,
		Start: time.Now(), Deadline: time.Now().Add(budget), Workers: runtime.NumCPU(), MemLimit: 10 << 30,
		outcomes: map[string]int64{}, extra: map[string]interface{}{}, known: map[string]string{}, printed: map[string]bool{}}
	debug.SetMaxStack(400 << 20)
	c.hang.Store(hangAfter)
	c.loadKnown()
	c.slots = make([]slot, 64)
	c.freeSlots = make(chan int, len(c.slots))
	for i := range c.slots {
		c.freeSlots <- i
	}
	go c.watch()
	go c.memory()
	return c
}

// loadKnown reads the committed known findings: lines "known: property=<id> key=<key> :: <what fails>".
func (c *Ctx) loadKnown() {
	f, err := os.Open(filepath.Join(c.Verif, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<20)
	for s.Scan() {
		l := s.Text()
		p := "known: property=" + c.ID + " key="
		if strings.HasPrefix(l, p) {
			r := strings.SplitN(l[len(p):], " :: ", 2)
			w := ""
			if len(r) == 2 {
				w = r[1]
			}
			c.known[r[0]] = w
		}
	}
}

// IsKnown tells whether the case of the given key is a recorded finding.
func (c *Ctx) IsKnown(key string) bool { _, ok := c.known[key]; return ok }

func (c *Ctx) watch() {
	for {
		time.Sleep(time.Second)
		for i := range c.slots {
			s := &c.slots[i]
			s.mu.Lock()
			since, desc := s.since, s.desc
			s.mu.Unlock()
			if desc != nil && time.Since(since) > time.Duration(c.hang.Load())*time.Second {
				c.violation(&Fail{Key: "hang", What: fmt.Sprintf("does not return within %d s", c.hang.Load()), Replay: desc()})
			}
		}
	}
}

// memory watches the heap: evaluated scripts are kept alive by their halting timers for some seconds.
func (c *Ctx) memory() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(sample)
		if c.full.Load() || sample[0].Value.Uint64() > c.MemLimit {
			// what is no longer used counts until it is collected, and nobody allocates meanwhile
			runtime.GC()
			metrics.Read(sample)
			c.full.Store(sample[0].Value.Uint64() > c.MemLimit/4*3)
		}
	}
}

// Breathe waits while too much memory is in use (but not for ever: it might really be needed).
func (c *Ctx) Breathe() {
	for i := 0; c.full.Load() && i < 1500; i++ {
		time.Sleep(20 * time.Millisecond)
	}
}

func (c *Ctx) Expired() bool {
	c.Breathe()
	if c.stop.Load() {
		return true
	}
	if time.Now().After(c.Deadline) {
		c.truncated.Store(true)
		return true
	}
	return false
}

// Truncated marks the exploration as not exhaustive within its stated bounds.
func (c *Ctx) Truncated() { c.truncated.Store(true) }

func (c *Ctx) Eval(n int64)        { c.evals.Add(n) }
func (c *Ctx) Nontrivial(n int64)  { c.nontrivial.Add(n) }
func (c *Ctx) States(n int64)      { c.states.Add(n) }
func (c *Ctx) Transitions(n int64) { c.transitions.Add(n) }
func (c *Ctx) Traces(n int64)      { c.trace.Add(n) }
func (c *Ctx) Rule(s string)       { c.mu.Lock(); c.rule = append(c.rule, s); c.mu.Unlock() }
func (c *Ctx) Assume(s string)     { c.mu.Lock(); c.assumptions = append(c.assumptions, s); c.mu.Unlock() }
func (c *Ctx) Extra(k string, v interface{}) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

// Quiet runs f without what it would note about itself in the evidence.
func (c *Ctx) Quiet(f func()) {
	c.mu.Lock()
	keep := map[string]interface{}{}
	for k, v := range c.extra {
		keep[k] = v
	}
	c.mu.Unlock()
	f()
	c.mu.Lock()
	c.extra = keep
	c.mu.Unlock()
}

// Outcome counts a class of observed results (shown in the evidence, to make vacuous runs visible).
func (c *Ctx) Outcome(s string) { c.mu.Lock(); c.outcomes[s]++; c.mu.Unlock() }
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// guarded runs one case: a panic of the code under test which the case did not expect is a failure of the case.
func (c *Ctx) guarded(desc func() string, f func() *Fail) (fail *Fail) {
	si := <-c.freeSlots
	s := &c.slots[si]
	s.mu.Lock()
	s.since, s.desc = time.Now(), desc
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		s.desc = nil
		took := time.Since(s.since)
		s.mu.Unlock()
		c.freeSlots <- si
		if ms := took.Milliseconds(); ms > c.slowest.Load() {
			c.mu.Lock()
			if ms > c.slowest.Load() {
				c.slowest.Store(ms)
				c.slow = desc()
			}
			c.mu.Unlock()
		}
		if p := recover(); p != nil {
			fail = &Fail{Key: "panic " + desc(), What: fmt.Sprintf("panic: %v\n%s", p, debug.Stack()), Replay: desc()}
		}
	}()
	return f()
}

// Case runs one case and reports it if it fails reproducibly.
func (c *Ctx) Case(desc func() string, f func() *Fail) bool {
	if c.stop.Load() {
		return false
	}
	c.Breathe()
	for c.pausing.Load() && !c.stop.Load() {
		time.Sleep(5 * time.Millisecond)
	}
	c.cases.RLock()
	fail := c.guarded(desc, f)
	c.cases.RUnlock()
	if fail == nil {
		return true
	}
	if what, ok := c.known[fail.Key]; ok {
		c.knownFinding(fail.Key, what)
		return true
	}
	c.confirm(desc, f, fail)
	return false
}

func (c *Ctx) knownFinding(key, what string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.printed[key] {
		c.printed[key] = true
		fmt.Fprintf(stdout, "KNOWN-FINDING: property=%s %s (%s)\n", c.ID, what, key)
	}
}

func (c *Ctx) confirm(desc func() string, f func() *Fail, first *Fail) {
	confirming.Lock()
	defer confirming.Unlock()
	if IsTimeout(first.What) {
		// A time limit of the code under test: it counts only if it is hit every time, with nothing else running in this
		// process and with longer limits. (A case inside a case holds the lock of the outer one: the wait is bounded.)
		c.pausing.Store(true)
		defer c.pausing.Store(false)
		for i := 0; i < 400 && !c.stop.Load(); i++ {
			if c.cases.TryLock() {
				defer c.cases.Unlock()
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		c.hang.Store(4 * hangAfter)
		Patient(true)
		var last *Fail
		for i := 0; i < 4 && !c.stop.Load(); i++ {
			time.Sleep(time.Second)
			if last = c.guarded(desc, f); last == nil {
				break
			}
			if !IsTimeout(last.What) {
				break
			}
		}
		if last != nil && !IsTimeout(last.What) {
			// it fails in another way when it has more time
			Patient(false)
			c.confirmAgain(desc, f, last)
			return
		}
		Patient(false)
		c.hang.Store(hangAfter)
		if last == nil {
			c.unrepro.Add(1)
			fmt.Fprintf(os.Stderr, "out of time, but not when alone (ignored): %s: %s\n", desc(), first.What)
			return
		}
		last.What += " [also when run alone, with more time]"
		c.violation(last)
	}
	c.confirmAgain(desc, f, first)
}

func (c *Ctx) confirmAgain(desc func() string, f func() *Fail, first *Fail) {
	// A failure counts if it shows up again: 5 runs for a deterministic one, up to 300 for one which depends on the
	// randomness of map iteration or scheduling.
	again := 0
	var last *Fail
	for i := 0; i < 300 && !c.stop.Load(); i++ {
		if x := c.guarded(desc, f); x != nil {
			again++
			last = x
			if again >= 5 {
				break
			}
		}
		if again > 0 && i > 60 {
			break
		}
	}
	if again == 0 {
		c.unrepro.Add(1)
		fmt.Fprintf(os.Stderr, "not reproducible (ignored): %s: %s\n", desc(), first.What)
		return
	}
	last.What += fmt.Sprintf(" [reproduced %d times]", again)
	c.violation(last)
}

// Violate reports a failure which is deterministic by construction (a recorded schedule).
func (c *Ctx) Violate(f *Fail) {
	if what, ok := c.known[f.Key]; ok {
		c.knownFinding(f.Key, what)
		return
	}
	c.violation(f)
}

var violating, confirming sync.Mutex

func (c *Ctx) violation(f *Fail) {
	violating.Lock() // never released: the first violation ends the run
	c.stop.Store(true)
	h := sha256.Sum256([]byte(c.ID + f.Key + f.What))
	dir := filepath.Join(c.Verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.ID+"-"+hex.EncodeToString(h[:6])+".json")
	b, err := json.MarshalIndent(map[string]interface{}{"property": c.ID, "key": f.Key, "what": f.What, "replay": f.Replay}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%+v", f))
	}
	os.WriteFile(path, b, 0o644)
	fmt.Fprintf(stdout, "VIOLATION property=%s replay=%s\n", c.ID, path)
	w := f.What
	if len(w) > 3000 {
		w = w[:3000] + "..."
	}
	fmt.Fprintf(stdout, "  %s\n  key: %s\n", w, f.Key)
	c.write(1)
	os.Exit(1)
}

// Parallel runs f for all i in [0,n) on all cores until the deadline.
func (c *Ctx) Parallel(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !c.Expired() {
				i := next.Add(1) - 1
				if i >= int64(n) {
					return
				}
				f(int(i))
			}
		}()
	}
	wg.Wait()
}

// Done writes the evidence of a run without violations.
func (c *Ctx) Done() {
	c.write(0)
	fmt.Fprintf(stdout, "ok property=%s tier=%s evaluations=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n", c.ID, c.Tier,
		c.evals.Load(), c.states.Load(), c.transitions.Load(), !c.truncated.Load(), time.Since(c.Start).Seconds())
}

func (c *Ctx) write(violations int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]interface{}{}
	for k, v := range c.extra {
		cov[k] = v
	}
	cov["exhaustive"] = !c.truncated.Load() && violations == 0
	cov["samples"] = c.samples
	if c.samples == nil {
		cov["samples"] = []interface{}{}
	}
	cov["rule"] = strings.Join(c.rule, " | ")
	if len(c.outcomes) > 0 {
		ks := make([]string, 0)
		for k := range c.outcomes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		o := map[string]int64{}
		for i, k := range ks {
			if i < 60 {
				o[k] = c.outcomes[k]
			}
		}
		cov["outcomes"] = o
		cov["distinct_outcomes"] = len(c.outcomes)
	}
	cov["evaluations"] = c.evals.Load()
	cov["distinct_nontrivial"] = c.nontrivial.Load()
	if c.Level == "model_checking" {
		cov["states"] = c.states.Load()
		cov["transitions"] = c.transitions.Load()
		cov["traces_validated_against_impl"] = c.trace.Load()
	}
	cov["slowest_case_ms"] = c.slowest.Load()
	cov["slowest_case"] = c.slow
	if n := c.unrepro.Load(); n > 0 {
		cov["unreproducible_failures_ignored"] = n
	}
	ev := map[string]interface{}{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(c.Start).Seconds(), "violations": violations}
	if c.assumptions != nil {
		ev["assumptions"] = c.assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	dir := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	tmp := filepath.Join(dir, "."+c.ID+".tmp")
	os.WriteFile(tmp, append(b, '\n'), 0o644)
	os.Rename(tmp, filepath.Join(dir, c.ID+".json"))
}
