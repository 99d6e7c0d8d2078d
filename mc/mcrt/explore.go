package mcrt

import (
	"fmt"
	"strconv"
	"strings"
	"unsafe"
)

type decision struct{ n, i int }

// control decides according to a prefix, then by default.
type control struct {
	prefix []decision
	trace  []decision
	broken string
}

func (c *control) decide(n int) int {
	if n <= 1 {
		return 0
	}
	i := 0
	if k := len(c.trace); k < len(c.prefix) {
		if c.prefix[k].n != n && c.prefix[k].n != 0 {
			if c.broken == "" {
				c.broken = fmt.Sprintf("decision %d has %d outcomes but had %d", k, n, c.prefix[k].n)
			}
		} else if c.prefix[k].i < n {
			i = c.prefix[k].i
		}
	}
	c.trace = append(c.trace, decision{n, i})
	return i
}

// Outcome is the end of an execution.
type Outcome struct {
	Crash    string   // a panic which nobody has caught
	Deadlock string   // the main goroutine cannot go on
	Spin     string   // the execution does not end
	Leaks    []string // goroutines which are blocked for good
	Now      int64    // the virtual time at the end
	Events   []Event
	Steps    int
	Points   int // decisions
	Schedule string
	Broken   string // the execution is not a function of its schedule: an error of the harness
}

// Bad describes what is wrong in general.
func (o *Outcome) Bad() string {
	switch {
	case o.Crash != "":
		return "crash: " + o.Crash
	case o.Deadlock != "":
		return "deadlock: " + o.Deadlock
	case o.Spin != "":
		return "does not end: " + o.Spin
	case len(o.Leaks) > 0:
		return "goroutines left: " + strings.Join(o.Leaks, "; ")
	}
	return ""
}

func schedule(trace []decision) string {
	var b strings.Builder
	run := 0
	for _, d := range trace {
		if d.i == 0 {
			run++
			continue
		}
		fmt.Fprintf(&b, "%d:%d,", run, d.i)
		run = 0
	}
	if b.Len() == 0 {
		return "default"
	}
	return strings.TrimSuffix(b.String(), ",")
}

// ParseSchedule is the inverse of Outcome.Schedule.
func ParseSchedule(s string) (prefix []decision) {
	if s == "default" || s == "" {
		return nil
	}
	for _, part := range strings.Split(s, ",") {
		x := strings.SplitN(part, ":", 2)
		run, _ := strconv.Atoi(x[0])
		i, _ := strconv.Atoi(x[1])
		for ; run > 0; run-- {
			prefix = append(prefix, decision{0, 0})
		}
		prefix = append(prefix, decision{0, i})
	}
	return prefix
}

// MaxSteps limits an execution.
var MaxSteps = 30000

// RunOnce runs the body under the given decisions.
func RunOnce(prefix []decision, body func()) (*Outcome, []decision) {
	e := &exec{ctl: &control{prefix: prefix}, doneCh: make(chan struct{}, 1), maxSteps: MaxSteps}
	ex = e
	g := &goroutine{id: 0, gate: make(chan struct{}), op: opStart{}}
	e.gs = append(e.gs, g)
	e.live++
	e.cur = g
	go e.body(g, body)
	syncOff()
	g.gate <- struct{}{}
	<-e.doneCh
	// end all goroutines which are left, one after another
	e.over, e.aborted = true, true
	for i := 0; i < len(e.gs); i++ {
		if o := e.gs[i]; !o.done {
			o.gate <- struct{}{}
			<-e.doneCh
		}
	}
	syncOn()
	hbAcquire(unsafe.Pointer(&e.hb[0]))
	ex = nil
	out := &Outcome{Crash: e.crash, Deadlock: e.deadlock, Spin: e.spin, Leaks: e.leaks, Now: e.now, Events: e.events,
		Steps: e.steps, Points: len(e.ctl.trace), Schedule: schedule(e.ctl.trace), Broken: e.ctl.broken}
	return out, e.ctl.trace
}

// Config bounds an exploration.
type Config struct {
	Bound int // deviations from the default decisions
	Shard int
	Of    int
	// Stop ends the exploration early (time limit)
	Stop func() bool
}

// Stats tells what was explored.
type Stats struct {
	Executions int
	Steps      int
	Points     int
	MaxPoints  int
	Complete   bool
}

// Explore runs the body under all schedules with at most the given number of deviations. The body is made anew for each
// execution. check is called after each execution; it returns false to stop.
func Explore(cfg Config, mk func(schedule func() string) func(), check func(*Outcome) bool) (st Stats) {
	if cfg.Of <= 0 {
		cfg.Of = 1
	}
	var prefix []decision
	for first := true; ; first = false {
		out, trace := RunOnce(prefix, mk(func() string { return schedule(prefix) }))
		if first && cfg.Shard != 0 {
			// the schedule without deviations belongs to the first shard
		} else {
			st.Executions++
			st.Steps += out.Steps
			st.Points += out.Points
			if out.Points > st.MaxPoints {
				st.MaxPoints = out.Points
			}
			if !check(out) {
				return st
			}
		}
		// the next schedule: the last decision which has another outcome within the bound
		cost := make([]int, len(trace)+1)
		for i, d := range trace {
			cost[i+1] = cost[i]
			if d.i != 0 {
				cost[i+1]++
			}
		}
		k := len(trace) - 1
		for ; k >= 0; k-- {
			d := trace[k]
			if d.i+1 >= d.n || cost[k]+1 > cfg.Bound {
				continue
			}
			// the position of the first deviation decides about the shard
			if cost[k] == 0 && k%cfg.Of != cfg.Shard {
				continue
			}
			break
		}
		if k < 0 {
			st.Complete = true
			return st
		}
		prefix = append(append([]decision{}, trace[:k]...), decision{trace[k].n, trace[k].i + 1})
		if cfg.Stop != nil && cfg.Stop() {
			return st
		}
	}
}
