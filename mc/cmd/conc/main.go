// Command conc explores the schedules of the scenarios of one property. It is built against sources which were rewritten by
// cmd/instr; built against the plain sources (flag -free) it runs the same scenarios under the real scheduler.
//
//	conc PROPERTY [-thorough] [-shard i -of n] [-seconds s] [-scenario name [-schedule s]] [-free n]
//
// The result is a JSON object on the last line of stdout.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/andygello555/json-dom/globals"

	"verif/mcrt"
)

// scenario is a closed concurrent program together with what must hold in each of its executions.
type scenario struct {
	name string
	// quick and thorough bound of the deviations from the default schedule
	bound [2]int
	// decisions of map iterations are explored, too
	orders bool
	// polls of the VM are scheduling points
	polls bool
	// the clock never passes the time at which somebody has to wake up, and each poll takes the given time
	exact bool
	tick  time.Duration
	// one of many: the scenarios themselves are distributed among the shards
	small bool
	// timers may expire at any point (otherwise time passes only if nothing else can go on)
	early bool
	// goroutines which are blocked in the end are no failure
	leaky bool
	// not explored with the race detector
	norace bool
	// the halting delay, 0: the usual one
	delay int
	mk    func() run
}

// start makes a new instance of the scenario.
func (s *scenario) start() run {
	began.Store(time.Now().UnixNano())
	current.Store(s.name)
	globals.HaltingDelay = usualDelay
	if s.delay > 0 {
		globals.HaltingDelay = s.delay
	}
	return s.mk()
}

// What runs since when.
var began atomic.Int64
var current atomic.Value

// watch ends the process if an execution does not end (and does not get to the scheduler, which would notice it).
func watch(limit time.Duration) {
	for {
		time.Sleep(time.Second / 2)
		if t := began.Load(); t > 0 && time.Since(time.Unix(0, t)) > limit {
			fmt.Fprintf(os.Stderr, "HANG %s\n", current.Load())
			os.Exit(3)
		}
	}
}

type run struct {
	body func()
	// judge gets what is wrong, "" if nothing is, and the class of the outcome
	judge func(o *mcrt.Outcome) (wrong string, class string)
}

type violation struct {
	Scenario string `json:"scenario"`
	Schedule string `json:"schedule"`
	What     string `json:"what"`
	Class    string `json:"class"`
}

type report struct {
	Scenarios  int            `json:"scenarios"`
	Executions int            `json:"executions"`
	Steps      int            `json:"steps"`
	Points     int            `json:"points"`
	MaxPoints  int            `json:"max_points"`
	Truncated  []string       `json:"truncated"`
	Deviating  int            `json:"deviating"`
	Samples    []string       `json:"samples"`
	Classes    map[string]int `json:"classes"`
	Per        map[string]int `json:"per"`
	Bounds     map[string]int `json:"bounds"`
	Violation  *violation     `json:"violation"`
	Broken     string         `json:"broken"`
	Race       bool           `json:"race"`
}

var scenarios = map[string][]scenario{}

func main() {
	prop := os.Args[1]
	fs := flag.NewFlagSet("conc", flag.ExitOnError)
	thorough := fs.Bool("thorough", false, "")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	seconds := fs.Float64("seconds", 60, "")
	only := fs.String("scenario", "", "")
	sched := fs.String("schedule", "", "")
	freeRuns := fs.Int("free", 0, "")
	bound := fs.Int("bound", -1, "")
	traceTo := fs.String("trace", "", "file which is told about each execution before it starts")
	verbose := fs.Bool("v", false, "")
	fs.Parse(os.Args[2:])
	free = *freeRuns > 0
	debug.SetGCPercent(400)
	go watch(30 * time.Second)
	mcrt.Verbose = *verbose
	var trace *os.File
	if *traceTo != "" {
		var err error
		if trace, err = os.Create(*traceTo); err != nil {
			panic(err)
		}
	}
	rep := &report{Classes: map[string]int{}, Per: map[string]int{}, Bounds: map[string]int{}, Race: mcrt.RaceBuild}
	defer func() {
		b, _ := json.Marshal(rep)
		fmt.Println()
		fmt.Println(string(b))
	}()
	start := time.Now()
	// the scenarios of this shard
	var list []*scenario
	for i := range scenarios[prop] {
		s := &scenarios[prop][i]
		if *only != "" && s.name != *only || mcrt.RaceBuild && s.norace || s.small && *sched == "" && i%*of != *shard || free && (s.tick > 0 || i%*of != *shard) {
			continue
		}
		list = append(list, s)
	}
	for i, s := range list {
		shard, of := *shard, *of
		if s.small {
			shard, of = 0, 1
		}
		rep.Scenarios++
		if free {
			for n := 0; n < *freeRuns; n++ {
				r := s.start()
				r.body()
				wrong, class := r.judge(nil)
				rep.Executions++
				rep.Classes[class]++
				if wrong != "" {
					rep.Violation = &violation{s.name, "free", wrong, class}
					return
				}
			}
			continue
		}
		b := s.bound[0]
		if *thorough {
			b = s.bound[1]
		}
		if *bound >= 0 {
			b = *bound
		}
		if mcrt.RaceBuild && b > 1 && !*thorough {
			b = 1
		}
		mcrt.ExactTime, mcrt.Tick = s.exact, int64(s.tick)
		mcrt.MapOrders, mcrt.QuietPolls, mcrt.LateTimers = s.orders, !s.polls, !s.early
		if *sched != "" {
			r := s.start()
			o, _ := mcrt.RunOnce(mcrt.ParseSchedule(*sched), r.body)
			wrong, class := judge(s, r, o)
			fmt.Printf("%s: %s (%s) at %v, %d points\n", s.name, wrong, class, time.Duration(o.Now), o.Points)
			for _, e := range o.Events {
				fmt.Println("  ", time.Duration(e.At), e.G, e.What)
			}
			if wrong != "" {
				rep.Violation = &violation{s.name, *sched, wrong, class}
			}
			continue
		}
		// every scenario may use its share of what is left of the time, but a little at least
		left := *seconds - time.Since(start).Seconds()
		share := left / float64(len(list)-i) * 5
		if share < 2 {
			share = 2
		}
		if share > left {
			share = left
		}
		end := time.Now().Add(time.Duration(share * float64(time.Second)))
		var cur run
		st0 := 0
		st := mcrt.Explore(mcrt.Config{Bound: b, Shard: shard, Of: of, Stop: func() bool { return time.Now().After(end) }},
			func(schedule func() string) func() {
				if trace != nil {
					line := s.name + "\n" + schedule() + "\n"
					trace.Truncate(int64(len(line)))
					trace.WriteAt([]byte(line), 0)
				}
				cur = s.start()
				return cur.body
			}, func(o *mcrt.Outcome) bool {
				if o.Broken != "" && rep.Broken == "" {
					rep.Broken = s.name + " " + o.Schedule + ": " + o.Broken
				}
				wrong, class := judge(s, cur, o)
				rep.Classes[class]++
				if o.Schedule != "default" {
					rep.Deviating++
				}
				if n := rep.Executions + st0; len(rep.Samples) < 3 && n%97 == 96 {
					rep.Samples = append(rep.Samples, fmt.Sprintf("%s under %s: %s at %v", s.name, o.Schedule, class, time.Duration(o.Now)))
				}
				st0++
				if wrong == "" {
					return true
				}
				// a schedule determines its execution, so it fails again
				for n := 0; n < 3; n++ {
					again := s.start()
					o2, _ := mcrt.RunOnce(mcrt.ParseSchedule(o.Schedule), again.body)
					if w, _ := judge(s, again, o2); w == "" {
						rep.Broken = s.name + " " + o.Schedule + ": " + wrong + ", but not again"
						return true
					}
				}
				rep.Violation = &violation{s.name, o.Schedule, wrong, class}
				return false
			})
		rep.Executions += st.Executions
		rep.Steps += st.Steps
		rep.Points += st.Points
		if !s.small {
			rep.Per[s.name] += st.Executions
		}
		rep.Bounds[strconv.Itoa(b)]++
		if st.MaxPoints > rep.MaxPoints {
			rep.MaxPoints = st.MaxPoints
		}
		if rep.Violation != nil {
			return
		}
		if !st.Complete {
			rep.Truncated = append(rep.Truncated, s.name)
		}
	}
	sort.Strings(rep.Truncated)
}

func judge(s *scenario, r run, o *mcrt.Outcome) (wrong, class string) {
	if o.Crash != "" || o.Deadlock != "" || o.Spin != "" {
		return o.Bad(), "bad"
	}
	wrong, class = r.judge(o)
	if wrong == "" && !s.leaky && len(o.Leaks) > 0 {
		return o.Bad(), "leak"
	}
	return wrong, class
}
