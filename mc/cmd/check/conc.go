package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/core"
	"verif/ref"
)

// The checks in this file explore schedules (goroutines, timers, map iteration orders) of the real code, rewritten by cmd/instr
// so that all of its concurrency goes through mcrt; cmd/conc has the scenarios.

func init() {
	for _, id := range []string{"C03", "C12", "C19", "C20", "C25"} {
		id := id
		register(id, "model_checking", func(c *core.Ctx) {
			schedules(c, id, true)
			if kind := map[string]string{"C12": "filter", "C19": "script"}[id]; kind != "" {
				endless(c, kind)
			}
		})
	}
}

type concReport struct {
	Scenarios  int              `json:"scenarios"`
	Executions int              `json:"executions"`
	Steps      int              `json:"steps"`
	Points     int              `json:"points"`
	MaxPoints  int              `json:"max_points"`
	Deviating  int              `json:"deviating"`
	Samples    []string         `json:"samples"`
	Truncated  []string         `json:"truncated"`
	Classes    map[string]int64 `json:"classes"`
	Per        map[string]int   `json:"per"`
	Bounds     map[string]int   `json:"bounds"`
	Broken     string           `json:"broken"`
	Violation  *struct {
		Scenario, Schedule, What, Class string
	} `json:"violation"`
}

type concRun struct {
	rep      concReport
	ok       bool // there is a report
	code     int
	out      string
	timedOut bool
}

func runConc(bin string, limit time.Duration, args ...string) (r concRun) {
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "GOMEMLIMIT=3GiB")
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limitWriter{b: &stdout}, &limitWriter{b: &stderr}
	if err := cmd.Start(); err != nil {
		return concRun{out: err.Error(), code: -1}
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	r.timedOut = !timer.Stop()
	r.code = cmd.ProcessState.ExitCode()
	text := strings.TrimSpace(stdout.String())
	if i := strings.LastIndexByte(text, '\n'); r.code == 0 && json.Unmarshal([]byte(text[i+1:]), &r.rep) == nil {
		r.ok = true
	}
	r.out = stderr.String()
	if err != nil {
		r.out += "\n" + err.Error()
	}
	return r
}

func concShards(bin string, limit time.Duration, args ...string) []concRun {
	const n = 8
	runs := make([]concRun, n)
	var wg sync.WaitGroup
	for i := range runs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runs[i] = runConc(bin, limit, append(append([]string{}, args...), "-shard", strconv.Itoa(i), "-of", strconv.Itoa(n))...)
		}(i)
	}
	wg.Wait()
	return runs
}

func concEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func command(dir, name string, args ...string) error {
	cmd := exec.Command(name, args...)
	cmd.Dir, cmd.Env = dir, concEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s %s: %v: %s", name, strings.Join(args, " "), err, tail(string(out), 1500))
	}
	return nil
}

// noPools makes an overlay in which sync.Pool keeps nothing. Under the race detector it drops a fourth of what it gets, and what it
// gives out orders whatever was done before it was put back (by fmt, for instance): accesses which nothing else orders look ordered then.
func noPools(work string) string {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return ""
	}
	file := filepath.Join(strings.TrimSpace(string(root)), "src", "sync", "pool.go")
	b, err := os.ReadFile(file)
	const drops = "if runtime_randn(4) == 0 {"
	if err != nil || strings.Count(string(b), drops) != 1 {
		fmt.Fprintln(os.Stderr, "sync.Pool is left as it is")
		return ""
	}
	pool, overlay := filepath.Join(work, "pool.go"), filepath.Join(work, "overlay.json")
	j, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{file: pool}})
	if os.WriteFile(pool, []byte(strings.Replace(string(b), drops, "if true {", 1)), 0o644) != nil || os.WriteFile(overlay, j, 0o644) != nil {
		return ""
	}
	return overlay
}

// buildConc builds the driver against the rewritten and the plain sources.
func buildConc(work string, race bool) (inst, instRace, plain string, err error) {
	mc := filepath.Join(verifDir(), "mc")
	if _, e := os.Stat(mc); e != nil {
		mc = "/verif/mc"
	}
	if d := os.Getenv("MC_SRC"); d != "" {
		mc = d
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, e := os.ReadFile(filepath.Join(mc, f))
		if e != nil {
			return "", "", "", e
		}
		for _, kind := range []string{"plain", "inst"} {
			os.MkdirAll(filepath.Join(work, kind), 0o755)
			if e := os.WriteFile(filepath.Join(work, kind, f), b, 0o644); e != nil {
				return "", "", "", e
			}
		}
	}
	plain = filepath.Join(work, "conc-plain")
	var wg sync.WaitGroup
	var perr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		perr = command(mc, "go", "build", "-modfile="+filepath.Join(work, "plain", "go.mod"), "-o", plain, "./cmd/conc")
	}()
	defer func() {
		wg.Wait()
		if perr != nil {
			plain = ""
			if err == nil {
				err = perr
			}
		}
	}()
	mod, src := filepath.Join(work, "inst", "go.mod"), filepath.Join(work, "src")
	if err = command(mc, "go", "run", "-modfile="+filepath.Join(work, "plain", "go.mod"), "./cmd/instr", mod, src); err != nil {
		return
	}
	if err = command(mc, "go", "mod", "edit", "-replace", "github.com/andygello555/json-dom="+filepath.Join(src, "json-dom"),
		"-replace", "github.com/andygello555/gotils="+filepath.Join(src, "gotils"), "-replace", "github.com/robertkrimen/otto="+filepath.Join(src, "otto"), mod); err != nil {
		return
	}
	inst = filepath.Join(work, "conc")
	if err = command(mc, "go", "build", "-modfile="+mod, "-o", inst, "./cmd/conc"); err != nil {
		inst = ""
		return
	}
	if race {
		instRace = filepath.Join(work, "conc-race")
		args := []string{"build", "-race", "-gcflags=verif/mcrt/...=-race=false -l", "-modfile=" + mod, "-o", instRace, "./cmd/conc"}
		if overlay := noPools(work); overlay != "" {
			args = append([]string{"build", "-overlay=" + overlay}, args[1:]...)
		}
		if e := command(mc, "go", args...); e != nil {
			fmt.Fprintln(os.Stderr, "no race detector:", e)
			instRace = ""
		}
	}
	return
}

// schedules decides the property by exploring the schedules of its scenarios.
func schedules(c *core.Ctx, id string, race bool, more ...string) {
	work := os.Getenv("MC_WORK")
	if work == "" {
		var err error
		if work, err = os.MkdirTemp("", "conc."); err != nil {
			panic(err)
		}
		defer os.RemoveAll(work)
	}
	inst, instRace, plain, err := buildConc(work, race)
	if err != nil {
		fmt.Fprintln(os.Stderr, "the rewritten code does not build:", err)
		c.Truncated()
		c.Assume("the schedules could not be explored: " + tail(err.Error(), 400))
	}
	c.Rule("executions of closed scenarios (document, path or script, callbacks) on the real code, whose goroutines, channels, locks, clocks and map iterations all go through a controlled scheduler: all schedules with at most the stated number of deviations from the default one, depth first, each a different one; non-trivial: at least one deviation; states: decision points, transitions: scheduling steps; traces: the same scenarios on the unchanged code under the Go runtime, with the outcome compared")
	secs := []int{60, 40}
	if c.Thorough {
		secs = []int{330, 200}
	}
	if !race {
		secs = []int{40}
		if c.Thorough {
			secs = []int{150}
		}
	}
	broken := inst == ""
	if inst != "" {
		broken = explore(c, id, work, inst, secs[0], false) || broken
		if broken && plain != "" && hangs(c, id, plain) {
			return
		}
	}
	if instRace != "" {
		broken = explore(c, id, work, instRace, secs[1], true) || broken
	}
	for _, m := range more {
		if inst != "" {
			explore(c, m, work, inst, secs[0], false)
		}
	}
	if plain != "" {
		n := 1
		if broken {
			n = 5
		}
		conform(c, id, plain, n)
	}
}

// explore runs all shards and reports what they find; true: something about the machinery itself failed.
func explore(c *core.Ctx, id, work, bin string, seconds int, race bool) (broken bool) {
	args := []string{id, "-seconds", strconv.Itoa(seconds)}
	if c.Thorough {
		args = append(args, "-thorough")
	}
	limit := time.Duration(seconds+60) * time.Second
	kind := "plain"
	if race {
		kind = "race detector"
	}
	if id != c.ID {
		kind += " " + id
	}
	runs := concShards(bin, limit, args...)
	total := map[string]interface{}{}
	var sum concReport
	sum.Bounds, sum.Per = map[string]int{}, map[string]int{}
	var trunc []string
	for i, r := range runs {
		if !r.ok {
			broken = failed(c, id, work, bin, limit, race, args, i, r) || broken
			continue
		}
		if v := r.rep.Violation; v != nil {
			c.Violate(&core.Fail{Key: v.Scenario + " " + v.Class, What: fmt.Sprintf("scenario %q under the schedule %s: %s", v.Scenario, v.Schedule, v.What),
				Replay: map[string]interface{}{"scenario": v.Scenario, "schedule": v.Schedule, "build": kind,
					"run": fmt.Sprintf("conc %s -scenario %q -schedule %s", id, v.Scenario, v.Schedule)}})
		}
		if r.rep.Broken != "" {
			fmt.Fprintln(os.Stderr, "not a function of the schedule:", r.rep.Broken)
			c.Truncated()
			broken = true
		}
		sum.Executions += r.rep.Executions
		sum.Steps += r.rep.Steps
		sum.Points += r.rep.Points
		sum.Deviating += r.rep.Deviating
		if r.rep.MaxPoints > sum.MaxPoints {
			sum.MaxPoints = r.rep.MaxPoints
		}
		for k, v := range r.rep.Per {
			sum.Per[k] += v
		}
		for k, v := range r.rep.Bounds {
			sum.Bounds["at most "+k+" deviations"] += v
		}
		for k, v := range r.rep.Classes {
			total[k] = toInt(total[k]) + v
		}
		trunc = append(trunc, r.rep.Truncated...)
		for _, s := range r.rep.Samples {
			c.Sample(kind + ": " + s)
		}
	}
	if len(trunc) > 0 {
		c.Truncated()
		if len(trunc) > 20 {
			trunc = trunc[:20]
		}
		c.Extra(kind+": not finished in time", trunc)
	}
	c.Eval(int64(sum.Executions))
	c.Nontrivial(int64(sum.Deviating))
	c.States(int64(sum.Points))
	c.Transitions(int64(sum.Steps))
	if len(sum.Per) > 80 {
		sum.Per = nil
	}
	c.Extra(kind, map[string]interface{}{"executions": sum.Executions, "steps": sum.Steps, "decision points": sum.Points, "most decision points of an execution": sum.MaxPoints,
		"outcomes": total, "scenarios": sum.Per, "scenarios per bound (over all shards)": sum.Bounds})
	return broken
}

func toInt(v interface{}) int64 {
	n, _ := v.(int64)
	return n
}

// hung are scenarios of which an execution did not end and did not get to the scheduler.
var hung = M{}

// hangs runs these scenarios under the Go runtime; true if one of them does not end there either.
func hangs(c *core.Ctx, id, bin string) bool {
	for _, name := range ref.Keys(hung) {
		var last concRun
		n := 0
		for ; n < 2; n++ {
			if last = runConc(bin, 60*time.Second, id, "-free", "1", "-scenario", name); last.code != 3 {
				break
			}
		}
		if n == 2 {
			c.Violate(&core.Fail{Key: name + " hangs", What: fmt.Sprintf("scenario %q does not end under the Go runtime: %s", name, head(last.out, 1500)),
				Replay: map[string]interface{}{"scenario": name, "run": fmt.Sprintf("conc %s -free 1 -scenario %q", id, name)}})
			return true
		}
	}
	return false
}

// failed handles a shard without a report: a data race or a crash of the code under test, or a failure of the machinery.
func failed(c *core.Ctx, id, work, bin string, limit time.Duration, race bool, args []string, i int, first concRun) (broken bool) {
	if first.code == 3 {
		c.Truncated()
		for _, l := range strings.Split(first.out, "\n") {
			if strings.HasPrefix(l, "HANG ") {
				fmt.Fprintln(os.Stderr, "an execution does not end:", l[5:])
				hung[l[5:]] = true
			}
		}
		return true
	}
	if first.timedOut {
		c.Truncated()
		fmt.Fprintln(os.Stderr, "a shard did not end in time")
		return true
	}
	trace := filepath.Join(work, fmt.Sprintf("trace-%s-%v-%d", id, race, i))
	again := runConc(bin, limit, append(append([]string{}, args...), "-shard", strconv.Itoa(i), "-of", "8", "-trace", trace)...)
	if again.ok {
		fmt.Fprintln(os.Stderr, "a shard failed, but not again:", tail(first.out, 600))
		c.Truncated()
		return true
	}
	b, _ := os.ReadFile(trace)
	lines := strings.Split(string(b), "\n")
	if len(lines) < 2 {
		fmt.Fprintln(os.Stderr, "a shard failed at once:", tail(first.out, 600))
		c.Truncated()
		return true
	}
	scenario, schedule := lines[0], lines[1]
	once := runConc(bin, limit, id, "-scenario", scenario, "-schedule", schedule)
	what := "the process crashes"
	key := scenario + " crash"
	raced := func(r concRun) bool { return r.code == 66 || strings.Contains(r.out, "DATA RACE") }
	switch {
	case strings.Contains(again.out, "all goroutines are asleep") || strings.Contains(again.out, "mcrt: "):
		// something blocks which the scheduler does not know
		fmt.Fprintln(os.Stderr, "the scheduler does not know what blocks:", head(again.out, 600))
		c.Truncated()
		return true
	case raced(first) && raced(again):
		what, key = "data race", scenario+" race"
	case raced(first) != raced(again):
		fmt.Fprintln(os.Stderr, "a shard failed in two ways:", tail(first.out, 300), tail(again.out, 300))
		c.Truncated()
		return true
	}
	c.Violate(&core.Fail{Key: key, What: fmt.Sprintf("scenario %q under the schedule %s: %s: %s", scenario, schedule, what, head(again.out, 2500)),
		Replay: map[string]interface{}{"scenario": scenario, "schedule": schedule, "fails alone, too": !once.ok, "output": head(again.out, 6000),
			"run": fmt.Sprintf("conc %s -scenario %q -schedule %s", id, scenario, schedule)}})
	return false
}

// conform runs the scenarios on the unchanged code under the Go runtime: their outcomes must be allowed, too.
func conform(c *core.Ctx, id, bin string, n int) {
	runs := concShards(bin, 200*time.Second, id, "-free", strconv.Itoa(n))
	total := 0
	for i, r := range runs {
		if r.ok && r.rep.Violation == nil {
			total += r.rep.Executions
			continue
		}
		var last concRun
		bad := 0
		for k := 0; k < 3; k++ {
			if last = runConc(bin, 200*time.Second, id, "-free", strconv.Itoa(n), "-shard", strconv.Itoa(i), "-of", "8"); !last.ok || last.rep.Violation != nil {
				bad++
			}
		}
		if bad < 3 {
			fmt.Fprintln(os.Stderr, "a free run failed, but not always")
			continue
		}
		key, what := "free run", tail(last.out, 2000)
		if v := last.rep.Violation; v != nil {
			key, what = v.Scenario+" "+v.Class, v.What
		}
		c.Violate(&core.Fail{Key: key, What: "under the Go runtime: " + what, Replay: map[string]interface{}{"run": fmt.Sprintf("conc %s -free %d -shard %d -of 8", id, n, i), "output": head(last.out, 6000)}})
	}
	c.Traces(int64(total))
}
