// Command check decides one property: check <ID>. The exploration runs in a child process, so that a crash of the code under
// test is seen as what it is.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/core"
)

type check struct {
	level string
	run   func(c *core.Ctx)
}

var checks = map[string]check{}

func register(id, level string, run func(c *core.Ctx)) { checks[id] = check{level, run} }

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	id := os.Args[1]
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
	}
	if len(os.Args) > 2 && os.Args[2] == "-case" {
		// one case in a process of its own (for cases which may kill the process)
		runSingleCase(os.Args[3:])
		return
	}
	if len(os.Args) > 2 && os.Args[2] == "-shard" {
		runShard(core.NewCtx(id, ck.level, verifDir()), os.Args[3:])
		return
	}
	if os.Getenv("MC_CHILD") == "1" {
		c := core.NewCtx(id, ck.level, verifDir())
		if f := os.Getenv("MC_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		ck.run(c)
		c.Done()
		return
	}
	os.Exit(supervise(id, ck))
}

// supervise runs the child. Exit 0 and 1 are its verdicts; anything else is a crash of the process by the code under test,
// which counts as a violation if it happens again.
func supervise(id string, ck check) int {
	limit := 840 * time.Second
	end := time.Now().Add(limit)
	var first string
	for attempt := 0; attempt < 2; attempt++ {
		code, log, killed := runChild(id, time.Until(end))
		if code == 0 || code == 1 {
			return code
		}
		if killed || strings.Contains(log, "signal: killed") {
			if killed || attempt == 1 {
				// out of time or memory: no verdict beyond what was explored
				inconclusive(id, ck, log)
				return 0
			}
			continue
		}
		if attempt == 0 {
			first = log
			fmt.Fprintln(os.Stderr, "the exploring process ended abnormally, running it again:", tail(log, 400))
			continue
		}
		h := sha256.Sum256([]byte(id + "crash"))
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, id+"-"+hex.EncodeToString(h[:6])+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "key": "process crash", "what": "the process was ended by the code under test, twice",
			"replay": map[string]interface{}{"first": head(first, 6000), "second": head(log, 6000)}}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Println(head(log, 3000))
		writeEv(id, ck, map[string]interface{}{"evaluations": 1, "distinct_nontrivial": 1, "rule": "process crash", "samples": []string{head(log, 500)},
			"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false}, 1)
		return 1
	}
	inconclusive(id, ck, first)
	return 0
}

func inconclusive(id string, ck check, log string) {
	fmt.Println("inconclusive: the exploration was cut off:", tail(log, 300))
	writeEv(id, ck, map[string]interface{}{"evaluations": 0, "distinct_nontrivial": 0, "rule": "cut off before the end", "samples": []string{tail(log, 300)},
		"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false}, 0)
}

func writeEv(id string, ck check, cov map[string]interface{}, violations int) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "seed": 1, "level": ck.level, "coverage": cov, "wall_s": 0, "violations": violations}, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644)
}

func runChild(id string, limit time.Duration) (code int, log string, killed bool) {
	if limit < time.Second {
		return -1, "out of time", true
	}
	cmd := exec.Command(os.Args[0], id)
	cmd.Env = append(os.Environ(), "MC_CHILD=1", "GOTRACEBACK=all", "GOMEMLIMIT=12GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var buf bytes.Buffer
	cmd.Stdout = io.MultiWriter(os.Stdout, &limitWriter{b: &buf})
	cmd.Stderr = &limitWriter{b: &buf}
	if err := cmd.Start(); err != nil {
		return -1, err.Error(), true
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			fmt.Fprintf(&buf, "\n%v\n", err)
		}
		return cmd.ProcessState.ExitCode(), buf.String(), false
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return -1, buf.String(), true
	}
}

type limitWriter struct{ b *bytes.Buffer }

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
