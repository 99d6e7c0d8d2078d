package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"verif/mcrt"
	"verif/mcrt/msync"
	"verif/ref"
)

// sleep is a pause of a callback: virtual time under the explorer.
func sleep(d time.Duration) {
	if mcrt.Active() {
		mcrt.Sleep(int64(d))
		return
	}
	time.Sleep(d)
}

// block never returns.
func block() {
	if mcrt.Active() {
		mcrt.Block()
		return
	}
	select {}
}

// fork runs f(0), …, f(n-1) concurrently and waits for them.
func fork(n int, f func(i int)) {
	if !mcrt.Active() {
		var wg sync.WaitGroup
		wg.Add(n)
		for i := 0; i < n; i++ {
			go func(i int) {
				defer wg.Done()
				f(i)
			}(i)
		}
		wg.Wait()
		return
	}
	var wg msync.WaitGroup
	wg.Add(n)
	for i := 0; i < n; i++ {
		i := i
		mcrt.Go(func() {
			defer wg.Done()
			f(i)
		})
	}
	wg.Wait()
}

// refValues compares the values of a read (as printed by nodeText) with those of the reference.
func refValues(text, path, got string) string {
	alts, err := ref.ParsePath(path)
	if err != nil {
		panic(err)
	}
	nodes, err := ref.Get(alts, ref.ParseM(text))
	if err != nil {
		if !strings.HasPrefix(got, "error") {
			return fmt.Sprintf("the result is %s, not an error (%v)", got, err)
		}
		return ""
	}
	if strings.HasPrefix(got, "error") {
		return "the read fails: " + got
	}
	var want []string
	for _, n := range nodes {
		want = append(want, ref.Canon(n.V))
	}
	var have []string
	for _, part := range strings.Split(got, "; ") {
		if i := strings.Index(part, "="); i >= 0 {
			have = append(have, part[i+1:])
		}
	}
	if strings.Join(want, "; ") != strings.Join(have, "; ") {
		return fmt.Sprintf("the values are %v, not %v", have, want)
	}
	return ""
}

// free: no schedules are explored, everything runs as usual.
var free bool

// solo runs f as the only one.
func solo(f func() string) (out string) {
	if free {
		return f()
	}
	o, _ := mcrt.RunOnce(nil, func() { out = f() })
	if bad := o.Bad(); bad != "" {
		return bad
	}
	return out
}
