package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"

	"verif/core"
	"verif/ref"
)

func init() { register("C32", "exploration", c32) }

// c32: everything has the same outcome each time.
func c32(c *core.Ctx) {
	// map orders and schedules are explored in the scenarios
	schedules(c, "C32", false, "C32parse")
	c.Rule("in addition, with the map orders which the Go runtime happens to choose: trees with scripts of every size up to n and with keys which look like something else, all scripts failing, printing or storing the keys they see, evaluated several times; objects of every size read by filters which look at their keys; the outcomes (document, error, output) are compared with each other")
	var mu sync.Mutex
	evalLog := func(d M) string {
		var log bytes.Buffer
		mu.Lock()
		defer mu.Unlock()
		js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = &log, &log
		defer func() { js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = io.Discard, io.Discard }()
		out, err := jom.Eval([]byte(ref.Canon(d)), false)
		return fmt.Sprint(string(out), err, log.String())
	}
	n, times := 8, 4
	if c.Thorough {
		n, times = 24, 8
	}
	repeat := func(key string, f func() string) {
		c.Eval(int64(times))
		c.Nontrivial(int64(times))
		c.Case(func() string { return key }, func() *core.Fail {
			want := f()
			for i := 1; i < times; i++ {
				if got := f(); got != want {
					return core.Failf(key, key, "%s: the outcome is %s one time and %s another time", key, head(want, 600), head(got, 600))
				}
			}
			return nil
		})
	}
	for i, t := range append(scaledTrees(n), likeTrees(c.Thorough)...) {
		kinds := []string{"throw 'from %d'", "console.log('from %d'); var s = ''; for (var k in json.trail) s += k; json.trail.x%d = s", "#%d"}
		for x, k := range kinds {
			if c.Expired() {
				return
			}
			if !c.Thorough && i%3 != x {
				continue
			}
			d, _ := fill(t, func(n int) V {
				if x == 2 {
					return fmt.Sprintf("#//!lang%d\ntext", n)
				}
				return "#//!js\n" + strings.ReplaceAll(k, "%d", fmt.Sprint(n))
			})
			repeat(fmt.Sprintf("%s in %s", k, ref.Canon(t)), func() string { return evalLog(d.(M)) })
		}
	}
	size := 40
	if c.Thorough {
		size = 200
	}
	c.Parallel(size, func(i int) {
		o := wideObject(i + 1)
		for _, p := range []string{"$.l[?(Object.keys(@)[0] === 'k0')]", "$.l[?((function () { for (var k in @) { return k } })() > 'k1')]", "$.l[0][?(nothing)]", "$.l[?(JSON.stringify(@) > 'x')]", "$.*"} {
			repeat(fmt.Sprintf("%s of an object of %d keys", p, i+1), func() string {
				ns, err := doc(M{"l": A{o, o}, "o": o}).JsonPathSelector(p)
				var vs A
				for _, n := range ns {
					vs = append(vs, n.Value)
				}
				return fmt.Sprint(ref.Canon(vs), err)
			})
		}
		for _, p := range []string{"$.*.a.q", "$.o.*.a.q.z", "$..a.q", "$.l[*].*.a.q"} {
			repeat(fmt.Sprintf("setting %s in an object of %d keys", p, i+1), func() string {
				j := doc(M{"l": A{o, o}, "o": o, "p": o})
				err := j.JsonPathSetter(p, M{"n": 1.0})
				return fmt.Sprint(canonOf(j), err)
			})
		}
	})
}
