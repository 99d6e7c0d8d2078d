package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() {
	register("C15", "exploration", c15)
	register("C16", "exploration", c16)
}

// sink collects what the scripts of concurrently explored cases print: every message starts with @<case>: .
type sink struct {
	mu  sync.Mutex
	out map[string][]string
	n   atomic.Int64
}

var console = &sink{out: map[string][]string{}}

func (s *sink) Write(p []byte) (int, error) {
	for _, l := range bytes.Split(p, []byte("\n")) {
		t := strings.TrimLeft(string(l), "\t ")
		if strings.HasPrefix(t, "@") {
			if i := strings.IndexByte(t, ':'); i > 0 {
				s.mu.Lock()
				s.out[t[1:i]] = append(s.out[t[1:i]], t[i+1:])
				s.mu.Unlock()
			}
		}
	}
	return len(p), nil
}

func (s *sink) id() string { return strconv.FormatInt(s.n.Add(1), 10) }
func (s *sink) take(id string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.out[id]
	delete(s.out, id)
	return r
}

func init() { js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = console, io.Discard }

// site is an object of a document with scripts in it.
type site struct {
	scripts []int // in key order
	parent  int   // the nearest enclosing object with scripts, or -1
}

// sites numbers the markers of a tree as fill does and gives the objects which hold them.
func sites(v V) []site {
	var out []site
	n := 0
	type at struct {
		s  *[]int
		up int
	}
	var rec func(v V, up int)
	rec = func(v V, up int) {
		switch x := v.(type) {
		case M:
			me := -1
			for _, k := range ref.Keys(x) {
				if x[k] == marker && me < 0 {
					me = len(out)
					out = append(out, site{parent: up})
				}
			}
			down := up
			if me >= 0 {
				down = me
			}
			for _, k := range ref.Keys(x) {
				if x[k] == marker {
					out[me].scripts = append(out[me].scripts, n)
					n++
				} else {
					rec(x[k], down)
				}
			}
		case A:
			for _, e := range x {
				rec(e, up)
			}
		}
	}
	rec(v, -1)
	return out
}

// checkOrder: every script once, in key order within an object, outer objects first.
func checkOrder(tree V, n int, log []int) string {
	pos := make([]int, n)
	for i := range pos {
		pos[i] = -1
	}
	for i, x := range log {
		if x < 0 || x >= n || pos[x] >= 0 {
			return fmt.Sprintf("script %d ran twice: %v", x, log)
		}
		pos[x] = i
	}
	for i, p := range pos {
		if p < 0 {
			return fmt.Sprintf("script %d did not run: %v", i, log)
		}
	}
	ss := sites(tree)
	for _, s := range ss {
		for i := 1; i < len(s.scripts); i++ {
			if pos[s.scripts[i]] < pos[s.scripts[i-1]] {
				return fmt.Sprintf("scripts of one object ran out of key order: %v", log)
			}
		}
		if s.parent >= 0 {
			last := ss[s.parent].scripts[len(ss[s.parent].scripts)-1]
			if pos[s.scripts[0]] < pos[last] {
				return fmt.Sprintf("an inner script ran before an outer one: %v", log)
			}
		}
	}
	return ""
}

// noScripts: what remains when all scripts ran and had no effect.
func noScripts(t V) V {
	return refStrip(t, func(v V) bool { return v == marker })
}

// rootArray gives the same tree as an array root.
func scriptTrees(n int, maxArr int, keys ...string) []M {
	g := ref.Gen{Keys: keys, Scalars: []V{1.0, marker}, MaxArr: maxArr}
	var out []M
	for _, m := range g.Maps(n) {
		if strings.Contains(ref.Canon(m), ":\""+jsonOf(marker)) {
			out = append(out, m)
		}
	}
	return out
}

func jsonOf(s string) string { return strings.Trim(ref.Canon(s), "\"") }

func c15(c *core.Ctx) {
	schedules(c, "C15", false)
	c.Rule("all trees of at most n nodes with scripts at any subset of the leaves, evaluated with Go callbacks and with JavaScript scripts which log themselves: each runs exactly once, in key order within an object, outer objects first; afterwards exactly the data is left and a second evaluation runs nothing; also with scripts which put further objects with scripts into the document, and with callbacks which use the document API meanwhile; several evaluations per document meet different map orders; non-trivial: at least two scripts ran")
	n, nj := 7, 6
	if c.Thorough {
		n, nj = 8, 7
	}
	trees := scriptTrees(n, 2, "a", "b")
	trees = append(trees, scriptTrees(n-1, 2, "b", "B", "a0")...)
	trees = append(trees, scriptTrees(n-2, 3, "é", "~", "a.b", "")...)
	trees = append(append(scaledTrees(n*5), likeTrees(c.Thorough)...), trees...)
	c.Extra("trees_go", len(trees))
	c.Extra("nodes", n)
	apis := []func(j json_map.JsonMapInt){
		func(j json_map.JsonMapInt) {},
		func(j json_map.JsonMapInt) { j.FindScriptFields() },
		func(j json_map.JsonMapInt) { j.Clone(false).FindScriptFields(); j.Clone(true) },
		func(j json_map.JsonMapInt) { try(func() { j.MustGet("$.*") }); try(func() { j.MustGet("$..b") }) },
	}
	c.Parallel(len(trees), func(i int) {
		tree := trees[i]
		for v, api := range apis {
			if v > 0 && i%len(apis) != v {
				continue
			}
			runs := 2
			for _, wrap := range []bool{false, true} {
				var t V = tree
				if wrap {
					if v > 0 || i%2 == 0 && !c.Thorough {
						continue
					}
					t = M{"array": A{tree, 1.0, A{ref.Copy(tree)}}}
				}
				c.Eval(1)
				key := fmt.Sprintf("callbacks (%d) in %s", v, ref.Canon(t))
				c.Case(func() string { return key }, func() *core.Fail {
					for r := 0; r < runs; r++ {
						var log []int
						var mu sync.Mutex
						d, k := fill(t, func(n int) V {
							return func(j json_map.JsonMapInt) {
								mu.Lock()
								log = append(log, n)
								mu.Unlock()
								api(j)
							}
						})
						if k >= 2 && r == 0 {
							c.Nontrivial(1)
						}
						j := jom.NewFromMap(d.(M))
						j.Array = wrap
						if p := try(func() { j.Run() }); p != nil {
							return core.Failf(key, key, "%s: panics: %v", key, p)
						}
						mu.Lock()
						l := append([]int{}, log...)
						mu.Unlock()
						if s := checkOrder(t, k, l); s != "" {
							return core.Failf(key, key, "%s: %s", key, s)
						}
						w, _ := fill(noScripts(t), func(int) V { return nil })
						if g := canonOf(j); g != ref.Canon(w) {
							return core.Failf(key, key, "%s: leaves %s instead of %s", key, g, ref.Canon(w))
						}
						if p := try(func() { j.Run() }); p != nil {
							return core.Failf(key, key, "%s: the second run panics: %v", key, p)
						}
						if g := canonOf(j); g != ref.Canon(w) || len(log) != len(l) {
							return core.Failf(key, key, "%s: the second run gives %s, executed %v", key, g, log)
						}
					}
					return nil
				})
			}
		}
	})
	jtrees := scriptTrees(nj, 2, "a", "b")
	jtrees = append(jtrees, scriptTrees(nj-1, 2, "b", "B", "a0")...)
	jtrees = append(append(scaledTrees(nj*3), likeTrees(c.Thorough)...), jtrees...)
	c.Extra("trees_js", len(jtrees))
	logBody := func(id string, n int) string {
		return fmt.Sprintf("#//!js\nconsole.log('@%s:%d'); json.trail.log = (json.trail.log || '') + '%d;'", id, n, n)
	}
	parse := func(ss []string) (l []int) {
		for _, s := range ss {
			x, _ := strconv.Atoi(s)
			l = append(l, x)
		}
		return
	}
	withLog := func(t V) V {
		n := 0
		var rec func(v V) V
		rec = func(v V) V {
			switch x := v.(type) {
			case M:
				m := M{}
				log := ""
				for _, k := range ref.Keys(x) {
					if x[k] == marker {
						log += fmt.Sprintf("%d;", n)
						n++
					} else {
						m[k] = rec(x[k])
					}
				}
				if log != "" {
					m["log"] = log
				}
				return m
			case A:
				a := A{}
				for _, e := range x {
					a = append(a, rec(e))
				}
				return a
			}
			return v
		}
		return rec(t)
	}
	c.Parallel(len(jtrees), func(i int) {
		for _, wrap := range []bool{false, true} {
			var t V = jtrees[i]
			if wrap {
				if i%4 != 0 && !c.Thorough {
					continue
				}
				t = A{jtrees[i], 1.0, A{ref.Copy(jtrees[i])}}
			}
			c.Eval(1)
			key := "scripts in " + ref.Canon(t)
			c.Case(func() string { return key }, func() *core.Fail {
				id := console.id()
				d, k := fill(t, func(n int) V { return logBody(id, n) })
				if k >= 2 {
					c.Nontrivial(1)
				}
				out, err := jom.Eval([]byte(ref.Canon(d)), false)
				l := parse(console.take(id))
				if err != nil {
					return core.Failf(key, key, "%s: fails: %v", key, err)
				}
				if s := checkOrder(t, k, l); s != "" {
					return core.Failf(key, key, "%s: %s", key, s)
				}
				w, _ := fill(withLog(t), func(int) V { return nil })
				if g := ref.Canon(ref.Parse(string(out))); g != ref.Canon(w) {
					return core.Failf(key, key, "%s: gives %s instead of %s", key, g, ref.Canon(w))
				}
				out2, err := jom.Eval(out, false)
				if err != nil || ref.Canon(ref.Parse(string(out2))) != ref.Canon(w) || len(console.take(id)) != 0 {
					return core.Failf(key, key, "%s: the second evaluation gives %s, %v", key, out2, err)
				}
				return nil
			})
		}
	})
	// scripts which put objects with scripts into the document: these run too, once, later
	adds := []struct {
		stmt string
		t    func(id string) V // what is assigned to json.trail.<key>
	}{
		{"object", func(id string) V { return M{"s": logBody(id, 100)} }},
		{"nested", func(id string) V { return M{"o": M{"s": logBody(id, 100), "d": 1.0}, "s": logBody(id, 101)} }},
		{"array", func(id string) V { return A{M{"s": logBody(id, 100)}, A{M{"s": logBody(id, 101)}}} }},
	}
	small := scriptTrees(5, 2, "a", "b")
	c.Extra("trees_adding", len(small))
	for _, ad := range adds {
		for _, lang := range []string{"js", "go"} {
			ad, lang := ad, lang
			c.Parallel(len(small), func(i int) {
				t := small[i]
				ks := len(sites(t))
				for _, at := range sites(t) {
					which := at.scripts[len(at.scripts)-1] // the last script of an object does it
					c.Eval(1)
					key := fmt.Sprintf("%s: script %d adds %s in %s", lang, which, ad.stmt, ref.Canon(t))
					c.Case(func() string { return key }, func() *core.Fail {
						id := console.id()
						var log []int
						d, k := fill(t, func(n int) V {
							if lang == "js" {
								s := logBody(id, n)
								if n == which {
									s += "; json.trail.zz = " + ref.Canon(ad.t(id))
								}
								return s
							}
							return func(j json_map.JsonMapInt) {
								log = append(log, n)
								if n == which {
									var rec func(v V) V
									rec = func(v V) V {
										switch x := v.(type) {
										case M:
											for k := range x {
												x[k] = rec(x[k])
											}
										case A:
											for k := range x {
												x[k] = rec(x[k])
											}
										case string:
											no := 100
											if strings.Contains(x, ":101')") {
												no = 101
											}
											return func(json_map.JsonMapInt) { log = append(log, no) }
										}
										return v
									}
									j.MustSet("$.zz", rec(ad.t(id)))
								}
							}
						})
						j := jom.NewFromMap(d.(M))
						if p := try(func() { j.Run() }); p != nil {
							return core.Failf(key, key, "%s: panics: %v", key, p)
						}
						if lang == "js" {
							log = parse(console.take(id))
						}
						count := map[int]int{}
						pos := map[int]int{}
						for n, x := range log {
							count[x]++
							pos[x] = n
						}
						want := strings.Count(ref.Canon(ad.t(id)), "console")
						for x := 0; x < k; x++ {
							if count[x] != 1 {
								return core.Failf(key, key, "%s: script %d ran %d times", key, x, count[x])
							}
						}
						for x := 100; x < 100+want; x++ {
							if count[x] != 1 || pos[x] < pos[which] {
								return core.Failf(key, key, "%s: the added script %d ran %d times (%v)", key, x, count[x], log)
							}
						}
						if refHas(*j.GetInsides(), isAnyScript) {
							return core.Failf(key, key, "%s: scripts are left in %s", key, canonOf(j))
						}
						if ks > 1 {
							c.Nontrivial(1)
						}
						return nil
					})
				}
			})
		}
	}
	for _, i := range []int{5, len(trees) / 2, len(trees) - 1} {
		c.Sample(trees[i])
	}
}

func refHas(v V, is func(V) bool) bool {
	switch x := v.(type) {
	case M:
		for _, e := range x {
			if is(e) || refHas(e, is) {
				return true
			}
		}
	case A:
		for _, e := range x {
			if refHas(e, is) {
				return true
			}
		}
	}
	return false
}

// effect is something a script does to its scope.
type effect struct {
	name  string
	js    string
	f     func(m M) M
	alone bool // it may remove scripts next to it
}

func eachMember(m M, f func(v V) V) {
	for k := range m {
		m[k] = f(m[k])
	}
}

var effects = []effect{
	{"nothing", "", func(m M) M { return m }, false},
	{"add", "t.k = 7", func(m M) M { m["k"] = 7.0; return m }, false},
	{"delete a", "delete t.a", func(m M) M { delete(m, "a"); return m }, true},
	{"replace a", "t.a = [[{x: 1}], []]", func(m M) M { m["a"] = A{A{M{"x": 1.0}}, A{}}; return m }, true},
	{"clear", "Object.keys(t).forEach(function (k) { delete t[k] })", func(m M) M {
		for k := range m {
			delete(m, k)
		}
		return m
	}, true},
	{"members", "for (var k in t) { if (t[k] instanceof Array) t[k].push(9); else if (typeof t[k] === 'object' && t[k]) t[k].z = 9; else if (typeof t[k] === 'number') t[k]++ }", func(m M) M {
		eachMember(m, func(v V) V {
			switch x := v.(type) {
			case M:
				x["z"] = 9.0
			case A:
				return append(append(A{}, x...), 9.0)
			case float64:
				return x + 1
			}
			return v
		})
		return m
	}, false},
	{"replace all", "json.trail = {n: 1}", func(m M) M { return M{"n": 1.0} }, true},
	{"null", "t.k = null; t.n = [null, {}]", func(m M) M { m["k"] = nil; m["n"] = A{nil, M{}}; return m }, false},
}

func init() {
	// instanceof works on arrays of the trail only if they are arrays of the same VM
	for i := range effects {
		effects[i].js = strings.ReplaceAll(effects[i].js, "t[k] instanceof Array", "Object.prototype.toString.call(t[k]) === '[object Array]'")
	}
}

// expectRun gives the document after the run and what each script sees (scope path without dots before brackets, trail).
func expectRun(t M, isScript func(V) bool, id func(V) int, eff func(m M) M, seen map[int][2]string) M {
	var run func(m M, path string) M
	var arr func(a A, path string) A
	member := func(v V, path string) V {
		switch x := v.(type) {
		case M:
			return run(x, path)
		case A:
			return arr(x, path)
		}
		return v
	}
	arr = func(a A, path string) A {
		for i := range a {
			a[i] = member(a[i], fmt.Sprintf("%s[%d]", path, i))
		}
		return a
	}
	run = func(m M, path string) M {
		var ks []string
		for k, v := range m {
			if isScript(v) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		s := map[string]V{}
		for _, k := range ks {
			s[k] = m[k]
		}
		for _, k := range ks {
			seen[id(s[k])] = [2]string{path, ref.Canon(m)}
			m = eff(m)
			delete(m, k)
		}
		for k := range m {
			m[k] = member(m[k], path+"."+k)
		}
		return m
	}
	return run(t, "$")
}

func normPath(p string) string { return strings.ReplaceAll(p, ".[", "[") }

func c16(c *core.Ctx) {
	c.Rule("all trees of at most n nodes with scripts at any subset of the leaves, all scripts having one of the listed effects on their scope, as Go callbacks and as JavaScript scripts: the scope path and the whole content each one sees, and the whole document afterwards, are compared with the model; non-trivial: at least one script within an inner object ran")
	n, nj := 7, 6
	if c.Thorough {
		n, nj = 8, 7
	}
	trees := scriptTrees(n, 2, "a", "b")
	trees = append(trees, scriptTrees(n-2, 3, "a", "b", "c")...)
	jtrees := scriptTrees(nj, 2, "a", "b")
	jtrees = append(jtrees, scriptTrees(nj-1, 3, "a", "c")...)
	trees, jtrees = append(append(scaledTrees(n*3), likeTrees(c.Thorough)...), trees...), append(append(scaledTrees(nj*2), likeTrees(c.Thorough)...), jtrees...)
	c.Extra("trees_go", len(trees))
	c.Extra("trees_js", len(jtrees))
	c.Extra("effects", len(effects))
	alone := func(t V) bool {
		for _, s := range sites(t) {
			if len(s.scripts) > 1 {
				return false
			}
		}
		return true
	}
	type mark struct{ n int }
	compare := func(key string, seen map[int][2]string, got map[int][2]string, times int) *core.Fail {
		if len(seen) != len(got) || times != len(got) {
			return core.Failf(key, key, "%s: scripts seen %v (%d runs), expected %v", key, got, times, seen)
		}
		for i, s := range seen {
			if g := got[i]; normPath(g[0]) != s[0] || g[1] != s[1] {
				return core.Failf(key, key, "%s: script %d sees %s at %s, expected %s at %s", key, i, g[1], g[0], s[1], s[0])
			}
			if s[0] != "$" {
				c.Nontrivial(1)
			}
		}
		return nil
	}
	c.Parallel(len(trees), func(i int) {
		for ei, e := range effects {
			if e.alone && !alone(trees[i]) || (!c.Thorough && len(ref.Canon(trees[i])) > 60 && (i+ei)%3 != 0) {
				continue
			}
			for _, wrap := range []bool{false, true} {
				t := trees[i]
				if wrap {
					if (i+ei)%5 != 0 {
						continue
					}
					t = M{"array": A{2.0, trees[i], A{A{ref.Copy(trees[i])}}}}
					if i%2 == 0 {
						t["s"] = marker
					}
				}
				c.Eval(1)
				key := fmt.Sprintf("callback effect %s in %s", e.name, ref.Canon(t))
				c.Case(func() string { return key }, func() *core.Fail {
					got, times := map[int][2]string{}, 0
					d, _ := fill(t, func(n int) V {
						return func(j json_map.JsonMapInt) {
							got[n] = [2]string{j.GetCurrentScopePath(), ref.Canon(*j.GetInsides())}
							// A full clone is the same scope
							if k := j.Clone(false); k.GetCurrentScopePath() != got[n][0] || ref.Canon(*k.GetInsides()) != got[n][1] {
								got[n] = [2]string{k.GetCurrentScopePath() + " (clone)", ref.Canon(*k.GetInsides())}
							}
							times++
							*j.GetInsides() = e.f(*j.GetInsides())
						}
					})
					model, _ := fill(t, func(n int) V { return mark{n} })
					seen := map[int][2]string{}
					w := expectRun(model.(M), func(v V) bool { _, ok := v.(mark); return ok }, func(v V) int { return v.(mark).n }, e.f, seen)
					for i, s := range seen {
						s[1] = strings.ReplaceAll(s[1], "{}", "<func>") // a mark is an empty struct
						seen[i] = s
					}
					j := jom.NewFromMap(d.(M))
					j.Array = wrap
					if p := try(func() { j.Run() }); p != nil {
						return core.Failf(key, key, "%s: panics: %v", key, p)
					}
					for i, s := range got {
						s[1] = strings.ReplaceAll(s[1], "{}", "<func>")
						got[i] = s
					}
					if f := compare(key, seen, got, times); f != nil {
						return f
					}
					if g := canonOf(j); g != ref.Canon(w) {
						return core.Failf(key, key, "%s: gives %s instead of %s", key, g, ref.Canon(w))
					}
					return nil
				})
			}
		}
	})
	c.Parallel(len(jtrees), func(i int) {
		for ei, e := range effects {
			if e.alone && !alone(jtrees[i]) || (!c.Thorough && len(ref.Canon(jtrees[i])) > 50 && (i+ei)%3 != 0) {
				continue
			}
			for _, wrap := range []bool{false, true} {
				t := jtrees[i]
				if wrap {
					if (i+ei)%5 != 0 {
						continue
					}
					t = M{"array": A{2.0, jtrees[i], A{A{ref.Copy(jtrees[i])}}}}
					if i%2 == 0 {
						t["s"] = marker
					}
				}
				c.Eval(1)
				key := fmt.Sprintf("script effect %s in %s", e.name, ref.Canon(t))
				c.Case(func() string { return key }, func() *core.Fail {
					id := console.id()
					d, _ := fill(t, func(n int) V {
						return fmt.Sprintf("#//!js\nvar t = json.trail; console.log('@%s:%d:' + json.scopePath + ':' + JSON.stringify(t)); %s", id, n, e.js)
					})
					seen := map[int][2]string{}
					number := func(v V) int {
						f := strings.SplitN(strings.SplitN(v.(string), "@"+id+":", 2)[1], ":", 2)
						n, _ := strconv.Atoi(f[0])
						return n
					}
					isS := func(v V) bool { s, ok := v.(string); return ok && strings.Contains(s, "@"+id+":") }
					w := expectRun(ref.Copy(d).(M), isS, number, e.f, seen)
					j := doc(d.(M))
					j.Array = wrap
					p := try(func() { j.Run() })
					lines := console.take(id)
					if p != nil {
						return core.Failf(key, key, "%s: panics: %v", key, p)
					}
					got := map[int][2]string{}
					for _, l := range lines {
						f := strings.SplitN(l, ":", 3)
						n, _ := strconv.Atoi(f[0])
						got[n] = [2]string{f[1], ref.Canon(ref.Parse(f[2]))}
					}
					if f := compare(key, seen, got, len(lines)); f != nil {
						return f
					}
					if g := canonOf(j); g != ref.Canon(w) {
						return core.Failf(key, key, "%s: gives %s instead of %s", key, g, ref.Canon(w))
					}
					return nil
				})
			}
		}
	})
	for _, i := range []int{5, len(trees) / 2, len(trees) - 1} {
		c.Sample(trees[i])
	}
}
