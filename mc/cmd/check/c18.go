package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() {
	register("C18", "exploration", c18)
	singleCases["eval-recursion"] = func() string { return `{"s":"#//!js\nvar s = 'eval(s)'; eval(s)"}` }
	singleCases["self-replicating"] = func() string {
		return `{"a":{"s":"#//!js\njson.trail.a = {s: json.trail.s}"}}`
	}
	for name, script := range map[string]string{
		"cyclic log":            "var o = {}; o.o = {p: [o]}; console.log(o); console.error(o.o, [o])",
		"cyclic setValues":      "var o = {}; o.o = [o]; json.jsonPathSelector('$.a').setValues(o)",
		"getters without end":   "function f() { return {get a() { return f() }} } console.log(f())",
		"deep log":              "var t = []; for (var i = 0; i < 20000; i++) { t = [t] } console.log(t)",
		"deep setValues":        "var t = []; for (var i = 0; i < 20000; i++) { t = [t] } json.jsonPathSelector('$.a').setValues(t)",
		"very deep trail":       "var t = json.trail; for (var i = 0; i < 1000000; i++) { t.a = {}; t = t.a }",
		"very deep toString":    "var t = []; for (var i = 0; i < 1000000; i++) { t = [t] } '' + t",
		"very deep source":      "eval(new Array(1000001).join('('))",
		"very deep function":    "new Function(new Array(1000001).join('['))",
		"very deep JSON":        "JSON.parse(new Array(1000001).join('['))",
		"very deep path":        "json.jsonPathSelector('$' + new Array(20001).join('.a')).getValues()",
		"very deep filter":      "json.jsonPathSelector('$[?(' + new Array(1000001).join('(') + ')]').getValues()",
		"very deep brackets":    "json.jsonPathSelector('$' + new Array(1000001).join('[')).getValues()",
		"very deep prototypes":  "var t = {}; for (var i = 0; i < 1000000; i++) { t = Object.create(t) } t.x",
		"deep bind":             "var f = function () {}; for (var i = 0; i < 10000; i++) { f = f.bind() } f()",
		"very deep regexp":      "new RegExp(new Array(1000001).join('('))",
		"very deep regexp text": "/((((((((((a*)*)*)*)*)*)*)*)*)*b/.test(new Array(10001).join('a'))",
		"very long concat":      "var s = 'a'; for (var i = 0; i < 24; i++) { s += s } json.trail.s = s",
	} {
		text := ref.Canon(M{"s": "#//!js\n" + script})
		singleCases[name] = func() string { return text }
	}
	for name, f := range map[string]string{
		"calls": "(function f() { return f() })()", "two functions": "(function f(n) { return (function g() { return f(n + 1) })() })(0)", "getter": "({get a() { return this.a }}).a",
		"toString": "({toString: function () { return '' + this}}) + ''", "sort": "(function f() { return [2, 1].sort(f) })()", "apply": "(function f() { return f.apply(this, [@]) })()", "caught": "(function f() { try { return f() } catch (e) { return f() } })()",
	} {
		text := ref.Canon(M{"a": A{1.0, M{"b": 2.0}}, "s": "#//!js\nvar r = []; function g(s) { try { json.jsonPathSelector(s).getValues() } catch (e) { r.push(e.name) } } g('$.a[?(" + strings.ReplaceAll(f, "'", "\\'") + ")]'); json.trail.r = r"})
		singleCases["filter without end: "+name] = func() string { return text }
	}
	singleCases["deep arrays"] = func() string { return strings.Repeat("[", 1000) + strings.Repeat("]", 1000) }
	singleCases["deep objects"] = func() string { return strings.Repeat(`{"a":`, 1000) + "1" + strings.Repeat("}", 1000) }
	singleCases["deep open brackets"] = func() string { return strings.Repeat("[", 8000000) }
	singleCases["deep scripts"] = func() string {
		return strings.Repeat(`{"s":"#//!js\n","a":`, 300) + "1" + strings.Repeat("}", 300)
	}
	singleCases["deep trail"] = func() string {
		return `{"s":"#//!js\nvar t = json.trail; for (var i = 0; i < 20000; i++) { t.a = {}; t = t.a }"}`
	}
	singleCases["deep array"] = func() string {
		return `{"s":"#//!js\nvar t = []; for (var i = 0; i < 20000; i++) { t = [t] } json.trail.t = t"}`
	}
}

var singleCases = map[string]func() string{}

func runSingleCase(args []string) {
	if loopCase(args[0]) != nil {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
		runLoopCase(args[0])
		return
	}
	lim := uint64(6 << 30)
	if args[0] == "self-replicating" {
		lim = 2 << 30
	}
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	ballast = nil
	if args[0] == "very deep trail" {
		// so that it does not depend on the speed of the machine which comes first: the end of the loop or the halting delay
		globals.HaltingDelay = 1000
		debug.SetGCPercent(1000)
	}
	out, err := jom.Eval([]byte(singleCases[args[0]]()), false)
	if s := evalOutcome(out, err); s != "" {
		fmt.Println("BAD", head(s, 300))
		return
	}
	fmt.Println("RETURNED", err != nil)
}

// evalOutcome: what is wrong with a result of Eval.
func evalOutcome(out []byte, err error) string {
	if err == nil {
		if !json.Valid(out) {
			return fmt.Sprintf("no error, but the output %q is no JSON", head(string(out), 200))
		}
		return ""
	}
	if len(out) != 0 {
		return fmt.Sprintf("error %v together with the output %q", err, head(string(out), 200))
	}
	return ""
}

func single(c *core.Ctx, name string, limit time.Duration) *core.Fail {
	cmd := exec.Command(os.Args[0], "C18", "-case", name)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "MC_CHILD=")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var b bytes.Buffer
	cmd.Stdout = &limitWriter{b: &b}
	cmd.Stderr = &limitWriter{b: &b}
	if err := cmd.Start(); err != nil {
		return nil
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if s := b.String(); err != nil || !strings.Contains(s, "RETURNED") {
			return core.Failf(name, name, "%s: evaluating it ends the process or gives a wrong result: %v %s", name, err, head(s, 1500))
		}
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return core.Failf(name, name, "%s: evaluating it does not return within %v", name, limit)
	}
	return nil
}

type failure struct {
	name string
	js   string
	cb   func(j json_map.JsonMapInt)
	ok   bool // it does not fail after all (control)
}

func c18(c *core.Ctx) {
	c.Rule("Eval of all sequences of at most n pieces over the hjson alphabet, of all byte strings up to a length and of texts of every size up to a bound: valid JSON without error, or an error without output, never a panic; every kind of failure at every script position of small documents among other scripts, as script text through Eval and as callbacks through Run: the failure must be reported; inputs which may end the process run in a process of their own; non-trivial: inputs which are accepted or cases in which a script fails")
	// processes of their own, in the background
	names := []string{}
	for n := range singleCases {
		names = append(names, n)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 3)
	for _, n := range ref.Keys(func() M {
		m := M{}
		for _, n := range names {
			m[n] = nil
		}
		return m
	}()) {
		n := n
		wg.Add(1)
		c.Eval(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			limit := 100 * time.Second
			if c.IsKnown(n) {
				limit = 40 * time.Second
			}
			if f := single(c, n, limit); f != nil {
				// once more: a machine under load is no reason for an alarm
				if c.IsKnown(n) || single(c, n, 2*limit) != nil {
					c.Violate(f)
				}
			}
			c.Nontrivial(1)
		}()
	}
	c.Extra("own_process", names)
	pieces := []string{"{", "}", "[", "]", ":", ",", "\"", "'", "a", "1", "\n", " ", "#", "//", "/*", "*/", "\\", "-", ".", "'''", "null", "true", "e", "\"s\":\"#//!js\\n1\"", "\"s\":\"#//!js\\nthrow 1\"", "\"s\":\"#//!xx\\n\"", "\x00", "\xff", "\u2028", "\\u12"}
	n := 4
	if c.Thorough {
		n = 5
	}
	c.Extra("pieces", pieces)
	c.Extra("length", n)
	var outs sync.Map
	ev := func(s string) {
		c.Eval(1)
		c.Case(func() string { return fmt.Sprintf("%q", s) }, func() *core.Fail {
			var out []byte
			var err error
			if p := try(func() { out, err = jom.Eval([]byte(s), false) }); p != nil {
				return core.Failf(fmt.Sprintf("%q", s), s, "Eval(%q) panics: %v", s, p)
			}
			if w := evalOutcome(out, err); w != "" {
				return core.Failf(fmt.Sprintf("%q", s), s, "Eval(%q): %s", s, w)
			}
			if err == nil {
				if uerr := jom.New().Unmarshal([]byte(s)); uerr != nil {
					return core.Failf(fmt.Sprintf("%q", s), s, "Eval(%q) gives %s and no error, though it is malformed: %v", s, out, uerr)
				}
				c.Nontrivial(1)
				outs.Store(string(out), true)
			}
			return nil
		})
	}
	for l := 0; l <= n; l++ {
		l := l
		pl := l
		if pl > 2 {
			pl = 2
		}
		var pre [][]int
		words(len(pieces), pl, nil, func(w []int) bool { pre = append(pre, append([]int{}, w...)); return true })
		c.Parallel(len(pre), func(i int) {
			words(len(pieces), l, pre[i], func(w []int) bool {
				s := ""
				for _, x := range w {
					s += pieces[x]
				}
				ev(s)
				return !c.Expired()
			})
		})
	}
	// being verbose changes nothing but what is printed
	loud := []string{}
	for l := 0; l <= 3; l++ {
		words(len(pieces), l, nil, func(w []int) bool {
			s := ""
			for _, x := range w {
				s += pieces[x]
			}
			loud = append(loud, s)
			return true
		})
	}
	for _, one := range []string{"json.trail.x = 1", "throw 1", "(", "for (;;) break; delete json.trail.a", "console.log('%d', json.trail)", "json.trail = 1", "json.trail.n = null"} {
		b := ref.Canon("#//!js\n" + one)
		for _, t := range []string{`{"a":1,"s":%s}`, `[%s]`, `[{"s":%s}]`, `{"l":[[{"s":%s,"%%d":"%%s"}]]}`, `{"o":{"s":%s},"s":%[1]s}`} {
			loud = append(loud, fmt.Sprintf(t, b))
		}
	}
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		usual := os.Stdout
		os.Stdout = null
		c.Parallel(len(loud), func(i int) {
			s := loud[i]
			c.Eval(1)
			c.Case(func() string { return "verbose " + s }, func() *core.Fail {
				var out, vout []byte
				var err, verr error
				if p := try(func() { out, err = jom.Eval([]byte(s), false); vout, verr = jom.Eval([]byte(s), true) }); p != nil {
					return core.Failf("verbose "+s, s, "verbose Eval(%q) panics: %v", s, p)
				}
				if string(out) != string(vout) || fmt.Sprint(err) != fmt.Sprint(verr) {
					return core.Failf("verbose "+s, s, "Eval(%q) gives %s, %v, but when it is verbose %s, %v", s, out, err, vout, verr)
				}
				return nil
			})
		})
		os.Stdout = usual
		null.Close()
	}
	c.Extra("verbose texts", len(loud))
	// what can follow the beginning of an object or array, and everything cut off at every place
	for _, p := range []string{"{", "[", "{\"a\":", "{a:", "[1,", "{\n a: '''", "{\"a\":\"", "{\"a\":1}", "[]", "/*", "#"} {
		p := p
		m := 3
		c.Parallel(len(pieces), func(i int) {
			words(len(pieces), m, []int{i}, func(w []int) bool {
				s := p
				for _, x := range w {
					s += pieces[x]
				}
				ev(s)
				return !c.Expired()
			})
		})
	}
	whole := "{ /* c */ \"a\": [1, -2.5e3, null, true], # x\n b: '''m\n l''', 'c': {d: text without quotes\n e: \"\\u00e9\\n\"}, \"s\": \"#//!js\\njson.trail.x = [json.trail.a]\", // y\n f: [{\"t\": \"#//!js\\njson.trail.y = 1\"}, [\n]] }"
	for i := 0; i <= len(whole); i++ {
		ev(whole[:i])
		ev(whole[i:])
		for _, p := range pieces {
			ev(whole[:i] + p + whole[i:])
			if i < len(whole) {
				ev(whole[:i] + p + whole[i+1:])
			}
		}
	}
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
		ev(string(all[i : i+1]))
		ev("{\"a\":\"" + string(all[i:i+1]) + "\"}")
		ev("{a:" + string(all[i:i+1]) + "}")
		ev("[" + string(all[i:i+1]) + "]")
		for j := 0; j < 256; j++ {
			ev(string([]byte{byte(i), byte(j)}))
		}
	}
	// texts of every size
	size, deep := 200, 8
	if c.Thorough {
		size, deep = 1000, 60
	}
	c.Extra("size of texts", size)
	q3 := strings.Repeat("'", 3)
	reps := []struct{ pre, rep, post string }{{"", "[", ""}, {"", "{", ""}, {"{", "a", ":1}"}, {"{a:", "1", "}"}, {"{\"a\":\"", "x", "\"}"}, {"{a:" + q3, "x\n", q3 + "}"}, {"[", "1,", "2]"}, {"[", "[", ""}, {"{a:1", ",\n", "}"}, {"{", "/*", "}"}, {"{", "# x\n", "}"}, {"", "\n", "{}"}, {"{}", " ", ""}, {"{\"s\":\"#//!js\\n", "1;", "\"}"}, {"{\"s\":\"#//!js\\n", "(", "\"}"}, {"{\"s\":\"#//!js\\nthrow '", "x", "'\"}"}, {"{a:-", "9", "e9}"}, {"{a:0.", "9", "}"}, {"{\"a\":\"", "\\u00e9", "\"}"}, {"{\"a\":\"", "é", "\"}"}, {"{\"", "é\\\\", "\":[]}"}, {"", "{}", ""}, {"{a:", "'", "}"}, {"[", "{\"s\":\"#//!js\\n1\"},", "0]"}}
	c.Parallel(size, func(n int) {
		for _, r := range reps {
			if !c.Expired() {
				ev(r.pre + strings.Repeat(r.rep, n) + r.post)
			}
		}
		ev(strings.Repeat("[", n) + strings.Repeat("]", n))
		ev(strings.Repeat("[", n) + strings.Repeat("]", n+1))
		ev("{a:" + strings.Repeat("[", n) + strings.Repeat("]", n) + "}")
		ev(strings.Repeat("{a:", n) + "1" + strings.Repeat("}", n))
		ev(strings.Repeat("{a:[", n) + strings.Repeat("]}", n))
		ev(ref.Canon(wideObject(n)))
		ev(ref.Canon(longArray(n)))
	})

	// failures at every position
	fails := []failure{
		{name: "throw", js: "throw 1"}, {name: "throw object", js: "throw {a: 1}"}, {name: "throw null", js: "throw null"}, {name: "throw undefined", js: "throw undefined"}, {name: "throw error", js: "throw new Error('x')"},
		{name: "syntax error", js: "var = 1"}, {name: "unterminated", js: "if (true) {"}, {name: "unterminated string", js: "var x = 'a"}, {name: "reference error", js: "nothing.x"}, {name: "type error", js: "null.x"}, {name: "range error", js: "new Array(-1)"},
		{name: "no function", js: "json.trail()"}, {name: "thrown in a function", js: "function f() { g() } function g() { throw 'x' } f()"}, {name: "rethrown", js: "try { throw 1 } catch (e) { throw e }"}, {name: "thrown in finally", js: "try { 1 } finally { throw 2 }"},
		{name: "path error", js: "json.jsonPathSelector('$.nope.nope').getValues()"}, {name: "path syntax", js: "json.jsonPathSelector('nope')"}, {name: "set error", js: "json.jsonPathSelector('$.nope.nope').setValues(1)"}, {name: "filter error", js: "json.jsonPathSelector('$.*[?(nope)]').getValues()"},
		{name: "recursion", js: "function f() { f() } f()"}, {name: "mutual recursion", js: "function f() { g() } function g() { f() } f()"}, {name: "recursion by getter", js: "var o = {get a() { return this.a }}; o.a"}, {name: "recursion by toString", js: "var o = {toString: function () { return '' + this }}; '' + o"}, {name: "recursion by constructor", js: "function F() { new F() } new F()"}, {name: "recursion by apply", js: "function f() { f.apply(this, []) } f()"}, {name: "recursion by sort", js: "function f() { [2, 1].sort(f) } f()"}, {name: "recursion by replace", js: "function f() { return 'a'.replace('a', f) } f()"},
		{name: "trail no object", js: "json.trail = 5"}, {name: "trail null", js: "json.trail = null"}, {name: "json deleted", js: "json = undefined"}, {name: "stringify", js: "json.trail.toJSON = function () { throw 1 }"}, {name: "cyclic", js: "json.trail.c = json.trail"}, {name: "scope path", js: "json.scopePath = 5; console.log('x')"}, {name: "regexp", js: "new RegExp('(')"}, {name: "bad regexp literal", js: "/(/"},
		{name: "unsupported language", js: "\x01xx"}, {name: "go as text", js: "\x01go"},
		{name: "control: nothing", js: "1", ok: true}, {name: "control: caught", js: "try { throw 1 } catch (e) {}", ok: true}, {name: "control: caught path error", js: "try { json.jsonPathSelector('$.nope.nope').getValues() } catch (e) {}", ok: true}, {name: "control: caught recursion", js: "try { (function f() { f() })() } catch (e) {}", ok: true}, {name: "control: deep", js: "function f(n) { return n ? f(n - 1) : 0 } f(1000)", ok: true},
	}
	var nilMap map[string]int
	var nilPtr *int
	cbs := []failure{
		{name: "panic string", cb: func(json_map.JsonMapInt) { panic("x") }}, {name: "panic error", cb: func(json_map.JsonMapInt) { panic(errors.New("x")) }}, {name: "panic int", cb: func(json_map.JsonMapInt) { panic(0) }}, {name: "panic bool", cb: func(json_map.JsonMapInt) { panic(false) }}, {name: "panic struct", cb: func(json_map.JsonMapInt) { panic(struct{}{}) }}, {name: "panic slice", cb: func(json_map.JsonMapInt) { panic([]int{1}) }}, {name: "panic map", cb: func(json_map.JsonMapInt) { panic(map[string]int{}) }},
		{name: "nil map", cb: func(json_map.JsonMapInt) { nilMap["x"] = 1 }}, {name: "nil pointer", cb: func(json_map.JsonMapInt) { *nilPtr = 1 }}, {name: "index", cb: func(json_map.JsonMapInt) { a := []int{}; _ = a[len(a)] }}, {name: "type assertion", cb: func(j json_map.JsonMapInt) { _ = (*j.GetInsides())["nope"].(string) }}, {name: "close of nil", cb: func(json_map.JsonMapInt) { var ch chan int; close(ch) }},
		{name: "must get", cb: func(j json_map.JsonMapInt) { j.MustGet("$.nope") }}, {name: "must set", cb: func(j json_map.JsonMapInt) { j.MustSet("$.nope.nope", 1) }}, {name: "panic in defer", cb: func(json_map.JsonMapInt) { defer func() { panic(2) }(); panic(1) }}, {name: "panic func", cb: func(json_map.JsonMapInt) { panic(func() {}) }}, {name: "halting value", cb: func(json_map.JsonMapInt) { panic(globals.HaltingProblem) }},
		{name: "control: nothing", cb: func(json_map.JsonMapInt) {}, ok: true}, {name: "control: recovered", cb: func(json_map.JsonMapInt) { defer func() { recover() }(); panic(1) }, ok: true},
	}
	var fn []string
	for _, f := range append(append([]failure{}, fails...), cbs...) {
		fn = append(fn, f.name)
	}
	c.Extra("failures", fn)
	tn := 5
	if c.Thorough {
		tn = 6
	}
	trees := scriptTrees(tn, 2, "a", "b")
	if !c.Thorough {
		trees = scriptTrees(4, 2, "a", "b")
		for _, t := range scriptTrees(5, 2, "a", "b") {
			if n := strings.Count(ref.Canon(t), ":\""+jsonOf(marker)); n >= 2 {
				trees = append(trees, t)
			}
		}
	}
	trees = append(trees, M{"a": A{A{M{"b": marker}, marker}, M{"a": marker}}, "b": marker}, M{"array": A{M{"a": marker}, A{M{"b": M{"c": marker}}}}})
	small := len(trees)
	trees = append(append(trees, scaledTrees(deep)...), likeTrees(c.Thorough)...)
	c.Extra("trees", len(trees))
	// of large trees only some positions
	skip := func(i, at, k int) bool { return i >= small && at > 0 && at != k/2 && at != k-1 }
	c.Parallel(len(trees)*len(fails), func(i int) {
		t, f := trees[i/len(fails)], fails[i%len(fails)]
		_, k := fill(t, func(int) V { return nil })
		for at := 0; at < k && !c.Expired(); at++ {
			if skip(i/len(fails), at, k) {
				continue
			}
			at := at
			c.Eval(1)
			key := fmt.Sprintf("%s at script %d of %s", f.name, at, ref.Canon(t))
			c.Case(func() string { return key }, func() *core.Fail {
				d, _ := fill(t, func(n int) V {
					if n != at {
						return "#//!js\njson.trail.x" + fmt.Sprint(n) + " = 1"
					}
					if f.js[0] == 1 {
						return "#//!" + f.js[1:] + "\nx"
					}
					return "#//!js\n" + f.js
				})
				out, err := evalDoc(d.(M), d.(M)["array"] != nil)
				if (err == nil) != f.ok {
					return core.Failf(key, ref.Canon(d), "%s: Eval gives %s, error %v", key, out, err)
				}
				if w := evalOutcome([]byte(out), err); w != "" {
					return core.Failf(key, ref.Canon(d), "%s: %s", key, w)
				}
				c.Nontrivial(1)
				return nil
			})
		}
	})
	c.Parallel(len(trees)*len(cbs), func(i int) {
		t, f := trees[i/len(cbs)], cbs[i%len(cbs)]
		_, k := fill(t, func(int) V { return nil })
		for at := 0; at < k && !c.Expired(); at++ {
			if skip(i/len(cbs), at, k) {
				continue
			}
			at := at
			c.Eval(1)
			key := fmt.Sprintf("callback: %s at %d of %s", f.name, at, ref.Canon(t))
			c.Case(func() string { return key }, func() *core.Fail {
				d, _ := fill(t, func(n int) V {
					if n != at {
						return func(j json_map.JsonMapInt) {}
					}
					return f.cb
				})
				p := try(func() { jom.NewFromMap(d.(M)).Run() })
				if (p == nil) != f.ok {
					return core.Failf(key, key, "%s: Run panics: %v", key, p)
				}
				c.Nontrivial(1)
				return nil
			})
		}
	})
	wg.Wait()
	// programs which do not end. From here on nothing else runs, and the halting delay is short
	time.Sleep(100 * time.Millisecond)
	globals.HaltingDelay = 1
	loops := []failure{
		{name: "loop", js: "while (true) {}"}, {name: "for", js: "for (;;);"}, {name: "do", js: "do { } while (1)"}, {name: "loop in function", js: "(function () { while (true) {} })()"}, {name: "loop in try", js: "try { while (true) {} } catch (e) {}"}, {name: "loop around try", js: "while (true) { try { throw 1 } catch (e) {} }"}, {name: "loop in finally", js: "try { throw 1 } catch (e) {} finally { while (1); }"}, {name: "loop in comparator", js: "[3, 2, 1].sort(function () { while (true) {} })"}, {name: "loop in getter", js: "var o = {get a() { for (;;); }}; o.a"}, {name: "loop in toString", js: "'' + {toString: function () { while (true) {} }}"}, {name: "loop in replace", js: "'a'.replace(/a/, function () { while (true) {} })"}, {name: "loop in toJSON", js: "json.trail.toJSON = function () { while (true) {} }"}, {name: "loop in eval", js: "eval('while (true) {}')"}, {name: "loop with labels", js: "a: while (true) { while (true) { continue a } }"}, {name: "growing recursion", js: "function f() { f(); f() } while (true) { try { f() } catch (e) {} }"}, {name: "selecting", js: "while (true) { json.jsonPathSelector('$').getValues() }"},
	}
	lcbs := []failure{
		{name: "sleep", cb: func(json_map.JsonMapInt) { time.Sleep(5 * time.Second) }}, {name: "blocked", cb: func(json_map.JsonMapInt) { time.Sleep(3 * time.Second); panic("late") }}, {name: "loop", cb: func(json_map.JsonMapInt) {
			for s := time.Now(); time.Since(s) < 5*time.Second; {
			}
		}},
	}
	ltrees := []V{M{"s": marker}, M{"a": 1.0, "z": M{"s": marker}}, A{A{M{"s": marker}}}}
	var lwg sync.WaitGroup
	lsem := make(chan bool, c.Workers)
	lrun := func(key string, f func() *core.Fail) {
		lwg.Add(1)
		go func() {
			defer lwg.Done()
			lsem <- true
			defer func() { <-lsem }()
			c.Eval(1)
			c.Case(func() string { return key }, f)
			c.Nontrivial(1)
		}()
	}
	for ti, t := range ltrees {
		for li, f := range loops {
			if !c.Thorough && ti != li%len(ltrees) {
				continue
			}
			t, f := t, f
			key := fmt.Sprintf("%s in %s", f.name, ref.Canon(t))
			lrun(key, func() *core.Fail {
				d, _ := fill(t, func(int) V { return "#//!js\n" + f.js })
				start := time.Now()
				out, err := jom.Eval([]byte(ref.Canon(d)), false)
				if err == nil || len(out) != 0 || time.Since(start) > 25*time.Second {
					return core.Failf(key, key, "%s: Eval gives %s, error %v after %v", key, out, err, time.Since(start))
				}
				return nil
			})
		}
	}
	for _, t := range []M{{"s": marker}, {"z": A{M{"s": marker}}}} {
		for _, f := range lcbs {
			t, f := t, f
			key := fmt.Sprintf("callback %s in %s", f.name, ref.Canon(t))
			lrun(key, func() *core.Fail {
				d, _ := fill(t, func(int) V { return f.cb })
				if p := try(func() { jom.NewFromMap(d.(M)).Run() }); p == nil {
					return core.Failf(key, key, "%s: Run returns", key)
				}
				return nil
			})
		}
	}
	lwg.Wait()
	k := 0
	outs.Range(func(s, _ interface{}) bool { k++; return true })
	c.Extra("different_outputs", k)
	c.Sample(whole)
	c.Sample(trees[len(trees)-3])
}
