package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	_ "github.com/andygello555/json-dom/code/go"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"

	"verif/mcrt"
	"verif/ref"
)

type M = map[string]interface{}
type A = []interface{}

func doc(text string) *jom.JsonMap {
	m := make(M)
	if err := json.Unmarshal([]byte(text), &m); err != nil {
		panic(err)
	}
	return jom.NewFromMap(m)
}

func canon(j json_map.JsonMapInt) string { return ref.Canon(*j.GetInsides()) }

var haltRe = regexp.MustCompile(`Infinite loop has occurred after: ([^,\s]+),`)

// halts gets the durations after which the halting errors within the text say they happened.
func halts(text string) (ds []time.Duration) {
	for _, m := range haltRe.FindAllStringSubmatch(text, -1) {
		if d, err := time.ParseDuration(m[1]); err == nil {
			ds = append(ds, d)
		}
	}
	return ds
}

// tooEarly tells whether the error is a halting error of something which has not been running for the delay.
func tooEarly(text string, delay time.Duration) bool {
	for _, d := range halts(text) {
		if d < delay {
			return true
		}
	}
	return false
}

func isHalt(text string) bool { return strings.Contains(text, "Infinite loop has occurred after") }

// The halting delays of the scenarios in seconds.
var usualDelay, otherDelay int

func init() {
	js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = io.Discard, io.Discard
	usualDelay, otherDelay = 4, 7
	if len(os.Args) > 2 && os.Args[2] == "-free" {
		// real seconds
		usualDelay, otherDelay = 2, 3
	}
	globals.HaltingDelay = usualDelay
	reads()
	filters()
	scripts()
	callbacks()
	documents()
	orders()
	same()
}

const (
	docA = `{"a":{"x":1,"y":[1,2,{"x":3}]},"b":[{"x":4},{"x":5,"y":{"x":6}}],"x":7}`
	docB = `{"x":[[{"x":1}],{"x":[2,3]}],"y":{"x":{"x":{"x":8}}},"z":[]}`
)

// nodeText is the result of a read: values and paths.
func nodeText(nodes []*json_map.JsonPathNode, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	var b strings.Builder
	for _, n := range nodes {
		fmt.Fprintf(&b, "%v=%s; ", n.Absolute, ref.Canon(n.Value))
	}
	return b.String()
}

func reads() {
	small := false
	add := func(text, path string, orders bool, bound [2]int) {
		want := ""
		scenarios["C03"] = append(scenarios["C03"], scenario{
			name: fmt.Sprintf("%s of %s orders=%v", path, text, orders), bound: bound, orders: orders, small: small, norace: small && !strings.Contains(path, ".."),
			mk: func() run {
				j := doc(text)
				before := canon(j)
				got := ""
				return run{
					body: func() { got = nodeText(j.JsonPathSelector(path)) },
					judge: func(*mcrt.Outcome) (string, string) {
						if want == "" {
							want = got
							// the values are those of the reference
							if w := refRead(text, path, got); w != "" {
								return w, "values"
							}
						}
						if got != want {
							return fmt.Sprintf("the result is %s in one execution and %s in another", want, got), "differs"
						}
						if after := canon(j); after != before {
							return "the read changes the document to " + after, "changed"
						}
						if strings.HasPrefix(got, "error") {
							return "", "error"
						}
						return "", "read"
					},
				}
			},
		})
	}
	for _, p := range []string{"$.b[0,1]", "$.b[1,0,1].x", "$.b[7,0,8]", "$.b[0,9].x", "$.*", "$...", "$.a.y[1:]", "$.b[0,1].x"} {
		add(docA, p, false, [2]int{2, 4})
	}
	for _, p := range []string{"$..x", "$..y", "$.b..x", "$.b[0,1]..x", "$..q"} {
		add(docA, p, false, [2]int{1, 2})
		add(docB, p, false, [2]int{1, 2})
	}
	add(docA, "$..y..x", false, [2]int{1, 2})
	add(docA, "$.b[?(@.x > 4)]", false, [2]int{1, 2})
	add(docA, "$.b[0,1][?(@ > 4)]", false, [2]int{1, 2})
	for _, p := range []string{"$.*", "$..x", "$...", "$.a.*", "$.*[0]", "$.b[0,1].*", "$.a[?(true)]"} {
		add(docA, p, true, [2]int{1, 2})
		add(docB, p, true, [2]int{1, 2})
	}
	// all small documents, schedules and map orders together
	small = true
	g := ref.Gen{Keys: []string{"x", "y"}, Scalars: []ref.V{1.0}, MaxArr: 2}
	var paths []string
	steps := []string{".x", ".*", "..x", "...", "[0]", "[0,1]", "[1:]", "[*]", "[?(@)]"}
	for _, a := range steps {
		paths = append(paths, "$"+a)
		for _, b := range steps {
			paths = append(paths, "$"+a+b)
		}
	}
	for _, d := range g.Maps(4) {
		for _, p := range paths {
			if _, err := ref.ParsePath(p); err == nil {
				add(ref.Canon(d), p, true, [2]int{1, 2})
			}
		}
	}
}

// refRead compares the values of a read with those of the reference; filters are left to other checks.
func refRead(text, path, got string) string {
	if strings.Contains(path, "?") {
		return ""
	}
	return refValues(text, path, got)
}

func filters() {
	const second = time.Second
	var tick time.Duration
	exact, vague := false, false
	limit := int64(second)
	add := func(name, text, path string, op string, infinite bool, expect string, bound [2]int) {
		exact, vague, limit, tick := exact, vague, limit, tick
		if exact {
			name += ", exact"
		}
		scenarios["C12"] = append(scenarios["C12"], scenario{
			name: name, bound: bound, polls: true, early: !exact, exact: exact, tick: tick, norace: name == "infinite in parallel",
			mk: func() run {
				j := doc(text)
				got := ""
				now := int64(0)
				return run{
					body: func() {
						defer func() { now = mcrt.Now() }()
						switch op {
						case "get":
							nodes, err := j.JsonPathSelector(path)
							if err != nil {
								got = "error: " + err.Error()
								return
							}
							var b strings.Builder
							for _, n := range nodes {
								b.WriteString(ref.Canon(n.Value) + ";")
							}
							got = b.String()
						case "set", "delete":
							var value interface{}
							if op == "set" {
								value = "new"
							}
							if err := j.JsonPathSetter(path, value); err != nil {
								got = "error: " + err.Error()
								return
							}
							got = canon(j)
						}
					},
					judge: func(o *mcrt.Outcome) (string, string) {
						switch {
						case isHalt(got):
							if tooEarly(got, second) {
								return "an element is failed by a timer before its halting delay has passed: " + got, "early"
							}
							if o != nil && now < int64(second) {
								return "the halting error without any halting delay having passed: " + got, "early"
							}
							if exact && !infinite && o != nil {
								return "an element which takes less than the halting delay is failed: " + got, "early"
							}
							if exact && o != nil && (tick == 0 && now != int64(second) || o.Schedule == "default" && now > limit) {
								return fmt.Sprintf("the halting error comes at %v", time.Duration(now)), "late"
							}
							return "", "halted"
						case vague && !exact && strings.HasPrefix(got, "error") && o != nil && now >= int64(second):
							// what follows an element which is failed fails, too
							return "", "halted"
						case infinite:
							return "an expression which never ends gives " + got, "infinite"
						case got != expect:
							return fmt.Sprintf("the result is %s, not %s", got, expect), "result"
						}
						return "", "finished"
					},
				}
			},
		})
	}
	add("one element", `{"a":[3]}`, "$.a[?(@ > 1)]", "get", false, "3;", [2]int{3, 5})
	add("two elements", `{"a":[1,3]}`, "$.a[?(@ > 1)]", "get", false, "3;", [2]int{3, 4})
	add("three elements", `{"a":[1,3,5]}`, "$.a[?(@ > 1)]", "get", false, "3;5;", [2]int{2, 3})
	add("object", `{"a":{"p":{"x":1},"q":{"x":2}}}`, "$.a[?(@.x == 2)]", "get", false, `{"x":2};`, [2]int{2, 3})
	add("constant", `{"a":[1,3]}`, "$.a[?(true)]", "get", false, "1;3;", [2]int{2, 3})
	add("empty", `{"a":[]}`, "$.a[?(true)]", "get", false, "", [2]int{2, 3})
	vague = true
	add("two filters", `{"a":[[1],[3]]}`, "$.a[?(true)][?(true)]", "get", false, "[1];[3];", [2]int{2, 3})
	vague = false
	add("parallel filters", `{"a":[[1,3],[5]]}`, "$.a[0,1][?(@ > 1)]", "get", false, "3;5;", [2]int{2, 3})
	add("path in filter", `{"a":[1,3],"b":2}`, "$.a[?(@ > $.b )]", "get", false, "3;", [2]int{2, 3})
	add("loop in filter", `{"a":[1,3]}`, "$.a[?((function(n){for(var i=0;i<3;i++){n+=i};return n>5})(@))]", "get", false, "3;", [2]int{2, 3})
	add("set", `{"a":[1,3]}`, "$.a[?(@ > 1)]", "set", false, `{"a":[1,"new"]}`, [2]int{2, 3})
	add("delete", `{"a":{"b":1,"c":3}}`, "$.a[?(@ > 1)]", "delete", false, `{"a":{"b":1}}`, [2]int{2, 3})
	loop := "(function(){while(true){}})()"
	add("infinite", `{"a":[1]}`, "$.a[?("+loop+")]", "get", true, "", [2]int{1, 2})
	add("infinite on the first element", `{"a":[1,2]}`, "$.a[?(@ == 1 ? "+loop+" : true)]", "get", true, "", [2]int{1, 1})
	add("infinite on the only key", `{"a":{"b":1}}`, "$.a[?("+loop+")]", "get", true, "", [2]int{1, 1})
	add("infinite delete", `{"a":{"b":1}}`, "$.a[?("+loop+")]", "delete", true, "", [2]int{1, 1})
	add("infinite on the second element", `{"a":[1,2]}`, "$.a[?(@ == 2 ? "+loop+" : true)]", "get", true, "", [2]int{1, 1})
	add("infinite in parallel", `{"a":[[1],[2]]}`, "$.a[0,1][?("+loop+")]", "get", true, "", [2]int{1, 1})
	add("infinite caught", `{"a":[1]}`, "$.a[?((function(){while(true){try{while(true){}}catch(e){}}})())]", "get", true, "", [2]int{1, 1})
	add("infinite set", `{"a":[1]}`, "$.a[?("+loop+")]", "set", true, "", [2]int{1, 1})
	add("infinite recursion with catch", `{"a":[1]}`, "$.a[?((function f(){while(true){(function(){return 1})()}})())]", "get", true, "", [2]int{1, 1})
	// the time is exact: nobody who is in time may be failed in any schedule, and nobody who is not may go on
	exact = true
	add("two elements", `{"a":[1,3]}`, "$.a[?(@ > 1)]", "get", false, "3;", [2]int{2, 3})
	add("parallel filters", `{"a":[[1,3],[5]]}`, "$.a[0,1][?(@ > 1)]", "get", false, "3;5;", [2]int{2, 3})
	add("two filters", `{"a":[[1],[3]]}`, "$.a[?(true)][?(true)]", "get", false, "[1];[3];", [2]int{2, 3})
	add("infinite", `{"a":[1]}`, "$.a[?("+loop+")]", "get", true, "", [2]int{1, 1})
	// many filters at once, each of which needs reads of its own to go on
	for _, n := range []int{3, 20, 70, 140} {
		var as, is, want []string
		for i := 0; i < n; i++ {
			as, is, want = append(as, fmt.Sprintf("[%d]", i)), append(is, fmt.Sprint(i)), append(want, fmt.Sprint(i)+";")
		}
		bound := [2]int{0, 0}
		// the clock of the scheduler goes on after many steps
		if exact = n < 10; exact {
			bound = [2]int{1, 2}
		}
		text := fmt.Sprintf(`{"a":[%s],"b":-1,"c":{"d":[%s]}}`, strings.Join(as, ","), strings.Join(as, ","))
		list := strings.Join(is, ",")
		add(fmt.Sprintf("%d filters with a path", n), text, "$.a["+list+"][?(@ > $.b )]", "get", false, strings.Join(want, ""), bound)
		add(fmt.Sprintf("%d filters with several paths", n), text, "$.a["+list+"][?(typeof $.c.d[0,1,2] == 'object' )]", "get", false, strings.Join(want, ""), bound)
		add(fmt.Sprintf("%d filters with a recursive lookup", n), text, "$.a["+list+"][?(@ < $..d.length || true )]", "get", false, strings.Join(want, ""), bound)
	}
	exact = true
	// each statement takes a while: each element is in time, all together are not
	tick = 20 * time.Millisecond
	slow := "(function(n){var x=1;x=2;x=3;x=4;return n>2})(@)"
	add("slow elements", `{"a":[1,3,5,7]}`, "$.a[?("+slow+")]", "get", false, "3;5;7;", [2]int{2, 3})
	add("slow elements of an object", `{"a":{"b":1,"c":3,"d":5,"e":7}}`, "$.a[?("+slow+")]", "get", false, "3;5;7;", [2]int{2, 3})
	add("slow and a path", `{"a":[1,3,5],"b":2}`, "$.a[?("+slow+" && @ > $.b )]", "get", false, "3;5;", [2]int{2, 3})
	add("slow set", `{"a":[1,3,5]}`, "$.a[?("+slow+")]", "set", false, `{"a":[1,"new","new"]}`, [2]int{2, 3})
	limit = 3 * int64(second)
	add("slow, then infinite", `{"a":[1,3,5]}`, "$.a[?(@ == 5 ? "+loop+" : "+slow+")]", "get", true, "", [2]int{1, 2})
	limit = int64(second) * 3 / 2
	add("much too slow", `{"a":[1]}`, "$.a[?((function(n){for(var i=0;i<50;i++){n+=i};return n>5})(@))]", "get", true, "", [2]int{0, 0})
}

func scripts() {
	units := 0
	delay := time.Duration(globals.HaltingDelay) * time.Second
	var tick time.Duration
	exact := false
	limit := int64(delay)
	add := func(name, text string, infinite bool, expect string, bound [2]int) {
		exact, limit, tick, delay := exact, limit, tick, delay
		if exact {
			name += ", exact"
		}
		scenarios["C19"] = append(scenarios["C19"], scenario{
			name: name, bound: bound, polls: true, early: !exact, exact: exact, tick: tick, delay: units, norace: name == "infinite in parallel",
			mk: func() run {
				got := ""
				now := int64(0)
				return run{
					body: func() {
						defer func() { now = mcrt.Now() }()
						out, err := jom.Eval([]byte(text), false)
						if err != nil {
							got = "error: " + err.Error()
						} else {
							got = ref.Canon(ref.Parse(string(out)))
						}
					},
					judge: func(o *mcrt.Outcome) (string, string) {
						switch {
						case isHalt(got):
							delay := delay
							if strings.Contains(name, "filter") {
								delay = time.Second
							}
							if tooEarly(got, delay) {
								return "a script is failed by a timer before its halting delay has passed: " + got, "early"
							}
							if o != nil && now < int64(delay) {
								return "the halting error without any halting delay having passed: " + got, "early"
							}
							if exact && !infinite && o != nil {
								return "a script which takes less than the halting delay is failed: " + got, "early"
							}
							if exact && o != nil && (tick == 0 && now != int64(delay) || o.Schedule == "default" && now > limit) {
								return fmt.Sprintf("the halting error comes at %v", time.Duration(now)), "late"
							}
							return "", "halted"
						case infinite:
							return "a script which never ends gives " + got, "infinite"
						case expect == "":
							if !strings.HasPrefix(got, "error") {
								return "a script which fails gives " + got, "result"
							}
							return "", "failed"
						case got != expect:
							return fmt.Sprintf("the result is %s, not %s", got, expect), "result"
						}
						return "", "finished"
					},
				}
			},
		})
	}
	js := func(lines string) string {
		b, _ := json.Marshal("#//!js\n" + lines)
		return string(b)
	}
	add("one script", `{"#":`+js("json.trail.a = 1")+`}`, false, `{"a":1}`, [2]int{2, 3})
	add("empty script", `{"#":`+js("")+`,"b":2}`, false, `{"b":2}`, [2]int{2, 3})
	add("two scripts", `{"#a":`+js("json.trail.a = 1")+`,"#b":`+js("json.trail.b = json.trail.a + 1")+`}`, false, `{"a":1,"b":2}`, [2]int{2, 3})
	add("nested scripts", `{"#":`+js("json.trail.a = 1")+`,"o":{"#":`+js("json.trail.b = 2")+`}}`, false, `{"a":1,"o":{"b":2}}`, [2]int{2, 3})
	add("scripts in an array", `{"l":[{"#":`+js("json.trail.a = 1")+`},{"#":`+js("json.trail.b = 2")+`}]}`, false, `{"l":[{"a":1},{"b":2}]}`, [2]int{2, 3})
	add("loop", `{"#":`+js("var n = 0; for (var i = 0; i < 3; i++) { n += i }; json.trail.a = n")+`}`, false, `{"a":3}`, [2]int{2, 3})
	add("node set", `{"a":{"b":1},"#":`+js("json.jsonPathSelector('$.a.b').setValues(2)")+`}`, false, `{"a":{"b":2}}`, [2]int{1, 1})
	add("try", `{"#":`+js("try { throw 1 } catch (e) { json.trail.a = e } finally { json.trail.b = 2 }")+`}`, false, `{"a":1,"b":2}`, [2]int{2, 3})
	add("throws", `{"#":`+js("throw new Error('no')")+`}`, false, "", [2]int{2, 3})
	add("throws after a script", `{"#a":`+js("json.trail.a = 1")+`,"#b":`+js("q()")+`}`, false, "", [2]int{2, 3})
	add("logs", `{"#":`+js("console.log(1); json.trail.a = 1; console.error(2)")+`}`, false, `{"a":1}`, [2]int{2, 3})
	add("native callbacks", `{"l":[3,1,2],"#":`+js("json.trail.l.sort(function(a, b) { return a - b }); json.trail.m = json.trail.l.map(function(x) { return x + 1 })")+`}`, false, `{"l":[1,2,3],"m":[2,3,4]}`, [2]int{2, 3})
	add("read with a filter", `{"l":[1,3],"#":`+js("json.trail.v = json.jsonPathSelector('$.l[?(@ > 1)]').getValues()")+`}`, false, `{"l":[1,3],"v":[3]}`, [2]int{2, 3})
	add("infinite filter", `{"l":[1,3],"#":`+js("json.trail.v = json.jsonPathSelector('$.l[?((function(){while(true){}})())]').getValues()")+`}`, false, "", [2]int{1, 1})
	add("infinite sort", `{"l":[3,1,2],"#":`+js("json.trail.l.sort(function(a, b) { while (true) {} })")+`}`, true, "", [2]int{1, 1})
	add("infinite getter", `{"#":`+js("var o = { get x() { for (;;); } }; json.trail.a = o.x")+`}`, true, "", [2]int{1, 1})
	add("infinite in catch", `{"#":`+js("try { throw 1 } catch (e) { while (true) {} }")+`}`, true, "", [2]int{1, 1})
	add("infinite labelled", `{"#":`+js("a: for (;;) { b: for (;;) { continue a } }")+`}`, true, "", [2]int{1, 1})
	add("infinite switch", `{"#":`+js("for (;;) { switch (1) { case 1: break } }")+`}`, true, "", [2]int{1, 1})
	add("infinite loop", `{"#":`+js("while (true) {}")+`}`, true, "", [2]int{1, 2})
	add("infinite for", `{"#":`+js("for (;;) json.trail.a = 1")+`}`, true, "", [2]int{1, 1})
	add("infinite with catch", `{"#":`+js("while (true) { try { while (true) {} } catch (e) {} }")+`}`, true, "", [2]int{1, 1})
	add("infinite in finally", `{"#":`+js("try { while (true) {} } finally { json.trail.b = 1 }")+`}`, true, "", [2]int{1, 1})
	add("infinite calls", `{"#":`+js("function f() { return 1 }; while (true) { f() }")+`}`, true, "", [2]int{1, 1})
	add("infinite after a finished script", `{"#a":`+js("json.trail.a = 1")+`,"#b":`+js("while (true) {}")+`}`, true, "", [2]int{1, 1})
	add("infinite do", `{"o":{"#":`+js("do { var x = 1 } while (x)")+`}}`, true, "", [2]int{1, 1})
	// the JSON form of json.trail is part of the run
	add("toJSON", `{"#":`+js("json.trail.a = { toJSON: function() { return 1 } }")+`}`, false, `{"a":1}`, [2]int{2, 3})
	add("infinite toJSON", `{"#":`+js("json.trail.a = { toJSON: function() { while (true) {} } }")+`}`, true, "", [2]int{1, 1})
	add("infinite toJSON of the scope", `{"#":`+js("json.trail.toJSON = function() { for (;;) {} }")+`}`, true, "", [2]int{1, 1})
	add("infinite getter of the scope", `{"o":{"#":`+js("Object.defineProperty(json.trail, 'a', { enumerable: true, get: function() { while (true) {} } })")+`}}`, true, "", [2]int{1, 1})
	add("infinite toJSON for a node set", `{"#":`+js("json.trail.a = { toJSON: function() { while (true) {} } }; json.jsonPathSelector('$.b').getValues()")+`}`, true, "", [2]int{1, 1})
	add("infinite toJSON of a value", `{"b":1,"#":`+js("json.jsonPathSelector('$.b').setValues({ toJSON: function() { while (true) {} } })")+`}`, true, "", [2]int{1, 1})
	add("infinite toString", `{"#":`+js("'' + { toString: function() { while (true) {} } }")+`}`, true, "", [2]int{1, 1})
	add("infinite replace", `{"#":`+js("'abc'.replace(/b/, function() { while (true) {} })")+`}`, true, "", [2]int{1, 1})
	add("infinite eval", `{"#":`+js("eval('while (true) {}')")+`}`, true, "", [2]int{1, 1})
	add("infinite Function", `{"#":`+js("new Function('while (true) {}')()")+`}`, true, "", [2]int{1, 1})
	units, delay = otherDelay, time.Duration(otherDelay)*time.Second
	add("another delay", `{"#":`+js("json.trail.a = 1")+`}`, false, `{"a":1}`, [2]int{2, 3})
	add("infinite with another delay", `{"#":`+js("while (true) {}")+`}`, true, "", [2]int{1, 1})
	exact, limit = true, int64(delay)
	add("infinite with another delay", `{"#":`+js("while (true) {}")+`}`, true, "", [2]int{1, 1})
	units, delay = 0, time.Duration(globals.HaltingDelay)*time.Second
	limit = int64(delay)
	add("one script", `{"#":`+js("json.trail.a = 1")+`}`, false, `{"a":1}`, [2]int{2, 3})
	add("two scripts", `{"#a":`+js("json.trail.a = 1")+`,"#b":`+js("json.trail.b = json.trail.a + 1")+`}`, false, `{"a":1,"b":2}`, [2]int{2, 3})
	add("infinite loop", `{"#":`+js("while (true) {}")+`}`, true, "", [2]int{1, 1})
	add("infinite with catch", `{"#":`+js("while (true) { try { while (true) {} } catch (e) {} }")+`}`, true, "", [2]int{1, 1})
	// each statement takes a while: each script is in time, all together are not
	tick = 70 * time.Millisecond
	slow := "var x = 1; x = 2; x = 3; x = 4; x = 5; "
	add("slow scripts", `{"#a":`+js(slow+"json.trail.a = 1")+`,"#b":`+js(slow+"json.trail.b = 2")+`,"#c":`+js(slow+"json.trail.c = 3")+`}`, false, `{"a":1,"b":2,"c":3}`, [2]int{2, 3})
	add("slow nested scripts", `{"#a":`+js(slow+"json.trail.a = 1")+`,"o":{"#b":`+js(slow+"json.trail.b = 2")+`,"l":[{"#":`+js(slow+"json.trail.c = 3")+`}]}}`, false, `{"a":1,"o":{"b":2,"l":[{"c":3}]}}`, [2]int{2, 3})
	limit = 3 * int64(delay)
	add("infinite after slow scripts", `{"#a":`+js(slow+"json.trail.a = 1")+`,"#b":`+js(slow+"json.trail.b = 2")+`,"#c":`+js("for (;;);")+`}`, true, "", [2]int{1, 1})
	limit = int64(delay) * 3 / 2
	add("much too slow", `{"#":`+js("for (var i = 0; i < 50; i++) { json.trail.a = i }")+`}`, true, "", [2]int{0, 0})
}

func callbacks() {
	units := 0
	delay := time.Duration(globals.HaltingDelay) * time.Second
	type kind struct {
		name   string
		f      func(json json_map.JsonMapInt)
		panics interface{}
		never  bool // does not return by itself
		late   bool // returns after the halting delay
	}
	set := func(key string, v interface{}) func(json json_map.JsonMapInt) {
		return func(json json_map.JsonMapInt) { (*json.GetInsides())[key] = v }
	}
	quick := kind{name: "quick", f: set("a", 1)}
	yields := kind{name: "steps", f: func(json json_map.JsonMapInt) {
		mcrt.Yield()
		set("a", 1)(json)
		mcrt.Yield()
		set("b", 2)(json)
		mcrt.Yield()
	}}
	panics := kind{name: "panics", panics: "boom", f: func(json json_map.JsonMapInt) {
		mcrt.Yield()
		panic("boom")
	}}
	panicsWith := func(name string, v interface{}) kind {
		return kind{name: "panics with " + name, panics: v, f: func(json json_map.JsonMapInt) { panic(v) }}
	}
	sleeps := kind{name: "sleeps", f: func(json json_map.JsonMapInt) {
		sleep(time.Second)
		set("a", 1)(json)
	}}
	never := kind{name: "never", never: true, f: func(json json_map.JsonMapInt) { block() }}
	late := kind{name: "late", late: true, f: func(json json_map.JsonMapInt) {
		sleep(10 * time.Second)
	}}
	latePanic := kind{name: "late panic", late: true, panics: "boom", f: func(json json_map.JsonMapInt) {
		sleep(10 * time.Second)
		panic("boom")
	}}
	exact := false
	add := func(name string, bound [2]int, leaky bool, expect string, mkDoc func() M, kinds ...kind) {
		exact, delay := exact, delay
		if exact {
			name += ", exact"
		}
		scenarios["C20"] = append(scenarios["C20"], scenario{
			name: name, bound: bound, early: !exact, exact: exact, leaky: leaky, delay: units, norace: leaky || strings.Contains(name, "late"),
			mk: func() run {
				j := jom.NewFromMap(mkDoc())
				var caught interface{}
				var now int64
				got := ""
				return run{
					body: func() {
						func() {
							defer func() { caught = recover() }()
							j.Run()
							got = canon(j)
						}()
						now = mcrt.Now()
					},
					judge: func(o *mcrt.Outcome) (string, string) {
						never, late := false, false
						var panics interface{}
						for _, k := range kinds {
							never = never || k.never
							late = late || k.late
							if k.panics != nil {
								panics = k.panics
							}
						}
						text := fmt.Sprint(caught)
						switch {
						case caught != nil && isHalt(text):
							if tooEarly(text, delay) {
								return "a callback is failed by a timer before its halting delay has passed: " + text, "early"
							}
							if o != nil && now < int64(delay) {
								return "the halting error without any halting delay having passed", "early"
							}
							if exact && !never && !late && o != nil {
								return "a callback which takes less than the halting delay is failed: " + text, "early"
							}
							if o != nil && (o.Schedule == "default" || exact) && (never || late) && now != int64(delay) {
								return fmt.Sprintf("the halting error comes at %v", time.Duration(now)), "late"
							}
							return "", "halted"
						case caught != nil && caught == panics:
							return "", "panic"
						case caught != nil:
							return "another error: " + text, "error"
						case panics != nil && !late:
							return "the panic of the callback is lost", "lost"
						case never:
							return "a callback which never returns has been waited for", "never"
						case got != expect:
							return fmt.Sprintf("the document is %s, not %s", got, expect), "result"
						}
						if late && o != nil && (o.Schedule == "default" || exact) {
							return "a callback which takes longer than the halting delay is not stopped", "late"
						}
						return "", "finished"
					},
				}
			},
		})
	}
	one := func(k kind) func() M {
		return func() M { return M{"#": k.f, "z": 0} }
	}
	add("quick", [2]int{5, 7}, false, `{"a":1,"z":0}`, one(quick), quick)
	add("steps", [2]int{5, 7}, false, `{"a":1,"b":2,"z":0}`, one(yields), yields)
	add("panics", [2]int{5, 7}, false, ``, one(panics), panics)
	for _, k := range []kind{
		panicsWith("an error", errors.New("boom")), panicsWith("a number", 7), panicsWith("false", false), panicsWith("an empty string", ""),
		panicsWith("a struct", struct{ a, b int }{1, 2}), panicsWith("a pointer", new(int)),
		panicsWith("an error of this library", globals.ScriptError.FillError("boom")), panicsWith("a wrapped error", fmt.Errorf("outer: %w", io.EOF)),
	} {
		add(k.name, [2]int{3, 5}, false, ``, one(k), k)
	}
	add("sleeps", [2]int{5, 7}, false, `{"a":1,"z":0}`, one(sleeps), sleeps)
	add("never", [2]int{5, 7}, true, ``, one(never), never)
	add("late", [2]int{5, 7}, false, `{"z":0}`, one(late), late)
	add("late panic", [2]int{5, 7}, false, ``, one(latePanic), latePanic)
	add("two", [2]int{4, 5}, false, `{"a":1,"b":2,"c":3,"z":0}`, func() M {
		return M{"#1": yields.f, "#2": set("c", 3), "z": 0}
	}, yields)
	add("second panics", [2]int{4, 5}, false, ``, func() M { return M{"#1": quick.f, "#2": panics.f} }, quick, panics)
	add("nested", [2]int{4, 5}, false, `{"a":1,"b":2,"o":{"a":1}}`, func() M {
		return M{"#1": yields.f, "o": M{"#": quick.f}}
	}, yields, quick)
	add("array", [2]int{3, 4}, false, `{"l":[{"a":1},{"a":1},{"a":1,"b":2}]}`, func() M {
		return M{"l": A{M{"#": quick.f}, M{"#": quick.f}, M{"#": yields.f}}}
	}, yields, quick)
	add("never after quick", [2]int{4, 5}, true, ``, func() M { return M{"#1": quick.f, "#2": never.f} }, quick, never)
	add("callback of callback", [2]int{4, 5}, false, `{"a":{"b":2}}`, func() M {
		return M{"#1": func(json json_map.JsonMapInt) {
			(*json.GetInsides())["a"] = M{"#": func(json json_map.JsonMapInt) { (*json.GetInsides())["b"] = 2 }}
		}}
	})
	add("callback then script", [2]int{3, 4}, false, `{"a":1,"o":{"c":3}}`, func() M {
		return M{"#1": quick.f, "o": M{"#": "#//!js\njson.trail.c = 3"}}
	}, quick)
	add("reads inside", [2]int{3, 4}, false, `{"n":2,"v":[1,2]}`, func() M {
		return M{"#1": func(json json_map.JsonMapInt) {
			(*json.GetInsides())["n"] = len(json.MustGet("$.v[0,1]"))
		}, "v": A{1, 2}}
	})
	exact = true
	add("quick", [2]int{5, 7}, false, `{"a":1,"z":0}`, one(quick), quick)
	add("steps", [2]int{5, 7}, false, `{"a":1,"b":2,"z":0}`, one(yields), yields)
	add("panics", [2]int{5, 7}, false, ``, one(panics), panics)
	add("sleeps", [2]int{5, 7}, false, `{"a":1,"z":0}`, one(sleeps), sleeps)
	add("never", [2]int{5, 7}, true, ``, one(never), never)
	add("late", [2]int{5, 7}, false, `{"z":0}`, one(late), late)
	add("late panic", [2]int{5, 7}, false, ``, one(latePanic), latePanic)
	long := kind{name: "long", f: func(json json_map.JsonMapInt) {
		sleep(time.Duration(usualDelay-1) * time.Second)
		set("a", 1)(json)
	}}
	add("three long ones", [2]int{4, 5}, false, `{"a":1}`, func() M { return M{"#1": long.f, "#2": long.f, "#3": long.f} }, long)
	add("long and nested", [2]int{4, 5}, false, `{"a":1,"l":[{"a":1},{"o":{"a":1}}]}`, func() M {
		return M{"#1": long.f, "l": A{M{"#": long.f}, M{"o": M{"#": long.f}}}}
	}, long)
	add("long, then a script", [2]int{3, 4}, false, `{"a":1,"o":{"c":3}}`, func() M {
		return M{"#1": long.f, "o": M{"#": "#//!js\njson.trail.c = 3"}}
	}, long)
	units, delay = otherDelay, time.Duration(otherDelay)*time.Second
	add("quick with another delay", [2]int{4, 5}, false, `{"a":1,"z":0}`, one(quick), quick)
	add("never with another delay", [2]int{4, 5}, true, ``, one(never), never)
	longer := kind{name: "long with another delay", f: func(json json_map.JsonMapInt) {
		sleep(time.Duration(otherDelay-1) * time.Second)
		set("a", 1)(json)
	}}
	add("long with another delay", [2]int{4, 5}, false, `{"a":1,"z":0}`, one(longer), longer)
}

func documents() {
	delay := time.Second
	type op struct {
		name string
		do   func() string
	}
	eval := func(text string) func() string {
		return func() string {
			out, err := jom.Eval([]byte(text), false)
			if err != nil {
				return "error: " + err.Error()
			}
			return string(out)
		}
	}
	// Every text occurs in two versions: always the same one, and one with a token which has never occurred before (what is kept
	// for the next time has to be written then). The results have the token replaced.
	tokens := 0
	const usual = "q000"
	lang := func(token string) string {
		if token == usual {
			return "zz"
		}
		return strings.ToUpper(token[2:])
	}
	ops := map[string]func(t string) string{
		"script": func(t string) string {
			return eval(`{"` + t + `":1,"#":"#//!js\njson.trail.b = json.trail.` + t + ` + 1; console.log(json.trail)"}`)()
		},
		"nodes": func(t string) string {
			return eval(`{"` + t + `":{"b":[1,2]},"#":"#//!js\nvar s = json.jsonPathSelector('$.` + t + `.b[0,1]'); json.trail.c = s.getValues(); s.setValues(5)"}`)()
		},
		"nodes2": func(t string) string {
			return eval(`{"` + t + `":{"b":[7,8]},"#":"#//!js\nvar s = json.jsonPathSelector('$.` + t + `.b[*]'); json.trail.c = s.getValues(); s.setValues({x:[1]})"}`)()
		},
		"array": func(t string) string {
			return eval(`[{"#":"#//!js\njson.trail.` + t + ` = json.scopePath"},[{"#":"#//!js\njson.trail.y = json.scopePath"}]]`)()
		},
		"fails": func(t string) string { return eval(`{"#":"#//!js\nthrow new Error('` + t + `')"}`)() },
		"error": func(t string) string {
			return eval(`{"#":"#//!js\nconsole.error('a'); json.jsonPathSelector('$.` + t + `').getValues()"}`)()
		},
		"language": func(t string) string {
			return strings.ReplaceAll(eval(`{"#":"#//!`+lang(t)+`\n1"}`)(), lang(t), "LANG")
		},
		"languages": func(t string) string {
			j := doc(docA)
			err := j.MarkupCode("$.a."+t, lang(t), "1")
			err2 := j.MarkupCode("$.a."+t, "js", "json.trail.t = 1")
			return strings.ReplaceAll(fmt.Sprint(err), lang(t), "LANG") + fmt.Sprint(err2, canon(j))
		},
		"read": func(t string) string {
			return nodeText(doc(strings.ReplaceAll(docA, "\"x\"", "\""+t+"\"")).JsonPathSelector("$.." + t))
		},
		"index": func(t string) string {
			return nodeText(doc(strings.ReplaceAll(docA, "\"b\"", "\""+t+"\"")).JsonPathSelector("$." + t + "[1,0].x"))
		},
		"bad": func(t string) string { return nodeText(doc(docA).JsonPathSelector("$.b[9,8]." + t)) },
		"filter": func(t string) string {
			return nodeText(doc(docA).JsonPathSelector("$.b[?(@.x > $.a.x || '" + t + "' == @)]"))
		},
		"parse": func(t string) string {
			p, err := json_map.ParseJsonPath("$." + t + "...[1:-1][0, 2]..b[?(@.x)]")
			return fmt.Sprint(p, err)
		},
		"reject": func(t string) string { p, err := json_map.ParseJsonPath("$." + t + "[:]"); return fmt.Sprint(p, err) },
		"write": func(t string) string {
			j := doc(docB)
			j.MustSet("$.x[1].x[0]", M{t: nil})
			j.MustDelete("$.y.x")
			j.MustSet("$.y."+t, 1)
			j.MustPush("$.z", "p")
			j.MustPop("$.x", 0)
			return canon(j)
		},
		"markup": func(t string) string {
			j := doc(docA)
			if err := j.MarkupCode("$.a."+t, "js", "json.trail."+t+" = 1"); err != nil {
				return err.Error()
			}
			found := j.FindScriptFields()
			j.Strip()
			return fmt.Sprint(found, j, canon(j))
		},
		"callback": func(t string) string {
			j := jom.NewFromMap(M{"#": func(json json_map.JsonMapInt) {
				json.MustSet("$.k", json.GetCurrentScopePath())
			}, t: M{"#": func(json json_map.JsonMapInt) { json.MustSet("$.k", json.GetCurrentScopePath()) }}})
			j.Run()
			return canon(j)
		},
		"text": func(t string) string {
			j := jom.New()
			if err := j.Unmarshal([]byte("{" + t + ": b\n# comment\nc: [1\n2]}")); err != nil {
				return err.Error()
			}
			out, err := j.Marshal()
			return fmt.Sprint(j, string(out), err)
		},
	}
	var names []string
	for name := range ops {
		names = append(names, name)
	}
	sort.Strings(names)
	for name, f := range map[string]func() string{
		"infinite":        eval(`{"#":"#//!js\nwhile (true) {}"}`),
		"infinite filter": func() string { return nodeText(doc(docA).JsonPathSelector("$.b[?((function(){while(true){}})())]")) },
		"slow callback": func() string {
			j := jom.NewFromMap(M{"#": func(json json_map.JsonMapInt) { sleep(10 * time.Second) }})
			j.Run()
			return canon(j)
		},
	} {
		f := f
		ops[name] = func(string) string { return f() }
	}
	alone := make(map[string]string)
	add := func(bound [2]int, polls, fresh bool, names ...string) {
		text := fmt.Sprintf("%s polls=%v", strings.Join(names, " | "), polls)
		if fresh {
			text += " fresh"
		}
		scenarios["C25"] = append(scenarios["C25"], scenario{
			name: text, bound: bound, polls: polls, exact: strings.Contains(text, "infinite"),
			mk: func() run {
				needed := func() {
					for _, n := range names {
						if _, ok := alone[n]; !ok {
							alone[n] = solo(func() string { return protect(func() string { return ops[n](usual) }) })
						}
					}
				}
				// for the race detector everything happens for the first time when others are there
				if !mcrt.RaceBuild {
					needed()
				}
				token := usual
				if fresh {
					tokens++
					token = "q" + fmt.Sprintf("%03s", strconv.FormatInt(int64(tokens%(36*36*36)), 36))
				}
				results := make([]string, len(names))
				return run{
					body: func() {
						fork(len(names), func(i int) {
							results[i] = strings.ReplaceAll(protect(func() string { return ops[names[i]](token) }), token, usual)
						})
					},
					judge: func(o *mcrt.Outcome) (string, string) {
						needed()
						for i, n := range names {
							if o != nil && isHalt(results[i]) && !isHalt(alone[n]) && o.Now >= int64(delay) && !tooEarly(results[i], delay) {
								// not scheduled for the whole delay
								continue
							}
							if timeless(results[i]) != timeless(alone[n]) {
								return fmt.Sprintf("%s gives %s, but alone it gives %s", n, results[i], alone[n]), "differs"
							}
						}
						return "", "same"
					},
				}
			},
		})
	}
	for i, a := range names {
		for _, b := range names[i:] {
			add([2]int{1, 1}, false, false, a, b)
			add([2]int{0, 1}, false, true, a, b)
		}
	}
	for _, p := range [][2]string{{"infinite", "script"}, {"infinite filter", "filter"}, {"infinite", "filter"}, {"slow callback", "infinite"}} {
		add([2]int{0, 1}, true, false, p[0], p[1])
	}
	for _, p := range [][2]string{{"nodes", "nodes2"}, {"script", "nodes"}, {"filter", "nodes"}, {"index", "index"}, {"callback", "script"}, {"parse", "reject"}} {
		add([2]int{1, 2}, true, false, p[0], p[1])
	}
	add([2]int{1, 2}, false, false, "nodes", "nodes2", "filter")
	add([2]int{1, 2}, false, false, "script", "callback", "read")
	add([2]int{1, 2}, false, false, "parse", "reject", "write")
}

func protect(f func() string) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprint("panic: ", p)
		}
	}()
	return f()
}

var durationRe = regexp.MustCompile(`after: [^,\s]+,`)

// timeless is an error without the times in it.
func timeless(text string) string { return durationRe.ReplaceAllString(text, "after: _,") }
