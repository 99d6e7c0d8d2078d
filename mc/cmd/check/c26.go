package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"

	"verif/core"
	"verif/ref"
)

func init() { register("C26", "exploration", c26) }

// rec is one record: the stream, the line of the call within its statement, the text.
type rec struct {
	err  bool
	line int
	text string
}

type conStm struct {
	js   string
	recs []rec
	fail bool
}

func conMenu() []conStm {
	o := func(line int, text string) rec { return rec{false, line, text} }
	e := func(line int, text string) rec { return rec{true, line, text} }
	return []conStm{
		{js: "console.log('x')", recs: []rec{o(1, "x")}},
		{js: "console.error('e')", recs: []rec{e(1, "e")}},
		{js: "console.log('a', 'b c', '')", recs: []rec{o(1, "a b c ")}},
		{js: "console.log()", recs: []rec{o(1, "")}},
		{js: "console.log('m\\nl\\n\\n', 'z')", recs: []rec{o(1, "m\nl\n\n z")}},
		{js: "console.error('\\nx\\n')", recs: []rec{e(1, "\nx\n")}},
		{js: "console.error(1, -2, true, false, 1.5, 123456)", recs: []rec{e(1, "1 -2 true false 1.5 123456")}},
		{js: "\nvar f = function () {\n console.log('in f'); console.error('in f')\n}\nf(); f()", recs: []rec{o(3, "in f"), e(3, "in f"), o(3, "in f"), e(3, "in f")}},
		{js: "for (var i = 0; i < 3; i++) {\nconsole.log('i', i)\n}", recs: []rec{o(2, "i 0"), o(2, "i 1"), o(2, "i 2")}},
		{js: "try {\nthrow 'y'\n} catch (e) {\nconsole.error('caught', e)\n} finally { console.log('fin') }", recs: []rec{e(4, "caught y"), o(5, "fin")}},
		{js: "if (false) console.log('no'); // console.log('no')\n/* console.log('no')\n*/"},
		{js: "var l = console.log;\nl('alias')", recs: []rec{o(2, "alias")}},
		{js: "[1, 2].forEach(function (x) {\nconsole.log(x)\n})", recs: []rec{o(2, "1"), o(2, "2")}},
		{js: "console.log('<anonymous>', '%d %s %v', '\\t', '$&', 5)", recs: []rec{o(1, "<anonymous> %d %s %v \t $& 5")}},
		{js: "console.log('\u00e9\U0001f600\\u2028\u4e16', '\\\\')", recs: []rec{o(1, "\u00e9\U0001f600\u2028\u4e16 \\")}},
		{js: "json.trail.x = 'v';\nconsole.log(json.trail.x)", recs: []rec{o(2, "v")}},
		{js: "console.log('a', [1].map(function () {\nconsole.error('inner'); return 'r'\n})[0])", recs: []rec{e(2, "inner"), o(1, "a r")}},
		{js: "var o = {get a() {\nconsole.log('get'); return 1 }};\no.a", recs: []rec{o(2, "get")}},
		{js: "json.jsonPathSelector('$').getValues(); try { json.jsonPathSelector('nope') } catch (e) { }\nconsole.log('after')", recs: []rec{o(2, "after")}},
		{js: "var g = function () {\n h();\n function h() { console.error('deep') }\n}\ng()", recs: []rec{e(3, "deep")}},
		{js: "console.log('" + strings.Repeat("wide", 50) + "', 'Print call from: <$>:1:1')", recs: []rec{o(1, strings.Repeat("wide", 50)+" Print call from: <$>:1:1")}},
		{js: "console.error(null, undefined); var u; printlnExternal(u, null, json.trail.nope)", recs: []rec{e(1, "null undefined"), o(1, "undefined null undefined")}},
		{js: "throw 'stop'; console.log('never')", fail: true},
		{js: "json.scopePath = 5;\nconsole.log('never'); console.error('never')", fail: true},
		{js: "json.scopePath = null; try { console.error('never') } catch (e) { }", fail: true},
		{js: "delete json.scopePath; console.log('never')", fail: true},
		{js: "json.scopePath = {}; json.trail.x = 1; console.log()", fail: true},
	}
}

type conScript struct {
	key string // places of the document
	st  []int
}

// conDoc describes documents: the places of their scripts in execution order, and the paths of their scopes.
type conDoc struct {
	array bool
	build func(s []string) M
	paths []string
}

func conDocs() []conDoc {
	return []conDoc{
		{build: func(s []string) M { return M{"s": s[0]} }, paths: []string{"$"}},
		{build: func(s []string) M { return M{"a": 1.0, "z y": A{0.0, A{M{"s": s[0], "x": nil}}}} }, paths: []string{"$.z y[1][0]"}},
		{build: func(s []string) M { return M{"k": M{"l": M{"s": s[0]}}} }, paths: []string{"$.k.l"}},
		{array: true, build: func(s []string) M { return M{"array": A{M{}, M{"s": s[0]}}} }, paths: []string{"$.array[1]"}},
		{build: func(s []string) M { return M{"b": s[1], "a": s[0], "k": M{"a": s[2]}} }, paths: []string{"$", "$", "$.k"}},
		{build: func(s []string) M { return M{"k": A{M{"q": M{"s": s[2]}, "p": s[1]}}, "z": s[0]} }, paths: []string{"$", "$.k[0]", "$.k[0].q"}},
	}
}

type logged struct {
	err bool
	b   []byte
}

// conRun evaluates and returns what was written, in order, consecutive writes to one stream joined.
func conRun(d conDoc, texts []string) (out []logged, failed bool) {
	w := func(err bool) writerFunc {
		return func(p []byte) (int, error) {
			if n := len(out); n > 0 && out[n-1].err == err {
				out[n-1].b = append(out[n-1].b, p...)
			} else {
				out = append(out, logged{err, append([]byte{}, p...)})
			}
			return len(p), nil
		}
	}
	js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = w(false), w(true)
	j := jom.NewFromMap(d.build(texts))
	j.Array = d.array
	p := try(func() { j.Run() })
	return out, p != nil
}

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

// conCheck compares what was written with what was expected.
func conCheck(out []logged, want []rec, paths []string) string {
	i := 0
	for _, l := range out {
		rest := string(l.b)
		for rest != "" {
			if i >= len(want) {
				return fmt.Sprintf("wrote more than expected: %q", head(rest, 300))
			}
			w := want[i]
			if w.err != l.err {
				return fmt.Sprintf("record %d (%q) was written to the wrong stream, or is missing: found %q", i, w.text, head(rest, 300))
			}
			nl := strings.IndexByte(rest, '\n')
			if nl < 0 {
				return fmt.Sprintf("record %d: no line %q", i, head(rest, 300))
			}
			h := strings.ReplaceAll(rest[:nl], ".[", "[")
			if !strings.Contains(h, "<"+paths[i]+">:"+strconv.Itoa(w.line)+":") || strings.HasPrefix(h, "\t") {
				return fmt.Sprintf("record %d (%q): the first line %q does not name the scope path %s and line %d", i, head(w.text, 50), h, paths[i], w.line)
			}
			rest = rest[nl+1:]
			body := "\t" + strings.ReplaceAll(w.text, "\n", "\n\t") + "\n"
			if !strings.HasPrefix(rest, body) {
				return fmt.Sprintf("record %d: the text is %q, expected %q", i, head(rest, 300), head(body, 300))
			}
			rest = rest[len(body):]
			i++
		}
	}
	if i < len(want) {
		return fmt.Sprintf("record %d (%q) and following are missing", i, head(want[i].text, 100))
	}
	return ""
}

// conCase runs one case: scripts[i] is the sequence of statements of script i of the document.
func conCase(menu []conStm, d conDoc, scripts [][]int) (string, string, bool) {
	var texts []string
	var want []rec
	var paths []string
	stopped := false
	for i, st := range scripts {
		body := ""
		line := 1
		for _, x := range st {
			s := menu[x]
			if body != "" || !strings.HasPrefix(s.js, "\n") && !strings.HasPrefix(s.js, "\r\n") {
				body += ";"
			}
			body += s.js + "\n"
			if !stopped {
				for _, r := range s.recs {
					r.line += line - 1
					want = append(want, r)
					paths = append(paths, d.paths[i])
				}
				stopped = s.fail
			}
			line += strings.Count(s.js, "\n") + 1
		}
		texts = append(texts, "#//!js\n"+body)
	}
	out, failed := conRun(d, texts)
	key := fmt.Sprintf("%q at %v", texts, d.paths)
	if failed != stopped {
		return key, fmt.Sprintf("the evaluation fails: %v, expected: %v", failed, stopped), stopped
	}
	return key, conCheck(out, want, paths), stopped
}

// graphs gives statements which print objects: all graphs of few objects and arrays, of few members.
func graphs(thorough bool, f func(s conStm) bool) {
	type member struct {
		js  string
		val interface{}
		ref int
	}
	all := []member{{"1", 1, -1}, {"'s\\nt'", "s\nt", -1}, {"true", true, -1}, {"null", "null", -1}, {"undefined", "undefined", -1}, {"function () {}", map[string]int{}, -1}}
	gen := func(members []member, n, limit int, arrays bool) bool {
		for i := 0; i < n; i++ {
			members = append(members[:len(members):len(members)], member{ref: i})
		}
		var lists [][]int
		for l := 0; l <= limit; l++ {
			words(len(members), l, nil, func(w []int) bool {
				lists = append(lists, append([]int{}, w...))
				return true
			})
		}
		kinds := 1
		if arrays {
			kinds = 2
		}
		more := true
		words(len(lists)*kinds, n, nil, func(w []int) bool {
			js := "(function () { "
			for i := range w {
				js += fmt.Sprintf("var o%d = %s; ", i, []string{"{}", "[]"}[w[i]%kinds])
			}
			// a child which is an ancestor stands for itself, everything else is written in full
			var text func(o int, in []int) interface{}
			text = func(o int, in []int) interface{} {
				out := map[string]interface{}{}
				in = append(in[:len(in):len(in)], o)
				for k, x := range lists[w[o]/kinds] {
					name := []string{"b", "a", "c"}[k]
					if w[o]%kinds == 1 {
						name = strconv.Itoa(k)
					}
					m := members[x]
					switch {
					case m.js != "":
						out[name] = m.val
					default:
						out[name] = "[Circular]"
						if !has(in, m.ref) {
							out[name] = text(m.ref, in)
						}
					}
				}
				return out
			}
			for i := range w {
				for k, x := range lists[w[i]/kinds] {
					v := members[x].js
					if v == "" {
						v = fmt.Sprint("o", members[x].ref)
					}
					if w[i]%kinds == 1 {
						js += fmt.Sprintf("o%d[%d] = %s; ", i, k, v)
					} else {
						js += fmt.Sprintf("o%d.%s = %s; ", i, []string{"b", "a", "c"}[k], v)
					}
				}
			}
			js += "console.log(o0, 'and', o0) })()"
			t := fmt.Sprint("&", text(0, nil))
			more = f(conStm{js: js, recs: []rec{{false, 1, t + " and " + t}}})
			return more
		})
		return more
	}
	if thorough {
		_ = gen(all, 2, 2, true) && gen(all[:1], 3, 2, true) && gen(nil, 4, 2, false) && gen(all[:2], 2, 3, true)
		return
	}
	_ = gen(all, 2, 2, true) && gen(all[:1], 3, 2, false)
}

func has(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

type shardResult struct {
	Evals, Nontrivial int64
	Key, What         string
	Cut               bool
}

func init() {
	shardCases["C26"] = func(c *core.Ctx, shard, n int) (r shardResult) {
		menu := conMenu()
		depth := 3
		if c.Thorough {
			depth = 4
		}
		count := 0
		do := func(d conDoc, scripts [][]int) bool {
			count++
			if count%n != shard {
				return true
			}
			if c.Expired() {
				r.Cut = true
				return false
			}
			r.Evals++
			key, what, stopped := conCase(menu, d, scripts)
			// it counts if it happens again: a script can be halted because the machine is busy
			for i := 0; what != "" && i < 20; i++ {
				delay := globals.HaltingDelay
				globals.HaltingDelay = 20
				_, what, _ = conCase(menu, d, scripts)
				globals.HaltingDelay = delay
				if what != "" {
					break
				}
			}
			if what != "" {
				r.Key, r.What = key, what
				return false
			}
			if !stopped {
				r.Nontrivial++
			}
			return true
		}
		docs := conDocs()
		// arguments, lines, calls, texts, scripts and scopes of every number, length and depth
		size := 72
		if c.Thorough {
			size = 200
		}
		small := menu
		for k := 1; k <= size && r.What == ""; k++ {
			var args, texts, calls, lines []string
			var recs []rec
			for i := 0; i < k; i++ {
				args, texts = append(args, fmt.Sprintf("'a\\n%d'", i)), append(texts, fmt.Sprintf("a\n%d", i))
				f := "log"
				if i%3 == 1 {
					f = "error"
				}
				calls, lines = append(calls, fmt.Sprintf("console.%s('c', %d)", f, i)), append(lines, fmt.Sprint("// ", i))
				recs = append(recs, rec{i%3 == 1, i + 1, fmt.Sprint("c ", i)})
			}
			path := "$"
			name := strings.Repeat("n", k)
			menu = []conStm{
				{js: "console.log(" + strings.Join(args, ", ") + ")", recs: []rec{{false, 1, strings.Join(texts, " ")}}},
				{js: "console.error(" + strings.Join(args, ",\n") + ")", recs: []rec{{true, 1, strings.Join(texts, " ")}}},
				{js: strings.Join(calls, "\n"), recs: recs},
				{js: strings.Join(lines, "\n") + "\nconsole.log('late')", recs: []rec{{false, k + 1, "late"}}},
				{js: "console.log('" + strings.Repeat("é", k) + "')", recs: []rec{{false, 1, strings.Repeat("é", k)}}},
				{js: "console.error('" + strings.Repeat("\\n", k) + "', '" + strings.Repeat("\\t", k) + "')", recs: []rec{{true, 1, strings.Repeat("\n", k) + " " + strings.Repeat("\t", k)}}},
				{js: strings.Repeat(" ", k) + "console.log(1)", recs: []rec{{false, 1, "1"}}},
				{js: strings.Repeat("\n", k) + "console.log(1)", recs: []rec{{false, k + 1, "1"}}},
				{js: strings.Repeat("\r\n", k) + "console.error(1)", recs: []rec{{true, k + 1, "1"}}},
				{js: strings.Repeat("\n \t", k) + "console.log(1)", recs: []rec{{false, k + 1, "1"}}},
				{js: "(function f(n) { if (n) f(n - 1); else console.log('deep') })(" + fmt.Sprint(k) + ")", recs: []rec{{false, 1, "deep"}}},
			}
			for i := 0; i < k; i++ {
				if i%2 == 0 {
					path += ".k"
				} else {
					path += fmt.Sprintf("[%d]", i)
				}
			}
			nest := func(s []string) M {
				var v V = M{"s": s[0]}
				for i := k - 1; i >= 0; i-- {
					if i%2 == 0 {
						v = M{"k": v}
					} else {
						a := make(A, i)
						v = append(a, v)
					}
				}
				return v.(M)
			}
			ds := []conDoc{docs[0], {build: func(s []string) M { return M{name: M{"s": s[0]}} }, paths: []string{"$." + name}}}
			if k <= 30 {
				ds = append(ds, conDoc{build: nest, paths: []string{path}})
			}
			for _, d := range ds {
				for x := range menu {
					do(d, [][]int{{x}})
				}
				do(d, [][]int{{3, 0, 2, 5}})
			}
			// many scripts
			many := conDoc{build: func(s []string) M {
				m := M{}
				for i := range s {
					m[fmt.Sprintf("s%03d", i)] = s[i]
				}
				return m
			}}
			var st [][]int
			for i := 0; i < k; i++ {
				many.paths, st = append(many.paths, "$"), append(st, []int{i % len(menu)})
			}
			if k <= 24 {
				do(many, st)
			}
		}
		// sizes at which buffers end, texts which look like something else
		globals.HaltingDelay = 20
		for _, k := range powers(size+1, 1<<17+1) {
			str := func(x string) string { return strings.Repeat(x, k) }
			join := func(x string) string { return "new Array(" + fmt.Sprint(k+1) + ").join('" + x + "')" }
			menu = []conStm{
				{js: "console.log(" + join("x") + ", 'end')", recs: []rec{{false, 1, str("x") + " end"}}},
				{js: "console.error('a\\n' + " + join("x") + " + '\\nb')", recs: []rec{{true, 1, "a\n" + str("x") + "\nb"}}},
				{js: "console.log(" + join("é") + ", " + join("\\n") + ")", recs: []rec{{false, 1, str("é") + " " + str("\n")}}},
				{js: "//" + str("c") + "\nconsole.log('after')", recs: []rec{{false, 2, "after"}}},
				{js: "console.log('" + str("y") + "')", recs: []rec{{false, 1, str("y")}}},
			}
			for x := range menu {
				do(docs[0], [][]int{{x}})
			}
			name := str("n")
			do(conDoc{build: func(s []string) M { return M{name: M{"s": s[0]}} }, paths: []string{"$." + name}}, [][]int{{0, 1}})
		}
		globals.HaltingDelay = 5
		menu = nil
		for _, a := range lookalikes() {
			if a == "\U0010ffff" {
				continue
			}
			q, _ := json.Marshal(a)
			l := string(q)
			menu = append(menu, conStm{js: "console.log(" + l + ")", recs: []rec{{false, 1, a}}},
				conStm{js: "console.error('a', " + l + ", " + l + ")\nconsole.log(" + l + " + " + l + ", 'z')", recs: []rec{{true, 1, "a " + a + " " + a}, {false, 2, a + a + " z"}}})
		}
		for x := range menu {
			do(docs[0], [][]int{{x}})
			do(docs[1], [][]int{{x, (x + 1) % len(menu)}})
		}
		for _, a := range lookalikes() {
			if a = strings.TrimSpace(a); strings.ContainsAny(a, "\n\r[]\v\f") || strings.Contains(a, "#//!js") {
				continue
			}
			a := a + "k"
			menu = []conStm{{js: "console.log(1)\nconsole.error(2)", recs: []rec{{false, 1, "1"}, {true, 2, "2"}}}}
			do(conDoc{build: func(s []string) M { return M{a: M{"s": s[0], "b" + a: A{M{a: s[1]}}}} }, paths: []string{"$." + a, "$." + a + ".b" + a + "[0]"}}, [][]int{{0}, {0}})
		}
		// objects
		menu = nil
		flush := func() {
			if len(menu) > 0 {
				w := make([]int, len(menu))
				for i := range w {
					w[i] = i
				}
				do(docs[0], [][]int{w})
				menu = nil
			}
		}
		graphs(c.Thorough, func(s conStm) bool {
			if menu = append(menu, s); len(menu) == 24 {
				flush()
			}
			return r.What == "" && !r.Cut
		})
		flush()
		for k := 1; k <= size; k++ {
			// members in reverse order, long arrays, deep objects and arrays
			m, deep, deepA := map[string]string{}, "1", "'x'"
			var mem, el []string
			var wel = map[string]int{}
			want, wantA := "1", "x"
			for i := 0; i < k; i++ {
				mem = append(mem, fmt.Sprintf("k%03d: 'v %d'", k-i, i))
				m[fmt.Sprintf("k%03d", k-i)] = fmt.Sprint("v ", i)
				el = append(el, fmt.Sprint(i*3))
				wel[strconv.Itoa(i)] = i * 3
				deep, want = "{z: 'after', n: "+deep+", b: null}", "map[b:null n:"+want+" z:after]"
				deepA, wantA = "["+deepA+", 1]", "map[0:"+wantA+" 1:1]"
			}
			menu = []conStm{
				{js: "console.log({" + strings.Join(mem, ", ") + "})", recs: []rec{{false, 1, fmt.Sprint(&m)}}},
				{js: "console.error([" + strings.Join(el, ",\n") + "], 'end')", recs: []rec{{true, 1, fmt.Sprint(&wel) + " end"}}},
				{js: "console.log(" + deep + ", " + deepA + ")", recs: []rec{{false, 1, "&" + want + " &" + wantA}}},
			}
			do(docs[0], [][]int{{0, 1, 2, 0}})
		}
		globals.HaltingDelay = 1
		menu = small
		for l := 0; l <= depth; l++ {
			for di, d := range docs {
				if r.What != "" {
					return
				}
				if len(d.paths) > 1 {
					continue
				}
				if l == depth && di > 0 && c.Thorough {
					continue
				}
				words(len(menu), l, nil, func(w []int) bool { return do(d, [][]int{w}) })
			}
		}
		for _, d := range docs {
			if len(d.paths) < 3 || r.What != "" {
				continue
			}
			words(len(menu), 3, nil, func(w []int) bool { return do(d, [][]int{w[:1], w[1:2], w[2:]}) })
		}
		// long output and many calls
		globals.HaltingDelay = 20
		for _, k := range []int{1000, 100000} {
			if shard == 0 && r.What == "" {
				out, failed := conRun(docs[0], []string{fmt.Sprintf("#//!js\nvar s = new Array(%d).join('line\\n'); console.log(s);\nconsole.error(s)", k)})
				s := strings.Repeat("line\n", k-1)
				if failed {
					out, failed = conRun(docs[0], []string{fmt.Sprintf("#//!js\nvar s = new Array(%d).join('line\\n'); console.log(s);\nconsole.error(s)", k)})
				}
				if w := conCheck(out, []rec{{false, 1, s}, {true, 2, s}}, []string{"$", "$"}); w != "" || failed {
					r.Key, r.What = fmt.Sprintf("%d lines", k), w
				}
				r.Evals++
			}
		}
		if shard == 0 && r.What == "" {
			n := 3000
			out, failed := conRun(docs[0], []string{fmt.Sprintf("#//!js\nfor (var i = 0; i < %d; i++) {\nif (i %% 3) console.log(i, 'n'); else console.error(i, 'n')\n}", n)})
			var want []rec
			var paths []string
			for i := 0; i < n; i++ {
				want = append(want, rec{i%3 == 0, 2, fmt.Sprint(i, " n")})
				paths = append(paths, "$")
			}
			if w := conCheck(out, want, paths); (w != "" || failed) && r.What == "" {
				r.Key, r.What = "many calls", w
			}
			r.Evals++
		}
		return
	}
}

// shardCases are checks which work on global state and hence run in several processes: shard i of n.
var shardCases = map[string]func(c *core.Ctx, shard, n int) shardResult{}

func runShard(c *core.Ctx, args []string) {
	i, _ := strconv.Atoi(args[0])
	n, _ := strconv.Atoi(args[1])
	c.MemLimit = 2 << 30
	r := shardCases[c.ID](c, i, n)
	b, _ := json.Marshal(r)
	fmt.Printf("\nSHARD %s\n", b)
}

func shards(c *core.Ctx) {
	n := c.Workers
	run := func(i int) (r shardResult, log string) {
		cmd := exec.Command(os.Args[0], c.ID, "-shard", strconv.Itoa(i), strconv.Itoa(n))
		cmd.Env = append(os.Environ(), "MC_CHILD=", "GOMAXPROCS=2")
		var b bytes.Buffer
		cmd.Stdout = &limitWriter{b: &b}
		cmd.Stderr = &limitWriter{b: &b}
		err := cmd.Run()
		s := b.String()
		if k := strings.LastIndex(s, "\nSHARD "); err == nil && k >= 0 {
			if json.Unmarshal([]byte(strings.TrimSpace(s[k+7:])), &r) == nil {
				if k > 0 {
					return r, s[:k]
				}
				return r, ""
			}
		}
		return shardResult{Key: "crash of a shard", What: fmt.Sprintf("the process ends with %v: %s", err, head(s, 3000))}, ""
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, log := run(i)
			if r.What != "" || log != "" {
				if r.What == "" {
					r.Key, r.What = "stray output", "something is written to the standard output or error of the process: "+head(log, 300)
				}
				if r2, log2 := run(i); r2.What != "" || log2 != "" {
					c.Violate(&core.Fail{Key: r.Key, What: r.Key + ": " + r.What, Replay: r})
				}
			}
			if r.Cut {
				c.Truncated()
			}
			c.Eval(r.Evals)
			c.Nontrivial(r.Nontrivial)
		}()
	}
	wg.Wait()
}

func c26(c *core.Ctx) {
	c.Rule("all sequences of at most n statements from the menu as a script at several places, all triples of statements as three scripts of one document, and the printing of all graphs of up to 3 (4) objects and arrays with up to 2 (3) members: what is written to the two writers is compared byte by byte with the expected records (scope path and line of the first line, then the texts, every line indented) in call order across both streams, up to the first failing statement, which must make the evaluation fail; nothing may be written to the real standard streams; non-trivial: cases in which nothing fails")
	c.Assume("the column and the name of the calling function in the first line, the text of objects which are not plain ones, and of very large or small numbers, and calls from native code are not compared")
	var names []string
	for _, s := range conMenu() {
		names = append(names, head(s.js, 100))
	}
	c.Extra("statements", names)
	c.Extra("documents", len(conDocs()))
	shards(c)
	c.Sample(names[7])
	c.Sample(names[16])
	_ = ref.Canon
}
