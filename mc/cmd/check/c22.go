package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() {
	register("C21", "model_checking", c21)
	register("C22", "exploration", c22)
}

// goGet is what a script should get: the values of the Go read, a single array being expanded.
func goGet(d M, p string) (A, error) {
	var ns []*json_map.JsonPathNode
	err := tryErr(func() (e error) { ns, e = doc(d).JsonPathSelector(p); return })
	if err != nil {
		return nil, err
	}
	out := A{}
	for _, n := range ns {
		out = append(out, n.Value)
	}
	if len(out) == 1 {
		if a, ok := out[0].(A); ok {
			return a, nil
		}
	}
	return out, nil
}

func goSet(d M, p string, v V) (M, error) {
	j := doc(d)
	err := tryErr(func() error { return j.JsonPathSetter(p, ref.Copy(v)) })
	return *j.GetInsides(), err
}

// runJS runs a script in a document of its own and gives json.trail.out, which is JSON text (so that nothing in it is run).
func runJS(d M, body string) (V, error) {
	m := ref.Copy(d).(M)
	m[selfKey] = "#//!js\n" + body
	j := jom.NewFromMap(m)
	if err := tryErr(func() error { j.Run(); return nil }); err != nil {
		return nil, err
	}
	s, _ := (*j.GetInsides())["out"].(string)
	var v V
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return nil, err
	}
	return v, nil
}

func c22(c *core.Ctx) {
	c.Rule("all documents of at most n nodes times all paths of at most two selectors (and many malformed ones), read and set by scripts through json.jsonPathSelector, a whole batch of paths per script, against the Go API on the same document; then all sequences of at most k steps of setting, reading, direct changes and reused node sets; non-trivial: a read with values, a set which changes something, or a caught error")
	n := 4
	if c.Thorough {
		n = 5
	}
	uniq := func(docs []M) (ds []M) {
		seen := map[string]bool{}
		for _, d := range docs {
			if k := ref.Canon(d); !seen[k] {
				seen[k] = true
				ds = append(ds, d)
			}
		}
		return
	}
	toks := []tok{tStr("a"), tStr("b"), tIdx(0), tIdx(1, 0), tWild, tFirst, tRec("a"), tSlice(ip(0), ip(1)), tSlice(ip(-1), nil), tSlice(nil, ip(-1)), fTrue, fNum, tIdx(2)}
	var bads []path
	for _, b := range []string{"", "a", ".a", "$.", "$.a[", "$[-1]", "$.a[?(", "$.a[?(@ ===)]", "$.a[?(nope)]", "$a", "$..", "$[:]", "$.a b[", "[0]"} {
		bads = append(bads, path{text: b})
	}
	// larger documents and longer paths
	size := 14
	if c.Thorough {
		size = 48
	}
	var big []M
	for n := 1; n <= size; n++ {
		k := 0
		d := M{"o": wideObject(n), "l": longArray(n), "t": tree(n%5+1, 2, 2, &k), strings.Repeat("k", n): M{"s": strings.Repeat("é\"'\\\n", n)}}
		big = append(big, d)
	}
	var long []path
	add := func(ts ...tok) {
		if p, ok := compose(ts); ok {
			long = append(long, p)
		}
	}
	for n := 1; n <= size; n++ {
		l := tStr("l")
		add(l, tIdx(n-1))
		add(tStr(strings.Repeat("k", n)), tStr("s"))
		add(tStr("o"), tStr(fmt.Sprint("k", n-1)))
		add(l, tSlice(ip(-n), nil))
		add(l, tSlice(ip(n/2), ip(n)))
		for _, is := range indexLists(n, n) {
			add(l, tIdx(is...))
		}
		for _, t := range []tok{tIdx(0), tFirst, tStr("a"), tWild, tRec("a"), tIdx(1, 0)} {
			if n > 6 {
				break
			}
			ts := []tok{tStr("t")}
			for x := 0; x < n; x++ {
				ts = append(ts, t)
			}
			add(ts...)
		}
	}
	for _, t := range []tok{tWild, tFirst, tRec("a"), tRec("b"), fTrue, fNum, tSlice(ip(0), nil)} {
		add(t)
		add(tStr("o"), t)
		add(tStr("l"), t)
		add(tStr("l"), t, tIdx(0))
	}
	// names and values which look like something else
	var like []M
	for i, t := range lookalikes() {
		o := lookalikes()[(i*7+3)%len(lookalikes())]
		if !strings.Contains(t+o, "#//!js") {
			like = append(like, M{"o": M{"a": t, t + "k": o, "b": M{t + "k": A{t, o}, "a": o}}, "l": A{t, M{"a": t}, A{o, t}, M{t + "k": nil}}})
		}
	}
	c22space(c, "odd texts", like, long[len(long)-21:])
	c22space(c, "large", big, long)
	c22values(c)
	c22trails(c)
	c22steps(c)
	c22space(c, fmt.Sprintf("up to %d nodes, two selectors", n), uniq(append(withScalar(shapes(n, 2, "a", "b"), nil), shapes(n, 2, "a", "b")...)), append(allPaths(toks, 2, 1), bads...))
	c22space(c, fmt.Sprintf("up to %d nodes, one selector", n+1), uniq(append(withScalar(shapes(n, 2, "a", "b"), "x\"é\n"), shapes(n+1, 2, "a", "b")...)), append(allPaths(toks, 1, 1), bads...))
}

func c22space(c *core.Ctx, name string, ds []M, paths []path) {
	c.Extra("documents "+name, len(ds))
	c.Extra("paths "+name, len(paths))
	// few paths per script: it must be far from the halting delay
	batches := func(size int) (out [][]path, texts []string) {
		for len(paths) > 0 {
			n := size
			if n > len(paths) {
				n = len(paths)
			}
			var t []V
			for _, p := range paths[:n] {
				t = append(t, p.text)
			}
			out, texts = append(out, paths[:n]), append(texts, ref.Canon(A(t)))
			paths = paths[n:]
		}
		return
	}
	all := paths
	reads, readsJS := batches(16)
	paths = all
	writes, writesJS := batches(8)
	paths = all
	// ~script is a member of the document while the script runs: it must not be met by paths, so the script removes it first
	c.Parallel(len(ds)*len(reads), func(i int) {
		d, paths, pathsJS := ds[i/len(reads)], reads[i%len(reads)], readsJS[i%len(reads)]
		key := "getValues in " + ref.Canon(d)
		c.Eval(int64(len(paths)))
		c.Case(func() string { return key }, func() *core.Fail {
			out, err := runJS(d, fmt.Sprintf(`delete json.trail['%s'];
var ps = %s, out = [];
for (var i = 0; i < ps.length; i++) {
  try { out.push(['ok', json.jsonPathSelector(ps[i]).getValues()]) } catch (e) { out.push(['error', e.name]) }
}
out.push(['trail', json.trail]);
json.trail = {out: JSON.stringify(out)}`, selfKey, pathsJS))
			if err != nil {
				return core.Failf(key, key, "%s: %v", key, err)
			}
			for x, p := range paths {
				want, werr := goGet(d, p.text)
				w := V(A{"ok", want})
				if werr != nil {
					w = A{"error", "JSONPathError"}
				}
				if g := out.(A)[x]; ref.Canon(g) != ref.Canon(w) {
					return core.Failf(key+" "+p.text, key, "%s: %s gives %s, the Go API %s", key, p.text, ref.Canon(g), ref.Canon(w))
				}
				if werr != nil || len(want) > 0 {
					c.Nontrivial(1)
				}
			}
			if g := ref.Canon(out.(A)[len(paths)]); g != ref.Canon(A{"trail", d}) {
				return core.Failf(key, key, "%s: json.trail is changed to %s by reading", key, g)
			}
			return nil
		})
	})
	vals := ref.Parse(`[5,"",null,[],[1,[2,null],{"a":[]}],{},{"a":null,"b":[{"c":"é\"\\\n"}]},true,false,0.1,"#//!js\nx",1e21]`).(A)
	valsJS := ref.Canon(vals)
	c.Parallel(len(ds)*len(writes), func(i int) {
		d, wpaths, wpathsJS := ds[i/len(writes)], writes[i%len(writes)], writesJS[i%len(writes)]
		i /= len(writes)
		key := "setValues in " + ref.Canon(d)
		var vi []int
		if c.Thorough {
			for x := range vals {
				vi = append(vi, x)
			}
		} else {
			vi = []int{i % len(vals)}
			if len(ref.Canon(d)) < 20 {
				vi = []int{i % len(vals), (i + 4) % len(vals), (i + 8) % len(vals)}
			}
		}
		c.Eval(int64(len(wpaths) * len(vi)))
		c.Case(func() string { return key }, func() *core.Fail {
			out, err := runJS(d, fmt.Sprintf(`delete json.trail['%s'];
var ps = %s, vs = %s, vi = %s, out = [], d = JSON.stringify(json.trail);
for (var i = 0; i < ps.length; i++) for (var j = 0; j < vi.length; j++) {
  json.trail = JSON.parse(d);
  try { json.jsonPathSelector(ps[i]).setValues(vs[vi[j]]); out.push(['ok', json.trail]) } catch (e) { out.push([e.name, json.trail]) }
}
json.trail = {out: JSON.stringify(out)}`, selfKey, wpathsJS, valsJS, strings.ReplaceAll(fmt.Sprint(vi), " ", ",")))
			if err != nil {
				return core.Failf(key, key, "%s: %v", key, err)
			}
			for x, p := range wpaths {
				for y, v := range vi {
					g := out.(A)[x*len(vi)+y].(A)
					w, werr := goSet(d, p.text, vals[v])
					k := fmt.Sprintf("%s: set %s = %s", key, p.text, ref.Canon(vals[v]))
					if (werr != nil) != (g[0] != "ok") || werr != nil && g[0] != "JSONPathError" {
						return core.Failf(k, key, "%s: %v, the Go API: error %v", k, g[0], werr)
					}
					if werr == nil && ref.Canon(g[1]) != ref.Canon(w) {
						return core.Failf(k, key, "%s: gives %s, the Go API %s", k, ref.Canon(g[1]), ref.Canon(w))
					}
					if werr != nil && (p.alts == nil || definite(p.alts)) && ref.Canon(g[1]) != ref.Canon(d) {
						return core.Failf(k, key, "%s: failed and leaves %s", k, ref.Canon(g[1]))
					}
					if werr != nil || ref.Canon(w) != ref.Canon(d) {
						c.Nontrivial(1)
					}
				}
			}
			return nil
		})
	})
	c.Sample(ds[len(ds)/2])
	c.Sample(paths[len(paths)/2].text)
}

// c22values: what scripts can pass to setValues. Objects are stored as what JSON.stringify makes of them.
func c22values(c *core.Ctx) {
	exprs := []string{"undefined", "null", "NaN", "Infinity", "-Infinity", "1e400", "-0", "0x1F", "1/3", "2e-7", "9007199254740993", "-1e21", "true", "''", "'null'", "'[1]'", "'{}'", "'\\u0000\\u2028\\ud83d\\ude00'", "'#//!js'", "'%s%d%'",
		"new Date(0)", "/x/g", "function () { return 1 }", "new String('q')", "new String('')", "new Number(4)", "new Boolean(false)", "new Error('m')", "(function () { return arguments })(1, 2)",
		"[undefined, function () {}, NaN]", "[, 1]", "new Array(3)", "[[[[]]]]", "{a: undefined, f: function () {}, n: NaN, d: new Date(1), s: new String('s')}", "{toJSON: function () { return 7 }}", "{toJSON: function () { return {a: [this.x]} }, x: 1}", "{a: {toJSON: function (k) { return k }}}", "{toJSON: function () { throw new TypeError('t') }}", "(function () { var o = {}; o.o = o; return o })()", "(function () { var a = []; a.push([a]); return a })()",
		"json.trail", "json.trail.b", "[json.trail, json.trail.o]", "{t: json.trail, u: json.trail.b}", "json.jsonPathSelector('$.b').getValues()", "json.jsonPathSelector('$..q').getValues()", "Object.create({p: 1})", "(function () { function F() { this.x = [1] } F.prototype.y = 2; return new F() })()", "Object.defineProperty({a: 1}, 'h', {value: 2, enumerable: false})", "Object.freeze({a: [1, {}]})", "{'': 0, ' ': 1, '0': 2, 'a.b': 3, '$': 4, '@': 5, '__proto__x': 6}", "{length: 2, 0: 'a', 1: 'b'}", "(function () { var a = [1, 2]; a.x = 3; return a })()", "{get g() { return [1] }}"}
	paths := []string{"$.a", "$.b[0]", "$.b[1,0]", "$.b[3]", "$.o.n", "$.o", "$..q", "$.*", "$.b[0:1]", "$...q", "$.b[?(@ > 1)]", "$.none.x", "$.a.x"}
	base := `{"a":1,"b":[1,2,{"q":3}],"o":{"q":{"q":0}}}`
	c.Extra("values of scripts", len(exprs))
	c.Parallel(len(exprs)*len(paths), func(i int) {
		e, p := exprs[i/len(paths)], paths[i%len(paths)]
		key := fmt.Sprintf("json.jsonPathSelector('%s').setValues(%s)", p, e)
		c.Eval(1)
		c.Case(func() string { return key }, func() *core.Fail {
			out, err := runJS(M{}, fmt.Sprintf(`json.trail = JSON.parse('%s');
var v = %s, text, r, again;
try { text = JSON.stringify(v) } catch (e) {}
if (typeof text !== 'string') text = v === undefined ? 'null' : '';
if (typeof v === 'number' && !isFinite(v)) text = '';
try { json.jsonPathSelector('%s').setValues(v); r = 'ok' } catch (e) { r = e.name }
try { again = JSON.stringify(v) } catch (e) {}
json.trail = {out: JSON.stringify([r, json.trail, text, again])}`, base, e, p))
			if err != nil {
				return core.Failf(key, key, "%s: %v", key, err)
			}
			r := out.(A)
			text := r[2].(string)
			if r[0] != "ok" && r[0] != "JSONPathError" {
				return core.Failf(key, key, "%s throws %v", key, r[0])
			}
			b := ref.ParseM(base)
			definite := !strings.ContainsAny(p, "*?:") && !strings.Contains(p, "..")
			if r[0] != "ok" && definite && ref.Canon(r[1]) != ref.Canon(b) {
				return core.Failf(key, key, "%s fails and leaves %s", key, ref.Canon(r[1]))
			}
			if text == "" {
				// not JSON: nothing is stated but that it does no harm
				return nil
			}
			if a, ok := r[3].(string); ok && a != text {
				return core.Failf(key, key, "%s changes the value from %s to %s", key, text, a)
			}
			w, werr := goSet(b, p, ref.Parse(text))
			if (werr != nil) != (r[0] != "ok") {
				return core.Failf(key, key, "%s: %v, the Go API: error %v", key, r[0], werr)
			}
			if werr == nil && ref.Canon(w) != ref.Canon(r[1]) {
				return core.Failf(key, key, "%s gives %s instead of %s", key, ref.Canon(r[1]), ref.Canon(w))
			}
			c.Nontrivial(1)
			return nil
		})
	})
}

// c22trails: what scripts can put in the place of json.trail. Node sets see what JSON.stringify makes of it, if that is the text
// of an object, and fail with an error which the script can catch if it isn't.
func c22trails(c *core.Ctx) {
	exprs := []string{"undefined", "null", "NaN", "Infinity", "0", "1", "-2.5", "true", "false", "''", "'x'", "'null'", "'{}'", "'{\"a\":1}'", "'[1]'", "'%s %v'",
		"function () { return 1 }", "JSON", "JSON.stringify", "new String('q')", "new String('{\"a\":1}')", "new Number(4)", "new Boolean(false)", "new Date(0)", "/x/g", "new Error('m')", "Math", "Object.create({a: 1})", "Object.create(null)",
		"{}", "{a: 1}", "{a: undefined}", "{a: function () {}}", "{a: NaN}", "{b: [1, [2]], o: {a: {a: 3}}}", "{a: [1, {a: 2}]}", "{a: [undefined, function () {}]}", "{a: new Date(0), o: new String('s')}", "{a: /x/, b: new Error('m')}", "{get a() { return 5 }}", "{get a() { throw new TypeError('%s') }}", "{get a() { throw 'text' }}",
		"{toJSON: function () { return undefined }}", "{toJSON: function () { return null }}", "{toJSON: function () { return 1 }}", "{toJSON: function () { return '{\"a\":1}' }}", "{toJSON: function () { return {a: 7} }}", "{toJSON: function () { return {a: [this.x]} }, x: 1}", "{a: {toJSON: function (k) { return k }}}", "{toJSON: function () { throw new RangeError('%d') }}", "{toJSON: function () { throw {name: 'n'} }}", "{a: {toJSON: function () { throw null }}}", "{toJSON: 1, a: 2}",
		"(function () { var o = {a: 1}; o.o = o; return o })()", "(function () { var o = {a: [{}]}; o.a[0].x = o.a; return o })()", "(function () { function F() { this.a = [1] } F.prototype.b = 2; return new F() })()", "Object.defineProperty({a: 1}, 'b', {value: [2], enumerable: false})", "Object.freeze({a: 1, b: [1, 2]})", "Object.freeze({a: {a: 1}})",
		"(function () { return arguments })(1, 2)", "json", "{trail: was}", "{a: was}", "was", "was.o", "was.a", "n", "n.getValues()[0]", "{a: n}"}
	paths := []string{"$.a", "$.b[0]", "$.o.a", "$.*", "$..a", "$.b[0:1]", "$.a[0]", "$.b[?(@ > 1)]"}
	base := `{"a":1,"b":[1,2,{"a":3}],"o":{"a":{"a":0}}}`
	c.Extra("trails of scripts", len(exprs))
	c.Parallel(len(exprs)*len(paths)*2, func(i int) {
		e, p, early := exprs[i/len(paths)/2], paths[i/2%len(paths)], i%2 == 0
		key := fmt.Sprintf("json.trail = %s; json.jsonPathSelector('%s')", e, p)
		before, after := "", fmt.Sprintf("sel = json.jsonPathSelector('%s')", p)
		if early {
			before, after = after, "1"
			key += " made before"
		}
		c.Eval(1)
		c.Case(func() string { return key }, func() *core.Fail {
			out, err := runJS(M{}, fmt.Sprintf(`json.trail = JSON.parse('%s');
var was = json.trail, sel, n = json.jsonPathSelector('$.o'), made = 'ok', form, bad = 'string', got, set, same = [], left;
function what(e) { return e instanceof Error ? e.name : 'thrown ' + typeof e }
function isSame(x) { return x === w || x !== x && w !== w }
%s;
var w = %s;
json.trail = w;
try { %s } catch (e) { made = what(e) }
same.push(isSame(json.trail));
try { form = JSON.stringify(w); bad = typeof form } catch (e) { bad = 'throws' }
if (sel) {
	try { got = ['ok', JSON.stringify(sel.getValues())] } catch (e) { got = [what(e)] }
	same.push(isSame(json.trail));
	try { sel.setValues([7]); set = 'ok' } catch (e) { set = what(e) }
	same.push(isSame(json.trail));
	if (set === 'ok') left = JSON.stringify(json.trail);
}
json.trail = {out: JSON.stringify([made, bad, form, got, set, same, left])}`, base, before, e, after))
			if err != nil {
				return core.Failf(key, key, "%s: %v", key, err)
			}
			r := out.(A)
			if r[0] != "ok" {
				return core.Failf(key, key, "%s: making the node set throws %v", key, r[0])
			}
			same := r[5].(A)
			if same[0] != true || same[1] != true {
				return core.Failf(key, key, "%s: reading replaces json.trail", key)
			}
			form, _ := r[2].(string)
			var d M
			if r[1] == "string" {
				if strings.HasPrefix(form, "[") {
					// arrays as roots have rules of their own (C29)
					return nil
				}
				d, _ = ref.Parse(form).(M)
			}
			got := r[3].(A)
			if d == nil {
				if got[0] != "JSONPathError" || r[4] != "JSONPathError" {
					return core.Failf(key, key, "%s: json.trail isn't an object in JSON, but getValues gives %v and setValues %v", key, got[0], r[4])
				}
				if same[2] != true {
					return core.Failf(key, key, "%s: setValues fails, but replaces json.trail", key)
				}
				c.Nontrivial(1)
				return nil
			}
			w, werr := goGet(d, p)
			if werr != nil && got[0] != "JSONPathError" || werr == nil && got[0] != "ok" {
				return core.Failf(key, key, "%s: getValues: %v, the Go API on %s: error %v", key, got[0], form, werr)
			}
			if werr == nil {
				if g := ref.Canon(ref.Parse(got[1].(string))); g != ref.Canon(w) {
					return core.Failf(key, key, "%s: getValues gives %s instead of %s", key, g, ref.Canon(w))
				}
				c.Nontrivial(1)
			}
			wd, serr := goSet(d, p, A{7.0})
			if serr != nil && r[4] != "JSONPathError" || serr == nil && r[4] != "ok" {
				return core.Failf(key, key, "%s: setValues: %v, the Go API on %s: error %v", key, r[4], form, serr)
			}
			if serr != nil {
				if same[2] != true {
					return core.Failf(key, key, "%s: setValues fails, but replaces json.trail", key)
				}
				return nil
			}
			if l, _ := r[6].(string); ref.Canon(ref.Parse(l)) != ref.Canon(wd) {
				return core.Failf(key, key, "%s: setValues gives %s instead of %s", key, l, ref.Canon(wd))
			}
			return nil
		})
	})
}

func c22steps(c *core.Ctx) {
	// wrong calls are errors which can be caught and change nothing
	for _, s := range []string{"json.jsonPathSelector()", "json.jsonPathSelector(5)", "json.jsonPathSelector('$.a', 1)", "json.jsonPathSelector(null)", "json.jsonPathSelector({})", "json.jsonPathSelector('$.a').setValues()", "json.jsonPathSelector('$.a').setValues(1, 2)", "json.jsonPathSelector(['$.a'])"} {
		s := s
		c.Eval(1)
		c.Case(func() string { return s }, func() *core.Fail {
			out, err := runJS(ref.ParseM(`{"a":1}`), fmt.Sprintf("delete json.trail['%s']; var r; try { %s; r = 'ok' } catch (e) { r = e.name } json.trail = {out: JSON.stringify([r, json.trail])}", selfKey, s))
			if err != nil || ref.Canon(out) != `["JSONPathError",{"a":1}]` {
				return core.Failf(s, s, "%s: %s, %v", s, ref.Canon(out), err)
			}
			return nil
		})
	}
	// sequences of steps: t is the current trail of the model, ns the path of the kept node set
	type st struct {
		t   M
		ns  string
		out A
	}
	type step struct {
		js string
		f  func(s *st)
	}
	stSet := func(p string, v string) step {
		return step{fmt.Sprintf("r(function () { json.jsonPathSelector('%s').setValues(%s) })", p, v), func(s *st) {
			m, err := goSet(s.t, p, ref.Parse(v))
			if err != nil {
				s.out = append(s.out, "JSONPathError")
				return
			}
			s.t = m
		}}
	}
	stGet := func(p string) step {
		return step{fmt.Sprintf("r(function () { out.push(json.jsonPathSelector('%s').getValues()) })", p), func(s *st) {
			a, err := goGet(s.t, p)
			if err != nil {
				s.out = append(s.out, "JSONPathError")
				return
			}
			s.out = append(s.out, ref.Copy(a))
		}}
	}
	stDo := func(js string, f func(m M)) step {
		return step{js, func(s *st) { s.t = ref.Copy(s.t).(M); f(s.t) }}
	}
	stKeep := func(p string) step {
		return step{fmt.Sprintf("r(function () { ns = json.jsonPathSelector('%s') })", p), func(s *st) { s.ns = p }}
	}
	steps := []step{
		stSet("$.a", `{"a":[1,2]}`), stSet("$.a.a[0]", `[null,"x"]`), stSet("$.b", `null`), stSet("$.l[0]", `null`), stSet("$.l[*]", `{"q":1}`), stSet("$..a", `7`), stSet("$.zz.q", `1`),
		stGet("$.l"), stGet("$.a.a"), stGet("$..q"), stGet("$.zz"),
		stDo("json.trail.a = [3, {q: 4}]", func(m M) { m["a"] = A{3.0, M{"q": 4.0}} }),
		stDo("json.trail.l = (json.trail.l || []).concat([9])", func(m M) {
			a, _ := m["l"].(A)
			m["l"] = append(append(A{}, a...), 9.0)
		}),
		stDo("delete json.trail.b", func(m M) { delete(m, "b") }),
		{"json.trail = {l: [1], a: {q: 2}}", func(s *st) { s.t = ref.ParseM(`{"l":[1],"a":{"q":2}}`) }},
		stKeep("$.l[0]"), stKeep("$..q"),
		{"r(function () { if (ns) out.push(ns.getValues()) })", func(s *st) {
			if s.ns != "" {
				stGet(s.ns).f(s)
			}
		}},
		{"r(function () { if (ns) ns.setValues([8]) })", func(s *st) {
			if s.ns != "" {
				stSet(s.ns, `[8]`).f(s)
			}
		}},
		{"r(function () { var v = json.jsonPathSelector('$.a').getValues(); v.push('m'); json.trail.m = v })", func(s *st) {
			a, err := goGet(s.t, "$.a")
			if err != nil {
				s.out = append(s.out, "JSONPathError")
				return
			}
			s.t = ref.Copy(s.t).(M)
			s.t["m"] = append(ref.Copy(a).(A), "m")
		}},
	}
	resetStates()
	// kept node sets of every kind of selector, read and set again after changes of what they depend on
	kept := []step{
		stKeep("$...q"), stKeep("$.l[-1:]"), stKeep("$.l[?(@.q > $.b )].q"), stKeep("$.*.q"), stKeep("$..l[1,0]"),
		steps[len(steps)-3], steps[len(steps)-2],
		stDo("json.trail.A = {q: 5, l: [6, {q: 1}]}", func(m M) { m["A"] = ref.ParseM(`{"q":5,"l":[6,{"q":1}]}`) }),
		stDo("json.trail.l = [{q: 4}].concat(json.trail.l || [])", func(m M) {
			a, _ := m["l"].(A)
			m["l"] = append(A{M{"q": 4.0}}, a...)
		}),
		stDo("json.trail.b = 3", func(m M) { m["b"] = 3.0 }),
		stDo("delete json.trail.a", func(m M) { delete(m, "a") }),
	}
	sequences := func(name string, steps []step, depth int) {
		var names []string
		for _, s := range steps {
			names = append(names, s.js)
		}
		c.Extra(name, names)
		c.Extra("depth of "+name, depth)
		base := ref.ParseM(`{"a":{"a":1,"q":0},"b":2,"l":[1,{"q":3}]}`)
		// all sequences which begin with the same two steps share one script
		var pre [][]int
		words(len(steps), depth-1, nil, func(w []int) bool { pre = append(pre, append([]int{}, w...)); return true })
		c.Parallel(len(pre), func(i int) {
			c.Eval(int64(len(steps)))
			key := "steps"
			for _, x := range pre[i] {
				key += "; " + steps[x].js
			}
			c.Case(func() string { return key }, func() *core.Fail {
				prog := "var d = '" + ref.Canon(base) + "', all = [], out, ns; function r(f) { try { f() } catch (e) { out.push(e.name) } }\n"
				for x := range steps {
					prog += "json.trail = JSON.parse(d); out = []; ns = null;\n"
					for _, y := range append(append([]int{}, pre[i]...), x) {
						prog += steps[y].js + ";\n"
					}
					prog += "all.push([out, json.trail]);\n"
				}
				prog += "json.trail = {out: JSON.stringify(all)}"
				got, err := runJS(M{}, prog)
				if err != nil {
					return core.Failf(key, key, "%s: %v", key, err)
				}
				for x := range steps {
					s := &st{t: ref.Copy(base).(M), out: A{}}
					for _, y := range append(append([]int{}, pre[i]...), x) {
						steps[y].f(s)
					}
					if g, w := ref.Canon(got.(A)[x]), ref.Canon(A{s.out, s.t}); g != w {
						return core.Failf(key+"; "+steps[x].js, prog, "%s; %s: gives %s instead of %s", key, steps[x].js, g, w)
					}
					c.Nontrivial(1)
				}
				return nil
			})
		})
	}
	deeper := 0
	if c.Thorough {
		deeper = 1
	}
	sequences("steps", steps, 4+deeper)
	sequences("steps with kept node sets", kept, 4+deeper)
	c.Sample(steps[4].js)
}

// c21: the same manipulation as a script, as callback operations and as calls of the API.
func c21(c *core.Ctx) {
	c.Rule("all sequences of at most n operations from the menu on all start documents, pairs of operations on documents of every size up to a bound and repeated up to that often, run as a JavaScript script, as a Go callback which works on the map, as a Go callback which uses the API, and as direct API calls; the four documents must be the same, and the one of the model; also each operation as a script of its own, in key order; non-trivial: sequences which change the document")
	type o struct {
		js  string
		raw func(m M)                   // on the map
		api func(j json_map.JsonMapInt) // through the API
	}
	obj := func(v V) M { m, _ := v.(M); return m }
	arr := func(v V) A { a, _ := v.(A); return a }
	ops := []o{
		{"t.x = 1", func(m M) { m["x"] = 1.0 }, func(j json_map.JsonMapInt) { j.MustSet("$.x", 1.0) }},
		{"t.x = 'é\"'", func(m M) { m["x"] = "é\"" }, func(j json_map.JsonMapInt) { j.MustSet("$.x", "é\"") }},
		{"t.l = [1, [2], {a: 3}]", func(m M) { m["l"] = A{1.0, A{2.0}, M{"a": 3.0}} }, func(j json_map.JsonMapInt) { j.MustSet("$.l", A{1.0, A{2.0}, M{"a": 3.0}}) }},
		{"t.o = {}", func(m M) { m["o"] = M{} }, func(j json_map.JsonMapInt) { j.MustSet("$.o", M{}) }},
		{"t.o.k = [t.x]", func(m M) { obj(m["o"])["k"] = A{m["x"]} }, func(j json_map.JsonMapInt) { j.MustSet("$.o.k", A{j.MustGet("$.x")[0]}) }},
		{"t.l[0] = {b: t.x}", func(m M) { arr(m["l"])[0] = M{"b": m["x"]} }, func(j json_map.JsonMapInt) { j.MustSet("$.l[0]", M{"b": j.MustGet("$.x")[0]}) }},
		{"delete t.x", func(m M) { delete(m, "x") }, func(j json_map.JsonMapInt) { j.MustDelete("$.x") }},
		{"delete t.o.k", func(m M) { delete(obj(m["o"]), "k") }, func(j json_map.JsonMapInt) { j.MustDelete("$.o.k") }},
		{"t.l.splice(1, 1)", func(m M) { a := arr(m["l"]); m["l"] = append(append(A{}, a[:1]...), a[2:]...) }, func(j json_map.JsonMapInt) { j.MustDelete("$.l[1]") }},
		{"t.l.push(t.l.length)", func(m M) { a := arr(m["l"]); m["l"] = append(append(A{}, a...), float64(len(a))) }, func(j json_map.JsonMapInt) { j.MustPush("$.l", float64(len(j.MustGet("$.l")))) }},
		{"t.l.splice(1, 0, 'i')", func(m M) { a := arr(m["l"]); m["l"] = append(append(append(A{}, a[:1]...), "i"), a[1:]...) }, func(j json_map.JsonMapInt) { j.MustPush("$.l", "i", 1) }},
		{"t.p = t.l.shift()", func(m M) { a := arr(m["l"]); m["p"] = a[0]; m["l"] = append(A{}, a[1:]...) }, func(j json_map.JsonMapInt) { j.MustSet("$.p", j.MustPop("$.l")[0]) }},
		{"for (var i = 0; i < t.l.length; i++) t.l[i] = {w: 0}", func(m M) {
			for i := range arr(m["l"]) {
				arr(m["l"])[i] = M{"w": 0.0}
			}
		}, func(j json_map.JsonMapInt) { j.MustSet("$.l[*]", M{"w": 0.0}) }},
		{"t.x = t.l.length", func(m M) { m["x"] = float64(len(arr(m["l"]))) }, func(j json_map.JsonMapInt) { j.MustSet("$.x", float64(len(j.MustGet("$.l")))) }},
		{"if (t.l[0] === 1) t.one = true", func(m M) {
			if arr(m["l"])[0] == 1.0 {
				m["one"] = true
			}
		}, func(j json_map.JsonMapInt) {
			if j.MustGet("$.l[0]")[0] == 1.0 {
				j.MustSet("$.one", true)
			}
		}},
		{"json.jsonPathSelector('$..a').setValues([5])", func(m M) { setAll(m, "a", func() V { return A{5.0} }) }, func(j json_map.JsonMapInt) { j.MustSet("$..a", A{5.0}) }},
		{"json.jsonPathSelector('$.l[?(typeof @ === \"number\")]').setValues('n')", func(m M) {
			for i, e := range arr(m["l"]) {
				if _, ok := e.(float64); ok {
					arr(m["l"])[i] = "n"
				}
			}
		}, func(j json_map.JsonMapInt) { j.MustSet("$.l[?(typeof @ === 'number')]", "n") }},
	}
	// what an operation needs
	needs := func(i int, m M) bool {
		js := ops[i].js
		if strings.Contains(js, "t.l[0]") || strings.Contains(js, "shift") {
			if len(arr(m["l"])) == 0 {
				return false
			}
		}
		if strings.Contains(js, "t.l.") || strings.Contains(js, "$.l[") {
			// the API takes a value which is not an array to be one element, and cannot tell [] within [] from it
			a, ok := m["l"].(A)
			if !ok || len(a) == 0 {
				return false
			}
			if strings.Contains(js, "splice(1, 1)") && len(a) < 2 {
				return false
			}
		}
		if strings.Contains(js, "= [t.x]") || strings.Contains(js, "{b: t.x}") {
			x, ok := m["x"]
			if _, isA := x.(A); !ok || isA || x == nil {
				return false
			}
		}
		if strings.Contains(js, "t.o.k") {
			if _, ok := m["o"].(M); !ok {
				return false
			}
		}
		if strings.Contains(js, "=== 1") {
			if _, isA := arr(m["l"])[0].(A); isA {
				return false // reading an array gives its elements
			}
		}
		if strings.Contains(js, "t.p = ") {
			if v := arr(m["l"])[0]; v == nil {
				return false // setting null is a deletion
			}
		}
		return true
	}
	starts := []string{`{}`, `{"l":[1,{"a":1},[2]],"o":{"a":{"a":1},"k":0},"x":"s"}`, `{"l":[null,[]],"o":{"l":[{"a":[1]}]}}`}
	resetStates()
	depth := 4
	if c.Thorough {
		depth = 5
	}
	var names []string
	for _, x := range ops {
		names = append(names, x.js)
	}
	c.Extra("operations", names)
	c.Extra("starts", starts)
	c.Extra("depth", depth)
	run := func(start string, w []int) {
		m := ref.ParseM(start)
		js := "var t = json.trail;\n"
		key := start
		for _, x := range w {
			if !needs(x, m) {
				return
			}
			ops[x].raw(m)
			js += ops[x].js + "; t = json.trail;\n"
			key += " ; " + ops[x].js
		}
		want := ref.Canon(m)
		reach(want)
		c.Eval(1)
		c.Transitions(int64(len(w)))
		c.Traces(1)
		c.Case(func() string { return key }, func() *core.Fail {
			if want != ref.Canon(ref.Parse(start)) {
				c.Nontrivial(1)
			}
			forms := map[string]func(j *jom.JsonMap){
				"script": func(j *jom.JsonMap) { (*j.GetInsides())[selfKey] = "#//!js\n" + js; j.Run() },
				"callback on the map": func(j *jom.JsonMap) {
					(*j.GetInsides())[selfKey] = func(jm json_map.JsonMapInt) {
						for _, x := range w {
							ops[x].raw(*jm.GetInsides())
						}
					}
					j.Run()
				},
				"callback using the API": func(j *jom.JsonMap) {
					(*j.GetInsides())[selfKey] = func(jm json_map.JsonMapInt) {
						for _, x := range w {
							ops[x].api(jm)
						}
					}
					j.Run()
				},
				"direct calls": func(j *jom.JsonMap) {
					for _, x := range w {
						ops[x].api(j)
					}
				},
				"one script for each": func(j *jom.JsonMap) {
					for i, x := range w {
						(*j.GetInsides())[fmt.Sprintf("%s%d", selfKey, i)] = "#//!js\nvar t = json.trail; " + ops[x].js
					}
					j.Run()
				},
				"one callback for each": func(j *jom.JsonMap) {
					for i, x := range w {
						x := x
						(*j.GetInsides())[fmt.Sprintf("%s%d", selfKey, i)] = func(jm json_map.JsonMapInt) { ops[x].api(jm) }
					}
					j.Run()
				},
			}
			var names []string
			for f := range forms {
				names = append(names, f)
			}
			sort.Strings(names)
			for _, f := range names {
				if f[:3] == "one" && len(w) > 2 && !c.Thorough {
					continue
				}
				// $..a and @ paths do not meet the script itself: its key is none of those
				j := jom.New()
				if err := j.Unmarshal([]byte(start)); err != nil {
					return core.Failf(key, key, "%s: %v", key, err)
				}
				if err := tryErr(func() error { forms[f](j); return nil }); err != nil {
					return core.Failf(key, key, "%s: as %s: %v", key, f, err)
				}
				out, err := j.Marshal()
				if err != nil || ref.Canon(ref.Parse(string(out))) != want {
					return core.Failf(key, key, "%s: as %s gives %s instead of %s", key, f, out, want)
				}
			}
			return nil
		})
	}
	for l := 1; l <= depth; l++ {
		l := l
		pl := l
		if pl > 2 {
			pl = 2
		}
		var pre [][]int
		words(len(ops), pl, nil, func(w []int) bool { pre = append(pre, append([]int{}, w...)); return true })
		c.Parallel(len(pre)*len(starts), func(i int) {
			words(len(ops), l, pre[i/len(starts)], func(w []int) bool {
				run(starts[i%len(starts)], append([]int{}, w...))
				return !c.Expired()
			})
		})
	}
	// documents and sequences of every size
	size, twice := 36, 16
	if c.Thorough {
		size, twice = 80, 30
	}
	c.Extra("size", size)
	c.Parallel(size, func(i int) {
		n := size - i
		l, o := longArray(n), wideObject(n)
		start := ref.Canon(M{"l": l, "o": o, "x": strings.Repeat("x", n)})
		for a := range ops {
			for b := range ops {
				if c.Expired() {
					return
				}
				run(start, []int{a, b})
				if n <= twice && n > 2 {
					var w []int
					for k := 0; k < n; k++ {
						w = append(w, []int{a, b}[k%2])
					}
					for _, s := range starts {
						run(s, w)
					}
				}
			}
			if n > twice {
				for _, s := range starts {
					w := []int{2}
					for k := 0; k < n; k++ {
						w = append(w, a)
					}
					run(s, w)
				}
			}
		}
	})
	countStates(c)
	c.Sample(names[8])
}

// setAll sets every member k, at any depth but not within what was set.
func setAll(v V, k string, mk func() V) {
	switch x := v.(type) {
	case M:
		for n := range x {
			if n == k {
				x[n] = mk()
			} else {
				setAll(x[n], k, mk)
			}
		}
	case A:
		for _, e := range x {
			setAll(e, k, mk)
		}
	}
}
