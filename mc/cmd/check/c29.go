package main

import (
	"fmt"
	"strings"

	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"

	"verif/core"
	"verif/ref"
)

func init() {
	register("C29", "exploration", c29)
	register("C30", "exploration", c30)
}

// errPlace is a script in a document: the path of its object (with .[i] written as [i]), its key, the keys and indices which lead to
// the object.
type errPlace struct {
	scope, key string
	at         []string
}

// errPlaces lists the scripts of a tree in the order in which fill meets them.
func errPlaces(v V) (out []errPlace) {
	var rec func(v V, scope string, at []string)
	rec = func(v V, scope string, at []string) {
		switch x := v.(type) {
		case M:
			for _, k := range ref.Keys(x) {
				if x[k] == marker {
					out = append(out, errPlace{scope, k, append([]string{}, at...)})
					continue
				}
				rec(x[k], scope+"."+k, append(append([]string{}, at...), k))
			}
		case A:
			for i, e := range x {
				rec(e, fmt.Sprintf("%s[%d]", scope, i), append(append([]string{}, at...), fmt.Sprint(i)))
			}
		}
	}
	rec(v, "$", nil)
	return out
}

// before: p has to run before q.
func (p errPlace) before(q errPlace) bool {
	if len(p.at) > len(q.at) {
		return false
	}
	for i := range p.at {
		if p.at[i] != q.at[i] {
			return false
		}
	}
	return len(p.at) < len(q.at) || p.key < q.key
}

type errKind struct {
	name string
	// text of the script, "" for an unsupported language
	js   string
	code string
	// what the error has to contain
	says []string
	// the error does not name the place
	nowhere bool
}

// errorIs compares an error of an evaluation with what a script of that kind at that place must give.
func (k errKind) errorIs(err error, p errPlace, script string) string {
	text := err.Error()
	if !strings.Contains(text, "("+k.code+")") {
		return "the error has no code " + k.code
	}
	for _, other := range []string{"-1", "-2", "-3", "-4", "-5", "-6"} {
		if i := strings.Index(text, "("+other+")"); other != k.code && i >= 0 && i < strings.Index(text, "("+k.code+")") {
			return "the error is said to be of code " + other
		}
	}
	for _, s := range k.says {
		if !strings.Contains(text, s) {
			return fmt.Sprintf("the error does not say %q", s)
		}
	}
	if !k.nowhere {
		if !strings.Contains(strings.ReplaceAll(text, ".[", "["), "<"+p.scope+">") {
			return "the error does not name the object " + p.scope
		}
		if !strings.Contains(text, "\n"+script+"\n") {
			return fmt.Sprintf("the error does not contain the script %q", script)
		}
	}
	return ""
}

func c29(c *core.Ctx) {
	c.Rule("every kind of failure at every script position of all trees of at most n nodes and some positions of trees and scripts of every size up to m, alone among working scripts and together with a failing script at every other position: the error has the code of its kind, names the object and contains the script of a failing script which no other failing one must run before, and what was thrown; for all documents and paths of the read space, the Must forms against the plain forms on an equal document: same values, same document afterwards, and a panic with an error exactly if there is an error (of the same text for reads), which has the code of JSON paths; non-trivial: failures")
	kinds := []errKind{
		{name: "throw string", js: "throw 'thrown text'", code: "-5", says: []string{"thrown text"}},
		{name: "throw number", js: "throw 4711", code: "-5", says: []string{"4711"}},
		{name: "throw error", js: "throw new TypeError('some message')", code: "-5", says: []string{"TypeError", "some message"}},
		{name: "syntax", js: "var = 1", code: "-5"},
		{name: "unterminated", js: "if (1) {", code: "-5"},
		{name: "reference", js: "json.trail.q = 1; nothing.x", code: "-5", says: []string{"ReferenceError", "nothing"}},
		{name: "type", js: "null.x", code: "-5", says: []string{"TypeError"}},
		{name: "recursion", js: "function f() { f() } f()", code: "-5", says: []string{"RangeError"}},
		{name: "path", js: "json.jsonPathSelector('$.no.such').getValues()", code: "-5", says: []string{"JSONPathError", "(-6)"}},
		{name: "path syntax", js: "json.jsonPathSelector('nope')", code: "-5", says: []string{"JSONPathError", "(-6)"}},
		{name: "overridden", js: "json.scopePath = 5; console.log('x')", code: "-4", says: []string{"json.scopePath"}, nowhere: true},
		{name: "multiline", js: "var x = 1;\nvar y = '`$%s@<>';\nthrow x + '|' + y", code: "-5", says: []string{"1|`$%s@<>"}},
	}
	n := 5
	if c.Thorough {
		n = 6
	}
	trees := scriptTrees(n, 2, "a", "b c")
	for _, t := range scriptTrees(n-1, 2, "a.b", "é") {
		trees = append(trees, t)
	}
	for _, t := range scriptTrees(n-2, 2, "a") {
		trees = append(trees, M{"array": A{t, A{ref.Copy(t), 1.0}}})
	}
	c.Extra("trees", len(trees))
	var names []string
	for _, k := range kinds {
		names = append(names, k.name)
	}
	c.Extra("kinds", names)
	// at is the failing script, with is another one (or -1)
	failing := func(t M, ps []errPlace, k errKind, at int, k2 errKind, with int) {
		key := fmt.Sprintf("%s at %d, %s at %d of %s", k.name, at, k2.name, with, ref.Canon(t))
		c.Eval(1)
		c.Case(func() string { return key }, func() *core.Fail {
			text := func(n int, k errKind) string { return fmt.Sprintf("// script %d\n%s", n, k.js) }
			d, _ := fill(t, func(n int) V {
				switch n {
				case at:
					return "#//!js\n" + text(n, k)
				case with:
					return "#//!js\n" + text(n, k2)
				}
				return "#//!js\n" + text(n, errKind{js: fmt.Sprintf("json.trail.x%d = 1", n)})
			})
			out, err := evalDoc(d.(M), d.(M)["array"] != nil)
			if err == nil || out != "" {
				return core.Failf(key, ref.Canon(d), "%s: Eval gives %q, error %v", key, out, err)
			}
			w := ""
			if with < 0 || !ps[with].before(ps[at]) {
				w = k.errorIs(err, ps[at], text(at, k))
			} else {
				w = "-"
			}
			if w != "" && with >= 0 && !ps[at].before(ps[with]) {
				w = k2.errorIs(err, ps[with], text(with, k2))
			}
			if w != "" {
				return core.Failf(key, ref.Canon(d), "%s: %s: %v", key, w, err)
			}
			c.Nontrivial(1)
			return nil
		})
	}
	c.Parallel(len(trees), func(i int) {
		t := trees[i]
		ps := errPlaces(t)
		for at := range ps {
			for ki, k := range kinds {
				if c.Expired() {
					return
				}
				failing(t, ps, k, at, errKind{}, -1)
				for with := range ps {
					// two kinds which can be told apart
					if with != at && (c.Thorough || (ki+with+i)%3 == 0) {
						failing(t, ps, k, at, kinds[(ki+1+with)%len(kinds)], with)
					}
				}
			}
		}
	})
	// trees and scripts of every size
	size := 12
	if c.Thorough {
		size = 40
	}
	c.Extra("size of trees", size)
	large := append(scaledTrees(size), likeTrees(c.Thorough)...)
	c.Parallel(len(large), func(i int) {
		ps := errPlaces(large[i])
		for _, at := range []int{0, len(ps) / 2, len(ps) - 1} {
			for _, k := range []int{0, 3, i % len(kinds)} {
				if c.Expired() {
					return
				}
				failing(large[i], ps, kinds[k], at, errKind{}, -1)
				if with := len(ps) - 1 - at; with != at {
					failing(large[i], ps, kinds[k], at, kinds[(k+1)%len(kinds)], with)
				}
			}
		}
	})
	long := 6 * size
	c.Extra("size of scripts", long)
	c.Parallel(long, func(n int) {
		name := strings.Repeat("n", n)
		d := M{name + "a": A{M{name + "s": marker}}}
		for x, k := range []errKind{
			{name: "late", js: strings.Repeat("json.trail.x = 1;\n", n) + "throw 'at the end'", says: []string{"at the end"}},
			{name: "early", js: "throw 'at once'" + strings.Repeat("\n// more", n), says: []string{"at once"}},
			{name: "long", js: "throw '" + strings.Repeat("m", 20*n) + "!'", says: []string{strings.Repeat("m", 20*n) + "!"}},
			{name: "lines", js: "throw new Error('" + strings.Repeat("m\\n", n) + "!')", says: []string{"Error: " + strings.Repeat("m\n", n) + "!"}},
			{name: "deep", js: strings.Repeat("(function () { ", n) + "throw 'inside'" + strings.Repeat(" })()", n), says: []string{"inside"}},
			{name: "broken", js: strings.Repeat("(", n) + ";"},
			{name: "unicode", js: "throw '" + strings.Repeat("é𝄞", n) + "!'", says: []string{strings.Repeat("é𝄞", n) + "!"}},
		} {
			if k.code = "-5"; x == 5 && n == 0 {
				continue
			}
			k.name = fmt.Sprint(k.name, " ", n)
			failing(d, errPlaces(d), k, 0, errKind{}, -1)
		}
	})
	// sizes at which buffers end
	big := powers(long, 1<<17+1)
	c.Parallel(len(big), func(i int) {
		n := big[len(big)-1-i]
		name := "n"
		if n < 20000 {
			name = strings.Repeat("n", n)
		}
		d := M{name: A{M{"s": marker}}, "o": M{"q": marker}}
		for _, k := range []errKind{
			{name: "late", js: strings.Repeat("\n", n) + "throw 'at the end'", says: []string{"at the end"}},
			{name: "after", js: "throw 'at once' // " + strings.Repeat("m", n) + "!", says: []string{"at once"}},
			{name: "long", js: "throw 'm' + new Array(" + fmt.Sprint(n) + ").join('m') + '!'", says: []string{strings.Repeat("m", n) + "!"}},
			{name: "lines", js: "throw new Error(new Array(" + fmt.Sprint(n) + ").join('\\n') + '!')", says: []string{"Error: " + strings.Repeat("\n", n-1) + "!"}},
			{name: "syntax", js: "/*" + strings.Repeat("é", n) + "*/ var = 1"},
		} {
			k.code = "-5"
			k.name = fmt.Sprint(k.name, " ", n)
			for at := range errPlaces(d) {
				failing(d, errPlaces(d), k, at, errKind{}, -1)
			}
		}
	})
	// texts which look like something else: thrown, as comments, and as names of the objects
	like := lookalikes()
	c.Extra("lookalikes", len(like))
	c.Parallel(len(like), func(i int) {
		a := like[i]
		q := ref.Canon(a)
		ks := []errKind{
			{name: "throw " + q, js: "throw 'x' + " + q + " + 'y'", says: []string{"x" + a + "y"}},
			{name: "throw error " + q, js: "throw new RangeError(" + q + " + 'y')", says: []string{"RangeError: " + a + "y"}},
			{name: "after " + q, js: "var q = " + q + "; throw 'z'; //" + strings.NewReplacer("\n", "", "\r", "", "\u2028", "", "\u2029", "").Replace(a), says: []string{"z"}},
		}
		for x := range ks {
			ks[x].code = "-5"
		}
		if strings.Contains(a, "%") {
			// the constructor of otto takes its argument for a format
			ks = []errKind{ks[0], ks[2]}
		}
		if a == "\U0010ffff" || a == "\U0001f600" {
			ks = ks[2:]
		}
		for _, o := range like {
			if o == a || c.Thorough {
				d := M{a + "k": M{"s": marker, o + "b": A{M{"t": marker}}}}
				if strings.ContainsAny(a+o, "\n\r[]") {
					d = M{"k": M{"s": marker}}
				}
				for at := range errPlaces(d) {
					for _, k := range ks {
						failing(d, errPlaces(d), k, at, errKind{}, -1)
					}
				}
			}
			// the text of another one
			if o != a && (c.Thorough || strings.ContainsAny(a+o, "%\\<")) {
				k := errKind{name: "throw " + q + ref.Canon(o), js: "throw " + q + " + " + ref.Canon(o) + " + 'y'", code: "-5", says: []string{a + o + "y"}}
				if strings.Contains(a+o, "\U0010ffff") || strings.Contains(a+o, "\U0001f600") {
					k.says = nil
				}
				d := M{"k": M{"s": marker}}
				failing(d, errPlaces(d), k, 0, errKind{}, -1)
			}
		}
	})
	// unsupported languages: found before anything runs
	trees = append(trees, large...)
	c.Parallel(len(trees), func(i int) {
		t := trees[i]
		for at, p := range errPlaces(t) {
			at := at
			key := fmt.Sprintf("unsupported at %d of %s", at, ref.Canon(t))
			c.Eval(1)
			c.Case(func() string { return key }, func() *core.Fail {
				d, _ := fill(t, func(n int) V {
					if n == at {
						return "#//!zz\nthe text"
					}
					return "#//!js\n1"
				})
				out, err := evalDoc(d.(M), d.(M)["array"] != nil)
				if err == nil || out != "" {
					return core.Failf(key, ref.Canon(d), "%s: Eval gives %q, error %v", key, out, err)
				}
				if w := (errKind{code: "-2", says: []string{"zz", "the text"}, nowhere: true}).errorIs(err, p, ""); w != "" {
					return core.Failf(key, ref.Canon(d), "%s: %s: %v", key, w, err)
				}
				c.Nontrivial(1)
				return nil
			})
		}
	})
	// Must forms and plain forms
	space := readSpace
	if !c.Thorough {
		space = func(c *core.Ctx, f func(rc readCase)) {
			cross := func(ds []M, ps []path) {
				c.Parallel(len(ds), func(i int) {
					for _, p := range ps {
						if c.Expired() {
							return
						}
						f(readCase{ds[i], p})
					}
				})
			}
			small := append(shapes(3, 3, "a", "b"), withScalar(shapes(3, 3, "a", "b"), nil)...)
			cross(small, allPaths(baseToks(), 3, 0))
			cross(shapes(5, 3, "a", "b"), allPaths(baseToks(), 1, 0))
			cross(shapes(4, 3, "a", "b"), allPaths(baseToks(), 2, 0))
			var pf []path
			for _, p := range allPaths(append(baseToks(), filterToks()...), 2, 1) {
				if p.filter == 1 {
					pf = append(pf, p)
				}
			}
			cross(small, pf)
		}
	}
	space(c, func(rc readCase) {
		c.Eval(1)
		key := fmt.Sprintf("%s on %s", rc.p.text, ref.Canon(rc.d))
		c.Case(func() string { return key }, func() *core.Fail { return mustAgrees(c, key, rc) })
	})
	// scripts which are halted
	globals.HaltingDelay = 1
	halted := errKind{name: "halted", js: "while (true) {}", code: "-1"}
	for _, t := range []M{{"s": marker}, {"a": M{"b c": M{"s": marker}}, "z": 1.0}, {"a": A{1.0, M{"s": marker}}, "z": marker}, {"array": A{A{}, A{M{"k": marker}}}}} {
		ps := errPlaces(t)
		for at := range ps {
			failing(t, ps, halted, at, errKind{}, -1)
		}
	}
	// the templates of the errors are what they were
	c.Eval(1)
	c.Case(func() string { return "templates" }, func() *core.Fail {
		for _, e := range []struct {
			t    *globals.RuntimeError
			code string
		}{{&globals.HaltingProblem, "-1"}, {&globals.UnsupportedScriptLang, "-2"}, {&globals.BuiltinGetterError, "-3"}, {&globals.OverriddenBuiltin, "-4"}, {&globals.ScriptError, "-5"}, {&globals.JsonPathError, "-6"}} {
			for i := 0; i < 2; i++ {
				a, b, z := e.t.FillError("first", "second").Error(), e.t.FillError("third").Error(), e.t.FillError().Error()
				pre := "(" + e.code + ") "
				if !strings.HasPrefix(a, pre) || !strings.HasPrefix(b, pre) || !strings.HasPrefix(z, pre) || !strings.HasSuffix(a, ": first, second") || !strings.HasSuffix(b, ": third") || strings.TrimSuffix(a, ": first, second") != z || strings.TrimSuffix(b, ": third") != z {
					return core.Failf("templates", e.code, "errors of code %s: %q, %q, %q", e.code, a, b, z)
				}
			}
		}
		return nil
	})
	c.Sample(names)
}

// mustAgrees compares the two forms of reads and writes.
func mustAgrees(c *core.Ctx, key string, rc readCase) *core.Fail {
	a, b := doc(rc.d), doc(rc.d)
	nodes, err := a.JsonPathSelector(rc.p.text)
	var values []interface{}
	p := try(func() { values = b.MustGet(rc.p.text) })
	if w := sameError(err, p, true); w != "" {
		return core.Failf(key, key, "reading %s: %s", key, w)
	}
	if err != nil {
		c.Nontrivial(1)
	} else {
		var want []interface{}
		for _, n := range nodes {
			want = append(want, n.Value)
		}
		if canonList(want) != canonList(values) {
			return core.Failf(key, key, "reading %s: JsonPathSelector gives %s, MustGet %s", key, canonList(want), canonList(values))
		}
	}
	for _, v := range []V{"new", nil} {
		a, b := doc(rc.d), doc(rc.d)
		err := a.JsonPathSetter(rc.p.text, v)
		p := try(func() {
			if v == nil {
				b.MustDelete(rc.p.text)
			} else {
				b.MustSet(rc.p.text, v)
			}
		})
		if w := sameError(err, p, false); w != "" {
			return core.Failf(key, key, "setting %s to %v: %s", key, v, w)
		}
		// (a failing one leaves the part of its places it came to)
		if x, y := canonOf(a), canonOf(b); err == nil && x != y {
			return core.Failf(key, key, "setting %s to %v: JsonPathSetter leaves %s, MustSet or MustDelete %s", key, v, x, y)
		}
	}
	return nil
}

// sameError compares a returned error with what was panicked with. If places are visited in the order of a map, the errors need not
// have the same text.
func sameError(err error, p interface{}, text bool) string {
	if err == nil && p == nil {
		return ""
	}
	e, ok := p.(error)
	switch {
	case err == nil || p == nil || !ok:
		return fmt.Sprintf("one form fails with %v, the other one panics with %v", err, p)
	case !strings.HasPrefix(err.Error(), "(-6) "):
		return fmt.Sprintf("the error %v is not one of JSON paths", err)
	case !strings.HasPrefix(e.Error(), "(-6) "):
		return fmt.Sprintf("the error %v is not one of JSON paths", e)
	case text && e.Error() != err.Error():
		return fmt.Sprintf("one form fails with %v, the other one panics with %v", err, e)
	}
	return ""
}

// c30: what a script does to its interpreter stays there.
func c30(c *core.Ctx) {
	c.Rule("all pairs of a script which changes its interpreter (or several of them) and a probe which looks at the interpreter, as scripts of one object, of nested objects and of consecutive evaluations, as a script followed by a filter and a filter followed by a script or filter, with the first one ending normally or failing: the probe sees what it sees alone; non-trivial: all pairs")
	effects := []string{
		"x = 1", "var x = 1, y = 2", "function f() { return 1 } f()", "this.x = 5", "eval('x = 1')", "new Function('x = 1')()", "(function () { x = 1 })()",
		"Array.prototype.push = function () { return 'pushed' }", "Array.prototype.extra = 1", "Object.prototype.x = 1", "String.prototype.x = 1", "Number.prototype.toString = function () { return 'number' }", "String.prototype.toUpperCase = function () { return 'upper' }",
		"JSON.x = 1", "Math = null", "Math.max = function () { return 'max' }", "Date = 5", "Error.prototype.name = 'Other'", "parseInt = null", "isNaN = function () { return true }", "RegExp.prototype.test = function () { return 'test' }", "Boolean.prototype.valueOf = function () { return false }",
		"console = 1", "console.log = null", "json.extra = 1", "json.jsonPathSelector = null", "json.scopePath = 'elsewhere'", "delete json.scopePath", "delete Math", "undefined = 1", "encodeURIComponent = 1", "Function.prototype.call = null", "Function.prototype.x = 1",
		"Object.defineProperty(Array.prototype, 'length2', {get: function () { return 2 }})", "Object.freeze(Math)", "Object.preventExtensions(this)", "__currentNode__ = 1", "__currentNodeLiteral__ = 1", "__modifiedTrail__ = 1", "nodeValues = [1]", "/a/g.exec('aaa')", "Object.keys = function () { return ['keys'] }", "String = null", "json = {trail: json.trail, y: 1}",
		"for (x in {a: 1, b: 2}) { y = x }", "try { throw 7 } catch (x) { y = x }", "if (typeof x === 'undefined') { x = 0 } x++",
	}
	looks := []string{
		"typeof x", "typeof y", "typeof f", "[].push(1)", "typeof [].extra", "typeof {}.x", "typeof 'a'.x", "'' + (12).toString()", "'a'.toUpperCase()", "typeof JSON.x", "typeof Math", "Math.max(1, 2)", "typeof Date", "new Error('m').name", "typeof parseInt", "isNaN(1)", "/a/.test('b')", "(true).valueOf()",
		"typeof console", "typeof console.log", "typeof encodeURIComponent", "typeof Function.prototype.call", "typeof isNaN.x", "typeof [].length2", "Object.isFrozen(Math)", "Object.isExtensible(this)", "typeof __modifiedTrail__", "typeof nodeValues", "Object.keys({a: 1}).join()", "typeof String", "typeof undefined", "parseInt('7')", "[1, 2].length", "RegExp.lastMatch",
	}
	jsonLooks := []string{"typeof json.extra", "typeof json.jsonPathSelector", "json.scopePath", "typeof json.y", "Object.keys(json).sort().join()", "typeof __currentNode__", "typeof __currentNodeLiteral__"}
	collect := func(exprs []string) string {
		s := ""
		for i, e := range exprs {
			if i > 0 {
				s += " + '|' + "
			}
			s += "(function () { try { return '' + (" + e + ") } catch (e) { return 'fails' } }).apply(this)"
		}
		return s
	}
	// Function.prototype.apply is used by the probes: no effect touches it
	probe := "json.trail.p = " + collect(append(append([]string{}, looks...), jsonLooks...))
	filterProbe := func(k int) string { return "(" + collect(looks[k:k+1]) + ") === '" }
	setups := map[string]func(e string) []M{
		// the last document's member p is what the probe saw
		"one object": func(e string) []M { return []M{{"a": e, "b": probe}} },
		"between":    func(e string) []M { return []M{{"a": "1", "b": e, "c": probe}} },
		"nested":     func(e string) []M { return []M{{"s": e, "in": M{"b": probe}}} },
		"arrays":     func(e string) []M { return []M{{"s": "1", "in": A{M{"b": e}, A{M{"b": probe}}}}} },
		"twice":      func(e string) []M { return []M{{"a": e}, {"a": e}, {"b": probe}} },
	}
	find := func(v V) (s string) {
		var rec func(v V)
		rec = func(v V) {
			switch x := v.(type) {
			case M:
				if p, ok := x["p"].(string); ok {
					s = p
				}
				for _, k := range ref.Keys(x) {
					rec(x[k])
				}
			case A:
				for _, e := range x {
					rec(e)
				}
			}
		}
		rec(v)
		return s
	}
	var toScripts func(v V) V
	toScripts = func(v V) V {
		switch x := v.(type) {
		case M:
			m := M{}
			for k, e := range x {
				m[k] = toScripts(e)
			}
			return m
		case A:
			a := A{}
			for _, e := range x {
				a = append(a, toScripts(e))
			}
			return a
		case string:
			return "#//!js\n" + x
		}
		return v
	}
	// evaluates the documents and gives what the probe in the last one saw
	see := func(docs []M, mayFail bool) (string, error) {
		for i, d := range docs {
			out, err := jom.Eval([]byte(ref.Canon(toScripts(d))), false)
			if i == len(docs)-1 {
				if err != nil {
					return "", err
				}
				return find(ref.Parse(string(out))), nil
			}
			if err != nil && !mayFail {
				return "", err
			}
		}
		return "", nil
	}
	combos := [][]string{}
	for _, e := range effects {
		combos = append(combos, []string{e})
	}
	for i, e := range effects {
		for j, f := range effects {
			if i != j && (c.Thorough || (i*7+j)%9 == 0) {
				combos = append(combos, []string{e, f})
			}
		}
	}
	c.Extra("effects", effects)
	c.Extra("looks", append(append([]string{}, looks...), jsonLooks...))
	c.Extra("sequences of effects", len(combos))
	setupNames := []string{"one object", "between", "nested", "arrays", "twice"}
	normal := map[string]string{}
	for _, name := range setupNames {
		docs := setups[name]("1")
		s, err := see(docs, false)
		if err != nil || strings.Count(s, "|") != len(looks)+len(jsonLooks)-1 {
			c.Violate(core.Failf("probe alone", probe, "the probe does not work: %q, %v", s, err))
			return
		}
		normal[name] = s
	}
	plain := strings.Split(normal["one object"], "|")
	c.Sample(plain)
	c.Parallel(len(combos), func(i int) {
		combo := strings.Join(combos[i], "; ")
		for _, name := range setupNames {
			for _, fail := range []bool{false, true} {
				e := combo
				if fail {
					if name != "twice" {
						continue
					}
					e += "; throw 1"
				}
				key := fmt.Sprintf("%s (fails: %v): %s", name, fail, e)
				c.Eval(1)
				c.Nontrivial(1)
				c.Case(func() string { return key }, func() *core.Fail {
					s, err := see(setups[name](e), true)
					if err != nil {
						// some effects keep the result from being stored; then the evaluation fails because of the first script
						if strings.Contains(err.Error(), "json.trail.p =") {
							return core.Failf(key, key, "%s: the probe fails: %v", key, err)
						}
						return nil
					}
					if s != normal[name] {
						return core.Failf(key, key, "%s: the probe sees %s, alone it sees %s", key, s, normal[name])
					}
					return nil
				})
			}
		}
		// filters
		if len(combos[i]) > 1 && !c.Thorough && i%4 != 0 {
			return
		}
		effFilter := "$.l[?((function () { " + strings.ReplaceAll(combo, "]", " ]") + "; return true })())]"
		for k := range looks {
			if strings.Contains(looks[k], "]") && strings.Contains(looks[k], ")]") {
				continue
			}
			want := plain[k]
			test := filterProbe(k) + strings.ReplaceAll(want, "'", "") + "'"
			run := func(kind string, f func() (string, error)) {
				key := fmt.Sprintf("%s: %s, then %s", kind, combo, looks[k])
				c.Eval(1)
				c.Case(func() string { return key }, func() *core.Fail {
					s, err := f()
					if err != nil {
						return core.Failf(key, key, "%s: %v", key, err)
					}
					if s != "" {
						return core.Failf(key, key, "%s: %s", key, s)
					}
					return nil
				})
			}
			selects := func(j *jom.JsonMap) (string, error) {
				ns, err := j.JsonPathSelector("$.l[?(" + test + ")]")
				if err != nil {
					return "", err
				}
				if len(ns) != 1 {
					return fmt.Sprintf("the filter does not see %s", want), nil
				}
				return "", nil
			}
			if k%5 == i%5 || c.Thorough {
				run("a script, then a filter", func() (string, error) {
					try(func() { jom.NewFromMap(M{"s": "#//!js\n" + combo}).Run() })
					return selects(jom.NewFromMap(M{"l": A{1.0}}))
				})
				run("a filter, then a filter", func() (string, error) {
					j := jom.NewFromMap(M{"l": A{1.0}})
					j.JsonPathSelector(effFilter)
					return selects(j)
				})
			}
			if k%17 == i%17 || c.Thorough {
				run("a filter in a script", func() (string, error) {
					got := ""
					out, err := jom.Eval([]byte(ref.Canon(M{"l": A{1.0}, "s": "#//!js\n" + combo + "; json.trail.n = json.jsonPathSelector(" + ref.Canon("$.l[?("+test+")]") + ").getValues()"})), false)
					if err != nil {
						// a changed json object or array may keep the script from getting there
						return "", nil
					}
					if d, ok := ref.Parse(string(out)).(M); ok {
						if l, ok := d["n"].(A); ok && len(l) == 0 {
							got = "the filter does not see " + want
						}
					}
					return got, nil
				})
			}
		}
		if len(combos[i]) == 1 {
			key := "a filter, then a script: " + combo
			c.Eval(1)
			c.Case(func() string { return key }, func() *core.Fail {
				jom.NewFromMap(M{"l": A{1.0}}).JsonPathSelector(effFilter)
				s, err := see([]M{{"b": probe}}, false)
				if err != nil || s != normal["one object"] {
					return core.Failf(key, key, "%s: the probe sees %s, alone it sees %s (%v)", key, s, normal["one object"], err)
				}
				return nil
			})
		}
	})
	// every object which the interpreter hands out: its prototypes and constructors
	objs := []string{"json.trail", "json.trail.o", "json.trail.l", "json.trail.l[1]", "json", "json.jsonPathSelector", "console", "console.log", "json.jsonPathSelector('$.l')", "json.jsonPathSelector('$.l').getValues", "json.jsonPathSelector('$.l').getValues()", "json.jsonPathSelector('$.l[*]').getValues()[1]",
		"json.jsonPathSelector('$.l')._absolutePaths", "json.jsonPathSelector('$.l')._absolutePaths[0]", "json.jsonPathSelector('$.l[0:1]')._absolutePaths[0][0]", "json.jsonPathSelector('$.l[0:1]')._absolutePaths[0][1].key", "(function () { try { json.jsonPathSelector('') } catch (e) { return e } })()", "(function () { json.jsonPathSelector('$.n').setValues({a: [1]}); return json.trail })()", "(function () { json.jsonPathSelector('$.n').setValues({a: [1]}); return json.trail.n.a })()",
		"JSON.parse('{}')", "JSON.parse('[1]')", "Object(1)", "Object('s')", "Object(true)", "/a/", "new Date(0)", "new Error('e')", "isNaN", "Math", "(function () { return arguments })()", "this"}
	nodes := []string{"@", "@.o", "@.l", "@.l[1 ]", "JSON.parse('{}')", "JSON.parse('[1 ]')", "Object(@.s)", "Object(@.n)", "isNaN", "Math", "this", "/a/", "new Error('e')"}
	const damage = "(function (x) { x.constructor.leak = 1; var p = Object.getPrototypeOf(x); while (p) { p.leak = 1; p.toJSON = function () { return 'leaked' }; p.push = null; p.concat = null; p = Object.getPrototypeOf(p) } })(%s)"
	const inspect = "(function (x) { var r = typeof x.leak + typeof x.constructor.leak + typeof x.toJSON + typeof x.push + typeof x.concat, p = Object.getPrototypeOf(x); while (p) { r += typeof p.leak + Object.getOwnPropertyNames(p).length; p = Object.getPrototypeOf(p) } return r })(%s)"
	each := func(l []string) string {
		s := "''"
		for _, o := range l {
			s += " + '|' + " + fmt.Sprintf(inspect, o)
		}
		return s
	}
	data := M{"o": M{"a": A{1.0}}, "l": A{1.0, M{"x": A{2.0}}}, "n": 1.0}
	member := func(ss ...string) M {
		m := ref.Copy(data).(M)
		for i, s := range ss {
			m[fmt.Sprint("s", i)] = "#//!js\n" + s
		}
		return m
	}
	protoProbe := "var p = " + each(objs) + "; json.trail.p = p"
	readers := func() *jom.JsonMap {
		return jom.NewFromMap(M{"k": A{M{"o": M{"a": 1.0}, "l": A{1.0, M{}}, "s": "s", "n": 1.0}}})
	}
	filterSees := func() (bits string) {
		for _, o := range nodes {
			for _, t := range []string{"typeof x.leak === 'undefined'", "typeof x.constructor.leak === 'undefined'", "typeof x.toJSON === 'undefined'", "typeof x.push === 'undefined'"} {
				ns, err := readers().JsonPathSelector("$.k[?((function (x) { return " + t + " })(" + o + "))]")
				bits += fmt.Sprint(len(ns), err != nil, " ")
			}
		}
		return
	}
	sees := func(d M) string {
		out, err := evalDoc(d, false)
		if err != nil {
			return fmt.Sprint("error ", err)
		}
		return find(ref.Parse(string(out)))
	}
	alone, aloneFilter := sees(member(protoProbe)), filterSees()
	if strings.Count(alone, "|") != len(objs) {
		c.Violate(core.Failf("probe alone", protoProbe, "the probe does not work: %s", alone))
		return
	}
	c.Extra("objects handed out", append(append([]string{}, objs...), nodes...))
	c.Parallel(len(objs)+len(nodes), func(i int) {
		var o, key string
		var ways map[string]func() (string, string)
		if i < len(objs) {
			o = fmt.Sprintf(damage, objs[i])
			key = "prototypes of " + objs[i]
			ways = map[string]func() (string, string){
				"nested": func() (string, string) {
					return sees(M{"a": member(strings.Replace(o, "p.toJSON = function () { return 'leaked' }; ", "", 1) + "; json.trail = {}"), "b": A{member(protoProbe)}}), alone
				},
				"evaluations": func() (string, string) {
					_, _ = evalDoc(member(o), false)
					return sees(member(protoProbe)), alone
				},
				"failing": func() (string, string) {
					_, _ = evalDoc(member(o+"; throw 1"), false)
					return sees(member(protoProbe)), alone
				},
				"a filter": func() (string, string) {
					_, _ = evalDoc(member(o), false)
					return filterSees(), aloneFilter
				},
			}
		} else {
			o = nodes[i-len(objs)]
			key = "prototypes in a filter: " + o
			p := "$.k[?((function () { " + fmt.Sprintf(damage, o) + "; return true })())]"
			ways = map[string]func() (string, string){
				"filters": func() (string, string) {
					if ns, err := readers().JsonPathSelector(p); err != nil || len(ns) != 1 {
						return fmt.Sprint("the filter fails: ", err), ""
					}
					return filterSees(), aloneFilter
				},
				"a script": func() (string, string) {
					_, _ = readers().JsonPathSelector(p)
					return sees(member(protoProbe)), alone
				},
				"within a script": func() (string, string) {
					d := member("json.jsonPathSelector("+ref.Canon(strings.Replace(p, "$.k", "$.q", 1))+").getValues()", protoProbe)
					d["q"] = (*readers().GetInsides())["k"]
					return sees(d), alone
				},
			}
		}
		for w, f := range ways {
			key := key + ", then " + w
			c.Eval(1)
			c.Nontrivial(1)
			c.Case(func() string { return key }, func() *core.Fail {
				if g, want := f(); g != want {
					return core.Failf(key, key, "%s: the probe sees %s, alone it sees %s", key, g, want)
				}
				return nil
			})
		}
	})
}
