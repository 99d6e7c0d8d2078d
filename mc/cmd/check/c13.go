package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/andygello555/json-dom/code"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() {
	register("C13", "exploration", c13)
	register("C14", "model_checking", c14)
	register("C23", "exploration", c23)
}

type kind int

const (
	kData kind = iota
	kScript
	kFail
	kUnknown
)

// classify says what a string is: a script (and its text), data, or something which makes the evaluation fail.
func classify(s string) (kind, string, code.ScriptLangType) {
	line, rest := s, ""
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		line, rest = s[:i], s[i+1:]
	}
	if !strings.HasPrefix(line, "#//!") {
		return kData, "", 0
	}
	lang := line[4:]
	switch {
	case lang == "js":
		return kScript, rest, code.JS
	case lang == "go":
		return kScript, rest, code.GO
	case len(lang) == 2 && utf8.RuneCountInString(lang) == 2:
		return kFail, "", 0
	case len(lang) == 2 || utf8.RuneCountInString(lang) == 2:
		return kUnknown, "", 0 // one character of two bytes, or two characters of more: what "two-character" means is not said
	}
	return kData, "", 0
}

func edits(s string, alpha []string) []string {
	seen := map[string]bool{}
	var out []string
	add := func(x string) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	add(s)
	for i := 0; i <= len(s); i++ {
		for _, a := range alpha {
			add(s[:i] + a + s[i:])
			if i < len(s) {
				add(s[:i] + a + s[i+1:])
			}
		}
		if i < len(s) {
			add(s[:i] + s[i+1:])
		}
		if i+1 < len(s) {
			add(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
		}
	}
	return out
}

func newFrom(v interface{}) (c code.Code, ok bool, p interface{}) {
	p = try(func() { c, ok = code.NewFrom(v) })
	return
}

func checkNewFrom(s string) (kind, *core.Fail) {
	k, text, lang := classify(s)
	if k == kUnknown {
		return k, nil
	}
	c, ok, p := newFrom(s)
	q := fmt.Sprintf("%q", s)
	switch {
	case k == kFail && p == nil:
		return k, core.Failf(q, s, "%s names an unsupported language but is accepted (script: %v)", q, ok)
	case k != kFail && p != nil:
		return k, core.Failf(q, s, "%s fails: %v", q, p)
	case k != kFail && ok != (k == kScript):
		return k, core.Failf(q, s, "%s is taken to be a script: %v", q, ok)
	case k == kScript && (c.Script != text || c.ScriptLang != lang):
		return k, core.Failf(q, s, "%s is taken to be the script %q in language %v", q, c.Script, c.ScriptLang)
	}
	return k, nil
}

func c13(c *core.Ctx) {
	c.Rule("NewFrom on all strings over the shebang alphabet up to a length, on all strings #//! + short suffix, and on all strings within two edits of a proper script, against an independent classification; a part of them also within documents, by Strip, FindScriptFields and Eval (data unchanged, script text executed, unsupported language fails); and on values of all other kinds; non-trivial: scripts or failing ones")
	alpha := []string{"#", "/", "!", "j", "s", "g", "o", "p", "\n", " ", "\r", "J"}
	n := 6
	if c.Thorough {
		n = 7
	}
	c.Extra("alphabet", alpha)
	c.Extra("length", n)
	str := func(s string) {
		c.Eval(1)
		c.Case(func() string { return fmt.Sprintf("%q", s) }, func() *core.Fail {
			k, f := checkNewFrom(s)
			if k == kScript || k == kFail {
				c.Nontrivial(1)
			}
			return f
		})
	}
	for l := 0; l <= n; l++ {
		pl := l
		if pl > 2 {
			pl = 2
		}
		var pre [][]int
		words(len(alpha), pl, nil, func(w []int) bool { pre = append(pre, append([]int{}, w...)); return true })
		c.Parallel(len(pre), func(i int) {
			words(len(alpha), l, pre[i], func(w []int) bool {
				var b strings.Builder
				for _, x := range w {
					b.WriteString(alpha[x])
				}
				str(b.String())
				return !c.Expired()
			})
		})
	}
	// the shebang followed by any short suffix and any body
	sufAlpha := append(append([]string{}, alpha...), "S", "y", "é", "\x00", "\t", "\xff", "日", "1", "_", "x")
	bodies := []string{"", "\n", "\nbody", "\n\n", "\nbody\n", "\r\nbody", "\n#//!js\nbody", "\n#//!xx\nbody", "\né\r\n\x00\u2028日\xff", "\n//#//!js", "\n\nx\n\n"}
	m := 3
	if c.Thorough {
		m = 4
	}
	c.Extra("suffix_length", m)
	for l := 0; l <= m; l++ {
		words(len(sufAlpha), l, nil, func(w []int) bool {
			s := "#//!"
			for _, x := range w {
				s += sufAlpha[x]
			}
			for _, b := range bodies {
				str(s + b)
			}
			return !c.Expired()
		})
	}
	// long first lines, long bodies and many lines
	for n := 1; n <= 160; n++ {
		for _, x := range sufAlpha {
			r := strings.Repeat(x, n)
			for _, t := range []string{"#//!js" + r, "#//!js" + r + "\nx", r + "#//!js\nx", r, r + "\n#//!js\nx", "#//!js\n" + r, "#//!go\n" + r, "#//!js\n" + r + "\ny", "#//!js\n" + strings.Repeat(x+"\n", n), "#//!" + r + "\nx", "#//!xx\n" + r} {
				str(t)
			}
		}
	}
	// two edits
	var two []string
	for _, base := range []string{"#//!js\nx", "#//!go\nx", "#//!js", " #//!js\nx", "x\n#//!js\nx"} {
		for _, e := range edits(base, sufAlpha) {
			two = append(two, e)
		}
	}
	c.Parallel(len(two), func(i int) {
		for _, e := range edits(two[i], sufAlpha) {
			str(e)
		}
	})
	// within documents
	var docs []string
	seen := map[string]bool{}
	add := func(s string) {
		// hjson and JSON text cannot hold invalid UTF-8
		if utf8.ValidString(s) && !seen[s] {
			seen[s] = true
			docs = append(docs, s)
		}
	}
	const body = "json.trail.ran = json.trail.ran === undefined ? 1 : json.trail.ran + 1"
	for _, e := range edits("#//!js\n", sufAlpha) {
		add(e + body)
	}
	for _, e := range edits("#//!go\n", alpha) {
		add(e + body)
	}
	for _, s := range []string{"//!js\n", "#!js\n", "#//js\n", "#//! js\n", "#//!JS\n", "#//!javascript\n", "#//!js \n", "\n#//!js\n", "\ufeff#//!js\n", "#//!js\r\n", "#//!js\u2028", "# //!js\n", "#//!py\n", "#//!py", "#//!j\n", "#//!jsx\n", "#//!go", "#//!js", "#//!js;", "#!/bin/sh\n", "##//!js\n"} {
		add(s + body)
		add(s)
		add(s + "\n" + body)
		add(s + "//\n" + body + "\n//")
	}
	words(len(alpha), 2, nil, func(w []int) bool { add("#//!" + alpha[w[0]] + alpha[w[1]] + "\n" + body); return true })
	c.Extra("strings_in_documents", len(docs))
	c.Parallel(len(docs)*3, func(i int) {
		s := docs[i/3]
		where := i % 3
		k, text, lang := classify(s)
		if k == kUnknown {
			return
		}
		mk := func() M {
			switch where {
			case 0:
				return M{"a": s, "b": 1.0}
			case 1:
				return M{"z": A{M{"q": A{M{"s": s}}}, s}, "b": s + "x", "c": "x" + s}
			}
			return M{"array": A{s, M{"s": s}, A{M{"s": s}}}}
		}
		if where == 1 {
			if k2, _, _ := classify(s + "x"); k2 == kScript || k2 == kFail || k2 == kUnknown {
				return
			}
			if k2, _, _ := classify("x" + s); k2 != kData {
				return
			}
		}
		isS := func(v V) bool { x, ok := v.(string); k, _, _ := classify(x); return ok && k == kScript }
		c.Eval(1)
		c.Case(func() string { return fmt.Sprintf("%q in a document %d", s, where) }, func() *core.Fail {
			key := fmt.Sprintf("%q in %d", s, where)
			d := doc(mk())
			if where == 2 {
				d.Array = true
			}
			var found bool
			p := try(func() { found = d.FindScriptFields() })
			if (p != nil) != (k == kFail) {
				return core.Failf(key, s, "%s: FindScriptFields panics: %v", key, p)
			}
			if k == kFail {
				c.Nontrivial(1)
				out, err := evalDoc(mk(), where == 2)
				if err == nil {
					return core.Failf(key, s, "%s: evaluation gives %s instead of an error", key, out)
				}
				return nil
			}
			if found != (k == kScript) {
				return core.Failf(key, s, "%s: FindScriptFields gives %v", key, found)
			}
			if canonOf(d) != ref.Canon(mk()) {
				return core.Failf(key, s, "%s: FindScriptFields changed the document to %s", key, canonOf(d))
			}
			d.Strip()
			if g, w := canonOf(d), ref.Canon(refStrip(mk(), isS)); g != w {
				return core.Failf(key, s, "%s: Strip gives %s instead of %s", key, g, w)
			}
			out, err := evalDoc(mk(), where == 2)
			if k == kScript && lang == code.GO {
				c.Nontrivial(1)
				if err == nil {
					return core.Failf(key, s, "%s: a string of Go source was run: %s", key, out)
				}
				return nil
			}
			if k == kScript && text != "" && !strings.Contains(text, body) {
				return nil // JavaScript which is not valid: C18
			}
			if k == kScript && !strings.HasSuffix(text, body) && !strings.HasSuffix(text, body+"\n//") {
				return nil
			}
			if err != nil {
				if k == kScript && !validPrefix(text, body) {
					return nil
				}
				return core.Failf(key, s, "%s: evaluation fails: %v", key, err)
			}
			if k == kScript {
				c.Nontrivial(1)
			}
			w := refRun(mk(), isS, func(_ V, m M) M {
				if text != "" && !(strings.HasPrefix(text, "//") && !strings.Contains(text, "\n")) {
					m["ran"] = 1.0
				}
				return m
			})
			if where == 2 {
				w = w.(M)["array"]
			}
			if g := ref.Canon(ref.Parse(out)); g != ref.Canon(w) && (k != kScript || validPrefix(text, body)) {
				return core.Failf(key, s, "%s: evaluation gives %s instead of %s", key, g, ref.Canon(w))
			}
			return nil
		})
	})
	// values of other kinds
	type myString string
	type myMap map[string]interface{}
	others := map[string]interface{}{"nil": nil, "bool": true, "float": 1.5, "int": 7, "number": json.Number("1"), "string type": myString("#//!js\nx"), "bytes": []byte("#//!js\nx"),
		"array": A{"#//!js\nx"}, "map": M{"a": "#//!js\nx"}, "strings": []string{"#//!js\nx"}, "map type": myMap{"x": "#//!js\nx"}, "code": code.Code{Script: "x", ScriptLang: code.JS}, "func": func() {}, "func of map": func(m map[string]interface{}) {},
		"func of JsonMap": func(j *jom.JsonMap) {}, "func with result": func(j json_map.JsonMapInt) bool { return true }, "pointer": new(string), "error": fmt.Errorf("#//!js\nx"), "empty": "", "func of any": func(j interface{}) {}}
	for name, v := range others {
		name, v := name, v
		c.Eval(1)
		c.Case(func() string { return name }, func() *core.Fail {
			_, ok, p := newFrom(v)
			if ok || p != nil {
				return core.Failf("value "+name, name, "a value of kind %s is taken to be a script (%v, panic %v)", name, ok, p)
			}
			d := jom.NewFromMap(M{"a": v, "b": A{v}})
			if d.FindScriptFields() && name != "map" && name != "array" {
				return core.Failf("value "+name, name, "FindScriptFields takes a value of kind %s to be a script", name)
			}
			return nil
		})
	}
	c.Eval(1)
	c.Case(func() string { return "callback" }, func() *core.Fail {
		ran := 0
		f := func(j json_map.JsonMapInt) { ran++ }
		x, ok, p := newFrom(f)
		if !ok || p != nil || x.ScriptLang != code.GO {
			return core.Failf("callback", nil, "a callback is not taken to be a script")
		}
		x.Script.(func(j json_map.JsonMapInt))(nil)
		if ran != 1 {
			return core.Failf("callback", nil, "the code of a callback is not the callback")
		}
		c.Nontrivial(1)
		return nil
	})
	for _, i := range []int{0, 100, 200, len(docs) - 1} {
		c.Sample(fmt.Sprintf("%q", docs[i]))
	}
}

// validPrefix: what an edit put before the body keeps it a valid program whose effect is that of the body.
func validPrefix(text, body string) bool {
	i := strings.Index(text, body)
	if i < 0 {
		return text == ""
	}
	p := text[:i]
	for _, l := range strings.Split(p, "\n") {
		l = strings.TrimSpace(l)
		if l != "" && l != ";" && !strings.HasPrefix(l, "//") {
			return false
		}
	}
	return !strings.HasPrefix(lastLine(p), "//")
}

func lastLine(s string) string { return s[strings.LastIndexByte(s, '\n')+1:] }

// evalDoc evaluates a document through its text.
func evalDoc(m M, array bool) (string, error) {
	var v V = m
	if array {
		v = m["array"]
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	out, err := jom.Eval(b, false)
	return string(out), err
}

// marker is what the script positions of enumerated trees are filled with at first.
const marker = "<script>"

// fill replaces the markers which are map values by what f gives for them, in the order of keys; other markers become "d".
func fill(v V, f func(n int) V) (V, int) {
	n := 0
	var rec func(v V, member bool) V
	rec = func(v V, member bool) V {
		switch x := v.(type) {
		case M:
			m := M{}
			for _, k := range ref.Keys(x) {
				m[k] = rec(x[k], true)
			}
			return m
		case A:
			a := A{}
			for _, e := range x {
				a = append(a, rec(e, false))
			}
			return a
		case string:
			if x == marker {
				if !member {
					return "#//!js\nthrow 1"
				}
				n++
				return f(n - 1)
			}
		}
		return v
	}
	r := rec(v, false)
	return r, n
}

func isCallback(v V) bool  { _, ok := v.(func(json_map.JsonMapInt)); return ok }
func isAnyScript(v V) bool { return isCallback(v) || isScriptText(v) }

func c14(c *core.Ctx) {
	schedules(c, "C14", false)
	resetStates()
	c.Rule("all trees of at most n nodes (objects over the keys, arrays, scalars) with scripts and callbacks at any subset of the leaves: Strip gives the model's document, again and after scripts were added to the same object; then all histories of at most depth operations of strip, markup, set, find and read over a menu; nothing may be executed (callbacks count, scripts throw); non-trivial: trees with a script")
	ran := make(chan struct{}, 1)
	cb := func(j json_map.JsonMapInt) {
		select {
		case ran <- struct{}{}:
		default:
		}
	}
	n := 7
	if c.Thorough {
		n = 8
	}
	g := ref.Gen{Keys: []string{"a", "b"}, Scalars: []V{1.0, marker}, MaxArr: 2}
	trees := g.Maps(n)
	g3 := ref.Gen{Keys: []string{"a", "B", "é.[0]"}, Scalars: []V{nil, marker}, MaxArr: 3}
	trees = append(trees, g3.Maps(n-2)...)
	trees = append(append(scaledTrees(n*6), likeTrees(c.Thorough)...), trees...)
	c.Extra("trees", len(trees))
	c.Extra("nodes", n)
	c.Parallel(len(trees), func(i int) {
		variants := 2
		for v := 0; v < variants; v++ {
			mk := func() (M, int) {
				t, k := fill(trees[i], func(n int) V {
					if (n+v)%2 == 0 {
						return "#//!js\nthrow 1"
					}
					if n%3 == 2 {
						return "#//!go\nx"
					}
					return cb
				})
				return t.(M), k
			}
			c.Eval(1)
			d0, k := mk()
			key := ref.Canon(d0)
			c.Case(func() string { return key }, func() *core.Fail {
				d, _ := mk()
				j := jom.NewFromMap(d)
				w := ref.Canon(refStrip(d0, isAnyScript))
				j.Strip()
				if k > 0 {
					c.Nontrivial(1)
				}
				reach(w)
				if g := canonOf(j); g != w {
					return core.Failf(key, key, "Strip of %s gives %s instead of %s", key, g, w)
				}
				j.Strip()
				if g := canonOf(j); g != w {
					return core.Failf(key, key, "the second Strip of %s gives %s instead of %s", key, g, w)
				}
				// scripts are added to the stripped object
				(*j.GetInsides())["n"] = cb
				(*j.GetInsides())["m"] = M{"s": "#//!js\nthrow 1", "k": A{M{"s": cb}}, "d": "#//!js"[1:]}
				j.Strip()
				wm := refStrip(d0, isAnyScript).(M)
				wm["m"] = M{"k": A{M{}}, "d": "//!js"}
				if g := canonOf(j); g != ref.Canon(wm) {
					return core.Failf(key, key, "Strip of %s, then again after scripts were added, gives %s instead of %s", key, g, ref.Canon(wm))
				}
				return nil
			})
		}
	})
	add := func(name, p string, v V) op {
		o := opSet(p, v)
		o.name = name
		return o
	}
	ops := []op{opStrip, opFind, opMarkup("$.s", "js", "throw 1", true), opMarkup("$.a.s", "go", "x", true), opMarkup("$.l[0].s", "js", "throw 1", true), opMarkup("$.l[1][0].s", "js", "throw 1", true), opMarkup("$..a", "js", "throw 1", true), opMarkup("$.array[0].s", "js", "throw 1", true),
		add("set $.m to an object with scripts", "$.m", M{"s": "#//!js\nthrow 1", "l": A{A{M{"s": "#//!js\n"}}}, "a": "#//!j"}), opSet("$.a", M{"a": 1.0}), opSet("$.s", "data"), opSet("$.l", A{M{}, A{M{}}, "#//!js\nthrow 1"}),
		opUnmarshal(`{"a":{"a":"#//!js\nthrow 1"},"l":[{"s":"#//!js\nthrow 1"},[{"b":1}]]}`, true), opUnmarshal(`[{"s":"#//!go\nx"},"#//!js\nthrow 1",[[{"s":"#//!js\n","t":0}]]]`, true), opClone(false), opRead("$..s")}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	histories(c, []string{`{"a":{"a":"#//!js\nthrow 1"},"l":[{"s":"#//!js\nthrow 1"},[{"b":1}]]}`}, ops, depth, nil)
	select {
	case <-ran:
		c.Violate(core.Failf("executed", nil, "Strip executed a callback"))
	default:
	}
	statesDone(c)
}

func c23(c *core.Ctx) {
	c.Rule("markup with every language name of at most 3 characters, every script text of at most 4 pieces, and every path of at most 2 selectors on a number of documents; the whole document is compared with the model, the stored value must be recognised as a script with exactly that text; then evaluated; non-trivial: a supported language and a path that addresses something")
	alpha := []string{"j", "s", "g", "o", "p", "y", "J", "S", " ", "\n", "é", "#", "\x00", "x"}
	var langs []string
	for l := 0; l <= 3; l++ {
		words(len(alpha), l, nil, func(w []int) bool {
			s := ""
			for _, x := range w {
				s += alpha[x]
			}
			langs = append(langs, s)
			return true
		})
	}
	langs = append(langs, "javascript", "js\njs", "golang", "\u2060js", "js\u200b")
	c.Extra("languages", len(langs))
	base := `{"a":{"a":1,"s":"x"},"l":[{"a":2},[3]],"s":null}`
	one := func(d M, p path, lang, text string) {
		c.Eval(1)
		key := fmt.Sprintf("markup %q %q %q in %s", p.text, lang, text, ref.Canon(d))
		c.Case(func() string { return key }, func() *core.Fail {
			j := doc(d)
			err := tryErr(func() error { return j.MarkupCode(p.text, lang, text) })
			ok := lang == "js" || lang == "go"
			if !ok {
				if err == nil || canonOf(j) != ref.Canon(d) {
					return core.Failf(key, key, "%s: error %v, document %s", key, err, canonOf(j))
				}
				return nil
			}
			stored := "#//!" + lang + "\n" + text
			w, n, rerr := ref.Set(p.alts, d, stored)
			if rerr == ref.ErrUnknown {
				return nil
			}
			if (err != nil) != (rerr != nil) {
				return core.Failf(key, key, "%s: error %v, the model: %v", key, err, rerr)
			}
			if rerr != nil {
				return nil
			}
			if canonOf(j) != ref.Canon(w) {
				return core.Failf(key, key, "%s: gives %s instead of %s", key, canonOf(j), ref.Canon(w))
			}
			cd, ok, pn := newFrom(stored)
			if !ok || pn != nil || cd.Script != text {
				return core.Failf(key, key, "%s: the stored value %q is recognised as %v %q", key, stored, ok, cd.Script)
			}
			if n > 0 {
				c.Nontrivial(1)
			}
			return nil
		})
	}
	mustPath := func(p string) path {
		alts, err := ref.ParsePath(p)
		if err != nil {
			panic(p)
		}
		return path{text: p, alts: alts}
	}
	b := ref.ParseM(base)
	c.Parallel(len(langs), func(i int) {
		for _, p := range []string{"$.s", "$.a.new", "$.l[0].s"} {
			one(b, mustPath(p), langs[i], "body")
			one(b, mustPath(p), langs[i], "")
		}
	})
	pieces := []string{"a", "\n", "\r\n", "#//!js\n", "#//!xx\n", "\"", "\\", " ", "é", "\x00", "'", "%s%d", "\xff", "//"}
	tl := 3
	if c.Thorough {
		tl = 4
	}
	var texts []string
	for l := 0; l <= tl; l++ {
		words(len(pieces), l, nil, func(w []int) bool {
			s := ""
			for _, x := range w {
				s += pieces[x]
			}
			texts = append(texts, s)
			return true
		})
	}
	c.Extra("texts", len(texts))
	c.Parallel(len(texts), func(i int) {
		one(b, mustPath("$.s"), "js", texts[i])
		one(b, mustPath("$.l[0].new"), "go", texts[i])
	})
	// long texts, and markups of many places
	size := 80
	if c.Thorough {
		size = 300
	}
	c.Parallel(size, func(n int) {
		for _, x := range append([]string{"#", "/", "ab", "\u2028", ";"}, pieces...) {
			r := strings.Repeat(x, n)
			one(b, mustPath("$.s"), "js", r)
			one(b, mustPath("$.l[0].new"), "go", r+"\nend")
		}
		if n <= 40 {
			wide := M{"o": wideObject(n), "l": longArray(n), strings.Repeat("k", n+1): 1.0}
			for _, ps := range []string{"$.o.*", "$.l[*]", "$.o.new", "$..a", fmt.Sprintf("$.l[%d:]", n/2), fmt.Sprintf("$.o.k%d", n-1), fmt.Sprintf("$.l[%d]", n), "$." + strings.Repeat("k", n+1)} {
				one(wide, mustPath(ps), "js", "t")
			}
		}
	})
	// texts, names and values which look like something else, and texts as long as buffers
	look := lookalikes()
	c.Parallel(len(look), func(i int) {
		a := look[i]
		for _, t := range []string{a, a + a, "x" + a, a + "x", "\n" + a, a + "\n", "'" + a + "'", a + " " + look[(i+1)%len(look)]} {
			one(b, mustPath("$.s"), "js", t)
			one(M{a: M{a: a}, "l": A{a, M{a: nil}}}, mustPath("$..*"), "go", t)
			one(M{a: M{a: a}, "l": A{a, M{a: nil}}}, mustPath("$.l[*]"), "js", t)
		}
		one(b, mustPath("$.s"), a, a)
	})
	pow := powers(size, 1<<17+1)
	c.Parallel(len(pow), func(i int) {
		for _, x := range []string{"a", "é", "\n", "#"} {
			one(b, mustPath("$.a.new"), "js", strings.Repeat(x, pow[i]))
			one(b, mustPath("$.s"), "go", "a\n"+strings.Repeat(x, pow[i])+"\nend")
		}
	})
	docs := shapes(5, 2, "a", "b")
	if c.Thorough {
		docs = shapes(6, 2, "a", "b")
	}
	paths := allPaths(append(baseToks(), fTrue, fFalse, fA), 2, 1)
	c.Extra("documents", len(docs))
	c.Extra("paths", len(paths))
	c.Parallel(len(docs), func(i int) {
		for _, p := range paths {
			one(docs[i], p, "js", "t\n")
			if c.Expired() {
				return
			}
		}
	})
	// what was stored runs: all texts which are programs, at several places
	progs := map[string]func(m M) M{
		"json.trail.ran = 1":                              func(m M) M { m["ran"] = 1.0; return m },
		"\n\njson.trail.ran = '#//!js\\nx'\n":             func(m M) M { m["ran"] = "#//!js\nx"; return m },
		"// #//!js\njson.trail.ran = \"é\\\"'\\\\\" // x": func(m M) M { m["ran"] = "é\"'\\"; return m },
		"json.trail.ran = '%s%d%'":                        func(m M) M { m["ran"] = "%s%d%"; return m },
		"":                                                func(m M) M { return m },
		"/* \n */ for (var i = 0; i < 3; i++) {\r\n json.trail['r' + i] = i\r\n}": func(m M) M { m["r0"], m["r1"], m["r2"] = 0.0, 1.0, 2.0; return m },
	}
	for text, eff := range progs {
		text, eff := text, eff
		for _, ps := range []string{"$.s", "$.a.new", "$.l[0].s", "$..a", "$.a.*", "$.l[0,0].q", "$.l[1][0]", "$...n"} {
			p := mustPath(ps)
			c.Eval(1)
			key := fmt.Sprintf("markup %s %q then run", ps, text)
			c.Case(func() string { return key }, func() *core.Fail {
				j := doc(b)
				if err := j.MarkupCode(ps, "js", text); err != nil {
					return core.Failf(key, key, "%s: %v", key, err)
				}
				w, _, _ := ref.Set(p.alts, b, "#//!js\n"+text)
				want := ref.Canon(refRun(ref.Copy(w), func(v V) bool { return v == "#//!js\n"+text }, func(_ V, m M) M { return eff(m) }))
				if err := tryErr(func() error { j.Run(); return nil }); err != nil {
					return core.Failf(key, key, "%s: %v", key, err)
				}
				if g := canonOf(j); g != want {
					return core.Failf(key, key, "%s: gives %s instead of %s", key, g, want)
				}
				c.Nontrivial(1)
				return nil
			})
		}
	}
	c.Sample(base)
	c.Sample(fmt.Sprintf("%q", texts[len(texts)-1]))
}
