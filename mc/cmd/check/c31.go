package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/andygello555/json-dom/code"
	_go "github.com/andygello555/json-dom/code/go"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() { register("C31", "exploration", c31) }

// c31 registers languages. They cannot be taken away again, so every history has names of its own and nothing is done in parallel.
func c31(c *core.Ctx) {
	c.Rule("all histories of at most n registrations (two fresh two-letter names and js, three runners), evaluations, runs and markups of documents with scripts of these languages: every script is run once, by the runner last registered for its language, with its text and the object it is in, what the runner returns replaces the object, what it fails with fails the evaluation, and a language which is not registered is an error; non-trivial: histories in which a script runs after two registrations")
	letters := ""
	for r := byte(' '); r <= '~'; r++ {
		if r != '"' && r != '\\' {
			letters += string(rune(r))
		}
	}
	used := map[string]bool{"js": true, "go": true}
	next := 0
	fresh := func() string {
		for ; next < len(letters)*len(letters); next++ {
			n := string(letters[next%len(letters)]) + string(letters[(next/len(letters)+next)%len(letters)])
			if !used[n] {
				used[n] = true
				return n
			}
		}
		return ""
	}
	var log []string
	note := func(runner, lang, text, scope, path string) {
		log = append(log, fmt.Sprintf("%s runs %q of language %q in %s at %s", runner, text, lang, scope, path))
	}
	// the runners, and what they do to a scope in the model
	type runner struct {
		name string
		run  func(cd code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error)
		ref  func(text string, scope M) (M, error)
	}
	see := func(name string, cd code.Code, j json_map.JsonMapInt) string {
		text, ok := cd.Script.(string)
		if !ok {
			text = fmt.Sprintf("%T", cd.Script)
		}
		lang := cd.ScriptLangShebang()
		if code.ShebangScriptLang(lang) != cd.ScriptLang {
			lang += fmt.Sprintf(" (which is %v, not %v)", code.ShebangScriptLang(lang), cd.ScriptLang)
		}
		if want := fmt.Sprintf("script <%s>:\n```\n%s\n```", cd.ScriptLangShebang(), text); cd.String() != want {
			lang += fmt.Sprintf(" (shown as %q)", cd.String())
		}
		note(name, lang, text, ref.Canon(*j.GetInsides()), strings.ReplaceAll(j.GetCurrentScopePath(), ".[", "["))
		return text
	}
	runners := []runner{
		{"in place", func(cd code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
			text := see("in place", cd, j)
			(*j.GetInsides())["x"+text] = 1.0
			return j, nil
		}, func(text string, scope M) (M, error) { scope["x"+text] = 1.0; return scope, nil }},
		{"copy", func(cd code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
			text := see("copy", cd, j)
			k := j.Clone(false)
			for n, v := range *k.GetInsides() {
				if v == 1.0 {
					(*k.GetInsides())[n] = M{"was": 1.0}
				}
			}
			(*k.GetInsides())["y"+text] = A{M{"k": "v"}}
			return k, nil
		}, func(text string, scope M) (M, error) {
			scope = ref.Copy(scope).(M)
			for n, v := range scope {
				if v == 1.0 {
					scope[n] = M{"was": 1.0}
				}
			}
			scope["y"+text] = A{M{"k": "v"}}
			return scope, nil
		}},
		{"failing", func(cd code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
			text := see("failing", cd, j)
			return nil, fmt.Errorf("failure of %s", text)
		}, func(text string, scope M) (M, error) { return nil, fmt.Errorf("failure of %s", text) }},
	}
	type scripted struct{ lang, text string }
	// documents: X and Y are the fresh names
	docs := []string{
		`{"s":"#//!X\nx1","b":1}`,
		`{"in":{"t":"#//!Y\ny1"},"s":"#//!X\nx2","z":"#//!Y\ny2"}`,
		`{"l":[{"s":"#//!X\nx3\nsecond line"},[{"s":"#//!Y\n"}]]}`,
		`{"a":"#//!js\nj1","b":"#//!X\nx4"}`,
	}
	type hop struct {
		name string
		lang string
		run  int
		doc  int
		kind string
	}
	var ops []hop
	for r := range runners {
		ops = append(ops, hop{name: "X=" + runners[r].name, lang: "X", run: r, doc: -1})
	}
	for r := range runners[:2] {
		ops = append(ops, hop{name: "Y=" + runners[r].name, lang: "Y", run: r, doc: -1}, hop{name: "js=" + runners[r].name, lang: "js", run: r, doc: -1})
	}
	for d := range docs {
		ops = append(ops, hop{name: fmt.Sprintf("eval %d", d), doc: d, kind: "eval"})
	}
	ops = append(ops, hop{name: "run 1", doc: 1, kind: "run"}, hop{name: "markup", doc: -1, kind: "markup"})
	// a name which is registered only after something has been observed, and the other way round, has to be a fresh one: for
	// others there are one which is never registered, and one which is registered before everything else
	reuse, never := false, map[string]string{"X": fresh(), "Y": fresh()}
	old := map[string]string{"X": fresh(), "Y": fresh()}
	mustBeFresh := func(h []hop, l string) (name string, must bool) {
		seen := false
		for _, o := range h {
			if o.lang == l {
				return old[l], seen
			}
			seen = seen || o.lang == ""
		}
		return never[l], false
	}
	nameFor := func(h []hop, l string) string {
		if name, must := mustBeFresh(h, l); reuse && !must {
			return name
		}
		return fresh()
	}
	run := func(h []hop) *core.Fail {
		x, y := nameFor(h, "X"), nameFor(h, "Y")
		if x == "" || y == "" {
			return core.Failf("names", "", "there are no names left")
		}
		var names []string
		for _, o := range h {
			names = append(names, o.name)
		}
		key := strings.Join(names, "; ")
		in := fmt.Sprintf("%s (X is %q, Y is %q)", key, x, y)
		defer func() {
			code.RegisterLang("js", js.RunScript)
			code.RegisterLang("go", _go.RunCallback)
		}()
		name := func(n string) string { return map[string]string{"X": x, "Y": y}[n] }
		reg := map[string]*runner{}
		count := 0
		for _, o := range h {
			if o.lang != "" {
				l := o.lang
				if n := name(l); n != "" {
					l = n
				}
				if !code.RegisterLang(l, runners[o.run].run) {
					return core.Failf(key, in, "%s: RegisterLang gives false", in)
				}
				reg[l] = &runners[o.run]
				continue
			}
			for l, want := range map[string]bool{x: reg[x] != nil, y: reg[y] != nil, "js": true, "go": true} {
				if code.CheckIfSupported(l) != want {
					return core.Failf(key, in, "%s: CheckIfSupported(%q) gives %v", in, l, !want)
				}
			}
			doc := M{"m": M{"k": 1.0}}
			var got V
			var gotErr error
			var wantErrs []string
			log = nil
			switch o.kind {
			case "markup":
				j := jom.NewFromMap(M{"m": M{"k": 1.0}})
				for _, l := range []string{x, y} {
					err := j.MarkupCode("$.m."+map[bool]string{true: "p", false: "q"}[l == x], l, "text")
					if (err == nil) != (reg[l] != nil) {
						return core.Failf(key, in, "%s: marking up with %q gives %v", in, l, err)
					}
					if err != nil && !strings.Contains(err.Error(), "(-2)") {
						return core.Failf(key, in, "%s: the error of marking up is %v", in, err)
					}
					if err == nil {
						doc["m"].(M)[map[bool]string{true: "p", false: "q"}[l == x]] = "#//!" + l + "\ntext"
					}
				}
				p := try(func() { j.Run() })
				if p != nil {
					gotErr = fmt.Errorf("%v", p)
				} else {
					got = *j.GetInsides()
				}
			default:
				text := strings.NewReplacer("!X", "!"+x, "!Y", "!"+y).Replace(docs[o.doc])
				doc = ref.Parse(text).(M)
				if o.kind == "eval" {
					out, err := jom.Eval([]byte(text), false)
					gotErr = err
					if err == nil {
						got = ref.Parse(string(out))
					}
				} else {
					j := jom.NewFromMap(ref.Copy(doc).(M))
					if p := try(func() { j.Run() }); p != nil {
						gotErr = fmt.Errorf("%v", p)
					} else {
						got = *j.GetInsides()
					}
				}
			}
			// the model
			real := log
			log = nil
			parse := func(v V) (s scripted, ok bool) {
				if t, isS := v.(string); isS && len(t) >= 6 && strings.HasPrefix(t, "#//!") && (len(t) == 6 || t[6] == '\n') {
					s.lang = t[4:6]
					if len(t) > 7 {
						s.text = t[7:]
					}
					return s, true
				}
				return s, false
			}
			unsupported := false
			var scan func(v V)
			scan = func(v V) {
				switch t := v.(type) {
				case M:
					for _, e := range t {
						scan(e)
					}
				case A:
					for _, e := range t {
						scan(e)
					}
				default:
					if s, ok := parse(v); ok && s.lang != "js" && s.lang != "go" && reg[s.lang] == nil {
						unsupported = true
						wantErrs = append(wantErrs, "(-2)")
					}
				}
			}
			scan(doc)
			var want V
			if !unsupported {
				count++
				var rec func(v V, path string) V
				rec = func(v V, path string) V {
					switch t := v.(type) {
					case M:
						var ks []string
						for k, e := range t {
							if _, ok := parse(e); ok {
								ks = append(ks, k)
							}
						}
						sort.Strings(ks)
						orig := ref.Copy(t).(M)
						for _, k := range ks {
							s, _ := parse(orig[k])
							r := reg[s.lang]
							if r == nil {
								// the real js, for which the text does nothing
								if s.lang == "js" {
									wantErrs = append(wantErrs, "j1")
								}
								return nil
							}
							note(r.name, s.lang, s.text, ref.Canon(t), path)
							n, err := r.ref(s.text, t)
							if err != nil {
								wantErrs = append(wantErrs, err.Error())
								return nil
							}
							t = n
							delete(t, k)
						}
						for k := range t {
							t[k] = rec(t[k], path+"."+k)
						}
						return t
					case A:
						for i := range t {
							t[i] = rec(t[i], fmt.Sprintf("%s[%d]", path, i))
						}
						return t
					}
					return v
				}
				want = rec(ref.Copy(doc), "$")
			}
			ran := log
			log = nil
			if len(wantErrs) > 0 {
				if gotErr == nil {
					return core.Failf(key, in, "%s: no error, but %v must fail", in, wantErrs)
				}
				ok := false
				for _, w := range wantErrs {
					ok = ok || strings.Contains(gotErr.Error(), w)
				}
				if !ok {
					return core.Failf(key, in, "%s: the error is %v, not one of %v", in, gotErr, wantErrs)
				}
				if unsupported && len(real) > 0 {
					return core.Failf(key, in, "%s: %v although a language is not supported", in, real)
				}
				continue
			}
			if gotErr != nil {
				return core.Failf(key, in, "%s: %v", in, gotErr)
			}
			sort.Strings(real)
			sort.Strings(ran)
			if a, b := strings.Join(real, "\n"), strings.Join(ran, "\n"); a != b {
				return core.Failf(key, in, "%s: the runners are called like this:\n%s\nnot like this:\n%s", in, a, b)
			}
			if a, b := ref.Canon(got), ref.Canon(want); a != b {
				return core.Failf(key, in, "%s: gives %s, not %s", in, a, b)
			}
		}
		if count > 0 && len(h) > 2 {
			c.Nontrivial(1)
		}
		return nil
	}
	depth := 3
	c.Extra("depth", depth)
	var menu []string
	for _, o := range ops {
		menu = append(menu, o.name)
	}
	c.Extra("menu", menu)
	least := 0
	var rec func(h []hop)
	rec = func(h []hop) {
		if c.Expired() {
			return
		}
		// only histories which end with an observation
		if len(h) > least && h[len(h)-1].lang == "" {
			if _, x := mustBeFresh(h, "X"); x && reuse {
				return
			}
			if _, y := mustBeFresh(h, "Y"); y && reuse {
				return
			}
			c.Eval(1)
			h := append([]hop{}, h...)
			c.Case(func() string { return fmt.Sprint(h) }, func() *core.Fail { return run(h) })
		}
		if len(h) == depth {
			return
		}
		for _, o := range ops {
			rec(append(h, o))
		}
	}
	rec(nil)
	// deeper, without js, markups and some of the documents
	least, depth = depth, depth+1
	full := ops
	var fewer []hop
	for _, o := range ops {
		if o.lang != "js" && o.kind != "markup" && (o.doc < 0 || o.doc == 0 || o.doc == 2) && o.name != "run 1" || o.name == "js=copy" {
			fewer = append(fewer, o)
		}
	}
	ops = fewer
	rec(nil)
	// deeper still: all histories in which no fresh names are needed
	reuse, ops, least, depth = true, full, 3, 5
	if c.Thorough {
		depth = 6
	}
	c.Extra("depth without fresh names", depth)
	rec(nil)
	// more and more languages: every one stays registered with its own runner
	many := 150
	if c.Thorough {
		many = 600
	}
	c.Extra("languages at once", many)
	var all []string
	for n := 1; n <= many && !c.Expired(); n++ {
		l := fresh()
		key := fmt.Sprintf("%d languages, the last is %q", n, l)
		if l == "" {
			c.Violate(core.Failf(key, "", "there are no names left"))
			break
		}
		c.Eval(1)
		c.Case(func() string { return key }, func() *core.Fail {
			got := map[string]int{}
			if code.CheckIfSupported(l) {
				return core.Failf(key, key, "%s: it is registered already", key)
			}
			me := len(all)
			code.RegisterLang(l, func(cd code.Code, j json_map.JsonMapInt) (json_map.JsonMapInt, error) {
				got[l]++
				if cd.Script != "text of "+l || cd.ScriptLangShebang() != l {
					return nil, fmt.Errorf("%q of language %q instead of %q", cd.Script, cd.ScriptLangShebang(), l)
				}
				(*j.GetInsides())["n"] = float64(me)
				return j, nil
			})
			all = append(all, l)
			// each in an object of its own, and all together
			docs := []M{{}}
			for i, l := range all {
				d := M{"s": "#//!" + l + "\ntext of " + l}
				docs[0][fmt.Sprint("d", i)] = d
				if i < 2 || i > n-3 || i == n/2 {
					docs = append(docs, M{"d" + fmt.Sprint(i): ref.Copy(d)})
				}
				if !code.CheckIfSupported(l) {
					return core.Failf(key, key, "%s: %q is not supported", key, l)
				}
			}
			for _, d := range docs {
				want := M{}
				for k := range d {
					var i int
					fmt.Sscanf(k, "d%d", &i)
					want[k] = M{"n": float64(i)}
				}
				out, err := jom.Eval([]byte(ref.Canon(d)), false)
				if err != nil {
					return core.Failf(key, key, "%s: %v", key, err)
				}
				if a, b := ref.Canon(ref.Parse(string(out))), ref.Canon(want); a != b {
					return core.Failf(key, key, "%s: gives %s, not %s", key, a, b)
				}
			}
			if got[l] != 2 && n > 2 {
				return core.Failf(key, key, "%s: the last one runs %d times", key, got[l])
			}
			// numbers which no language has are refused
			for _, lang := range []code.ScriptLangType{-1, -2, -1 << 31, code.ShebangScriptLang(l) + 1, code.ShebangScriptLang(l) + 2, 1 << 30} {
				j := jom.NewFromMap(M{"a": 1.0})
				var err error
				if p := try(func() { _, err = code.Run(code.Code{Script: "1", ScriptLang: lang}, j) }); p != nil {
					return core.Failf(key, key, "%s: running a script of language number %d panics: %v", key, lang, p)
				}
				if err == nil || !strings.HasPrefix(err.Error(), "(-2) ") || ref.Canon(*j.GetInsides()) != `{"a":1}` {
					return core.Failf(key, key, "%s: running a script of language number %d gives %v and %s", key, lang, err, ref.Canon(*j.GetInsides()))
				}
			}
			c.Nontrivial(1)
			return nil
		})
	}
	c.Extra("names used", len(used))
}
