package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/andygello555/json-dom/jom"

	"verif/core"
	"verif/ref"
)

func init() { register("C17", "model_checking", c17) }

// A heap of JavaScript objects and arrays, to know what a program leaves in json.trail.
type jv interface{} // nil, bool, float64, string, undef, jfun, *jo, *ja
type jo struct{ m map[string]jv }
type ja struct {
	a []jv
	x map[string]jv // other members, which have no JSON form
}
type jfun struct{}

func toJS(v V) jv {
	switch x := v.(type) {
	case M:
		o := &jo{map[string]jv{}}
		for k, e := range x {
			o.m[k] = toJS(e)
		}
		return o
	case A:
		a := &ja{}
		for _, e := range x {
			a.a = append(a.a, toJS(e))
		}
		return a
	}
	return v
}

var errCyclic = errors.New("cyclic")

// jsonForm gives the JSON form of a value (second result false: it has none).
func jsonForm(v jv, depth int) (V, bool, error) {
	if depth > 50 {
		return nil, false, errCyclic
	}
	switch x := v.(type) {
	case undef, jfun:
		return nil, false, nil
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, true, nil
		}
		if x == 0 {
			return 0.0, true, nil
		}
		return x, true, nil
	case *jo:
		m := M{}
		for k, e := range x.m {
			j, ok, err := jsonForm(e, depth+1)
			if err != nil {
				return nil, false, err
			}
			if ok {
				m[k] = j
			}
		}
		return m, true, nil
	case *ja:
		a := A{}
		for _, e := range x.a {
			j, ok, err := jsonForm(e, depth+1)
			if err != nil {
				return nil, false, err
			}
			if !ok {
				j = nil
			}
			a = append(a, j)
		}
		return a, true, nil
	}
	return v, true, nil
}

// stm is a statement and what it does; an error is an exception.
type stm struct {
	js string
	f  func(r *jv) error // r: json.trail
}

func member(v jv, k string) (jv, error) {
	switch x := v.(type) {
	case nil, undef:
		return nil, errThrow
	case *jo:
		if e, ok := x.m[k]; ok {
			return e, nil
		}
		return undef{}, nil
	case *ja:
		if i, err := strconv.Atoi(k); err == nil && i >= 0 {
			if i < len(x.a) {
				return x.a[i], nil
			}
			return undef{}, nil
		}
		if k == "length" {
			return float64(len(x.a)), nil
		}
		if e, ok := x.x[k]; ok {
			return e, nil
		}
		if k == "toString" || k == "constructor" {
			return nil, errSkip
		}
		return undef{}, nil
	case string:
		return nil, errSkip
	}
	return undef{}, nil
}

func setMember(v jv, k string, e jv) error {
	switch x := v.(type) {
	case nil, undef:
		return errThrow
	case *jo:
		x.m[k] = e
	case *ja:
		if i, err := strconv.Atoi(k); err == nil && i >= 0 {
			for len(x.a) <= i {
				x.a = append(x.a, undef{})
			}
			x.a[i] = e
			return nil
		}
		if k == "length" {
			return errSkip
		}
		if x.x == nil {
			x.x = map[string]jv{}
		}
		x.x[k] = e
	}
	return nil
}

func at(r jv, path []string) (jv, error) {
	for _, k := range path {
		var err error
		if r, err = member(r, k); err != nil {
			return nil, err
		}
	}
	return r, nil
}

func jsPath(path []string) string {
	s := "json.trail"
	for _, k := range path {
		if _, err := strconv.Atoi(k); err == nil {
			s += "[" + k + "]"
		} else if k != "" && strings.Trim(k, "abcdefghijklmnopqrstuvwxyz") == "" {
			s += "." + k
		} else {
			s += "[" + jsString(k) + "]"
		}
	}
	return s
}

func jsString(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func pp(s string) []string { return strings.Split(s, ".") }

func sAssign(p string, text string, mk func() jv) stm {
	path := pp(p)
	return stm{jsPath(path) + " = " + text, func(r *jv) error {
		o, err := at(*r, path[:len(path)-1])
		if err != nil {
			return err
		}
		return setMember(o, path[len(path)-1], mk())
	}}
}

func sJSON(p, text string) stm { return sAssign(p, text, func() jv { return toJS(ref.Parse(text)) }) }

func sCopy(to, from string) stm {
	tp, fp := pp(to), pp(from)
	return stm{jsPath(tp) + " = " + jsPath(fp), func(r *jv) error {
		o, err := at(*r, tp[:len(tp)-1])
		if err != nil {
			return err
		}
		v, err := at(*r, fp)
		if err != nil {
			return err
		}
		return setMember(o, tp[len(tp)-1], v)
	}}
}

func sDelete(p string) stm {
	path := pp(p)
	return stm{"delete " + jsPath(path), func(r *jv) error {
		o, err := at(*r, path[:len(path)-1])
		if err != nil {
			return err
		}
		k := path[len(path)-1]
		switch x := o.(type) {
		case nil, undef:
			return errThrow
		case *jo:
			delete(x.m, k)
		case *ja:
			if i, err := strconv.Atoi(k); err == nil && i < len(x.a) {
				x.a[i] = undef{}
			} else {
				delete(x.x, k)
			}
		case string:
			return errSkip
		}
		return nil
	}}
}

// sCall calls an array method.
func sCall(p, call string, f func(a *ja)) stm {
	path := pp(p)
	return stm{jsPath(path) + "." + call, func(r *jv) error {
		v, err := at(*r, path)
		if err != nil {
			return err
		}
		a, ok := v.(*ja)
		if !ok {
			return errThrow
		}
		f(a)
		return nil
	}}
}

func sLength(p string, n int) stm {
	path := pp(p)
	return stm{fmt.Sprintf("%s.length = %d", jsPath(path), n), func(r *jv) error {
		v, err := at(*r, path)
		if err != nil {
			return err
		}
		a, ok := v.(*ja)
		if !ok {
			return setMember(v, "length", float64(n))
		}
		for len(a.a) < n {
			a.a = append(a.a, undef{})
		}
		a.a = a.a[:n]
		return nil
	}}
}

func menu() []stm {
	num := func(f float64) func() jv { return func() jv { return f } }
	return []stm{
		sJSON("n", `1`), sJSON("a", `{"b":[],"c":{}}`), sJSON("a", `[{"a":1},[2,[]],null,"x"]`), sJSON("a.b", `[1,{"a":[null]}]`), sJSON("l.0", `null`), sJSON("l.3", `"é\"\\\n"`), sJSON("l.1.x", `{}`), sJSON("s", `""`), sJSON("", `{"":0}`),
		sJSON("a.c.d", `true`), sJSON("x y.z", `5`), sJSON("é", `{"日本":[false]}`), sJSON("__proto", `1`), sJSON("length", `3`), sJSON("a.length", `7`),
		sAssign("u", "undefined", func() jv { return undef{} }), sAssign("a.u", "undefined", func() jv { return undef{} }), sAssign("l.1", "undefined", func() jv { return undef{} }), sAssign("f", "function () { return 1 }", func() jv { return jfun{} }), sAssign("l.2", "function () {}", func() jv { return jfun{} }),
		sAssign("n", "0/0", num(math.NaN())), sAssign("a.n", "[1/0, -1/0]", func() jv { return toJS(A{nil, nil}) }), sAssign("n", "-0", num(0)), sAssign("n", "0.1+0.2", num(0.30000000000000004)),
		sDelete("a"), sDelete("l"), sDelete("a.b"), sDelete("l.0"), sDelete("zz"), sDelete("a.zz.q"), sDelete("s"),
		sCopy("c", "a"), sCopy("a.self", "l"), sCopy("l.0", "a"), sCopy("m", "l.1"), sCopy("a", "s"), sCopy("l", "a.b"),
		sCall("l", "push(4, [5], {a: null})", func(a *ja) { a.a = append(a.a, 4.0, toJS(A{5.0}), toJS(M{"a": nil})) }),
		sCall("l", "pop()", func(a *ja) {
			if len(a.a) > 0 {
				a.a = a.a[:len(a.a)-1]
			}
		}),
		sCall("l", "shift()", func(a *ja) {
			if len(a.a) > 0 {
				a.a = a.a[1:]
			}
		}),
		sCall("a.b", "unshift('x')", func(a *ja) { a.a = append([]jv{"x"}, a.a...) }),
		sCall("l", "reverse()", func(a *ja) {
			for i, j := 0, len(a.a)-1; i < j; i, j = i+1, j-1 {
				a.a[i], a.a[j] = a.a[j], a.a[i]
			}
		}),
		sLength("l", 1), sLength("l", 0), sLength("a.b", 2),
		sCall("l", "splice(0, 1, {}, [])", func(a *ja) {
			rest := a.a
			if len(rest) > 0 {
				rest = rest[1:]
			}
			a.a = append([]jv{&jo{map[string]jv{}}, &ja{}}, rest...)
		}),
		{"json.trail = {l: [1], n: null, a: {b: []}}", func(r *jv) error { *r = toJS(ref.Parse(`{"l":[1],"n":null,"a":{"b":[]}}`)); return nil }},
		{"json.trail = JSON.parse(JSON.stringify(json.trail))", func(r *jv) error {
			v, ok, err := jsonForm(*r, 0)
			if err != nil || !ok {
				return errThrow
			}
			*r = toJS(v)
			return nil
		}},
		{"json.trail.a.b.c.d = 1", func(r *jv) error {
			o, err := at(*r, []string{"a", "b", "c"})
			if err != nil {
				return err
			}
			return setMember(o, "d", 1.0)
		}},
		{"if (json.trail.n) throw 'x'", func(r *jv) error {
			n, err := member(*r, "n")
			if err != nil {
				return err
			}
			switch x := n.(type) {
			case nil, undef:
				return nil
			case float64:
				if x == 0 || math.IsNaN(x) {
					return nil
				}
			case string:
				if x == "" {
					return nil
				}
			case bool:
				if !x {
					return nil
				}
			}
			return errThrow
		}},
	}
}

const selfKey = "~script"

func c17(c *core.Ctx) {
	c.Rule("all programs of at most n statements from the menu on all documents: the scope afterwards is the JSON form of what the model heap holds, or the run fails exactly if the program throws; then every character and many numbers stored by a script or left untouched by it; and scripts which leave json.trail something else than an object; non-trivial: programs which end without an error and change the scope")
	stms := menu()
	docs := []string{`{}`, `{"a":{"b":[1,[]],"c":{"c":{}}},"l":[{"a":1},[2,[3]],null],"n":0,"s":"x"}`, `{"a":[],"l":{},"n":null}`, `{"a":null,"l":[],"n":"","s":{"s":[[]]}}`, `{"l":[[[]],[{}]],"a":{"b":{"c":{}}},"é":1,"x y":{}}`}
	var names []string
	for _, s := range stms {
		names = append(names, s.js)
	}
	c.Extra("statements", names)
	c.Extra("documents", docs)
	depth, deepDocs := 3, 1
	if c.Thorough {
		deepDocs = len(docs)
	}
	c.Extra("length", depth)
	c.Extra("documents_for_the_longest", deepDocs)
	run := func(d string, w []int, wrap bool) {
		prog := ""
		for _, x := range w {
			prog += stms[x].js + ";\n"
		}
		key := fmt.Sprintf("%s on %s (array %v)", strings.ReplaceAll(prog, "\n", " "), d, wrap)
		m0 := ref.ParseM(d)
		var root jv
		root = toJS(m0)
		root.(*jo).m[selfKey] = "script"
		var rerr error
		for _, x := range w {
			if rerr = stms[x].f(&root); rerr != nil {
				break
			}
		}
		if rerr == errSkip {
			return
		}
		c.Eval(1)
		c.Transitions(int64(len(w)))
		c.Traces(1)
		c.Case(func() string { return key }, func() *core.Fail {
			m := ref.Copy(m0).(M)
			m[selfKey] = "#//!js\n" + prog
			var top M = m
			if wrap {
				top = M{"array": A{7.0, m, A{m0}}}
			}
			j := doc(top)
			j.Array = wrap
			err := tryErr(func() error { j.Run(); return nil })
			w, ok, jerr := jsonForm(root, 0)
			bad := rerr != nil || jerr != nil || !ok
			if bad != (err != nil) {
				return core.Failf(key, key, "%s: error %v, the model expects failure: %v", key, err, bad)
			}
			if bad {
				return nil
			}
			wm := w.(M)
			delete(wm, selfKey)
			if ref.Canon(wm) != ref.Canon(m0) {
				c.Nontrivial(1)
			}
			want := V(wm)
			if wrap {
				want = M{"array": A{7.0, wm, A{m0}}}
			}
			g := canonOf(j)
			if g != ref.Canon(want) {
				return core.Failf(key, key, "%s: gives %s instead of %s", key, g, ref.Canon(want))
			}
			reach(g)
			return nil
		})
	}
	// all characters: untouched, copied, and written as literals and as escapes
	var chunks []string
	var b []rune
	flush := func() {
		if len(b) > 0 {
			chunks = append(chunks, string(b))
			b = nil
		}
	}
	for r := rune(0); r < 0x10000; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		b = append(b, r)
		if len(b) == 64 || r < 0x100 {
			flush()
		}
	}
	flush()
	for _, r := range []rune{0x10000, 0x1f600, 0x1f468, 0x2f800, 0xe0001, 0xfffff, 0x10ffff} {
		chunks = append(chunks, string(r), string(r)+"x", "x"+string(r)+string(r))
	}
	chunks = append(chunks, "</script><!--", "\\u0041", "\\", "\\\\\"", "a\x00b", "\u2028\u2029", "\r\n", "\ufeffx", "ﬀİi̇", "e\u0301", strings.Repeat("long ", 5000))
	for _, t := range lookalikes() {
		if !strings.Contains(t, "#//!js") {
			chunks = append(chunks, t, t+"x", "x"+t)
		}
	}
	most := 1<<12 + 1
	if c.Thorough {
		most = 1<<15 + 1
	}
	for _, n := range powers(1, most) {
		chunks = append(chunks, strings.Repeat("é", n), strings.Repeat("<x", n/2+1))
	}
	c.Extra("character_chunks", len(chunks))
	c.Parallel(len(chunks), func(i int) {
		s := chunks[i]
		c.Eval(1)
		key := fmt.Sprintf("characters %+q", short(s))
		c.Case(func() string { return key }, func() *core.Fail {
			lit := jsString(s)
			raw := lit
			if !strings.ContainsAny(s, "\u2028\u2029") {
				var b strings.Builder
				e := json.NewEncoder(&b)
				e.SetEscapeHTML(false)
				_ = e.Encode(s)
				raw = strings.TrimSpace(b.String())
			}
			prog := fmt.Sprintf("var t = json.trail; t.copy = t.s; t.twice = t.s + t.s; t.lit = %s; t.list = [t.s, [%s]]; t.k = {}; t.k[%s] = 1; t.o = {}; t.o[t.s] = [t.s]", lit, raw, lit)
			j := doc(M{"s": s, "u": M{s: A{s}}, selfKey: "#//!js\n" + prog})
			if err := tryErr(func() error { j.Run(); return nil }); err != nil {
				return core.Failf(key, key, "%s: %v", key, err)
			}
			w := M{"s": s, "u": M{s: A{s}}, "copy": s, "twice": s + s, "lit": s, "list": A{s, A{s}}, "o": M{s: A{s}}, "k": M{s: 1.0}}
			if g := canonOf(j); g != ref.Canon(w) {
				return core.Failf(key, key, "%s: gives %s instead of %s", key, g, ref.Canon(w))
			}
			c.Nontrivial(1)
			// and through text
			d, _ := json.Marshal(M{"s": s, selfKey: "#//!js\njson.trail.t = json.trail.s"})
			out, err := jom.Eval(d, false)
			if err != nil || ref.Canon(ref.Parse(string(out))) != ref.Canon(M{"s": s, "t": s}) {
				return core.Failf(key, key, "%s: Eval gives %s, %v", key, out, err)
			}
			return nil
		})
	})
	// numbers
	var nums []string
	for _, m := range []string{"0", "1", "2", "5", "9", "10", "1.5", "123456789", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740994", "12345678901234567890", "4294967295", "4294967296", "2147483648", "2147483647", "0.1", "0.30000000000000004", "1.7976931348623157", "4.9", "2.2250738585072014", "3.141592653589793", "0.000001", "0.0000001", "99999999999999990000", "100000000000000000000", "1000000000000000000000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e21", "123e-20"} {
		nums = append(nums, m)
		if !strings.Contains(m, "e") {
			for _, e := range []string{"e1", "e5", "e20", "e-1", "e-7", "e-10", "e100", "e-100", "e290", "e-300"} {
				nums = append(nums, m+e)
			}
		}
	}
	nums = append(nums, "5e-324", "1.7976931348623157e308", "2.2250738585072014e-308", "1e-323")
	step := 1009
	if c.Thorough {
		step = 31
	}
	for x := 0; x < 100000; x += step {
		nums = append(nums, fmt.Sprintf("%d.%05d", x%7, x), fmt.Sprint(x*x*x), fmt.Sprintf("%de-%d", x, x%30), strconv.FormatFloat(1/(float64(x)+3), 'g', -1, 64), strconv.FormatFloat(math.Sqrt(float64(x)), 'g', -1, 64))
	}
	c.Extra("numbers", len(nums)*2)
	c.Parallel(len(nums)*2, func(i int) {
		t := nums[i/2]
		if i%2 == 1 {
			t = "-" + t
		}
		x, err := strconv.ParseFloat(t, 64)
		if err != nil {
			return
		}
		c.Eval(1)
		key := "number " + t
		c.Case(func() string { return key }, func() *core.Fail {
			out, err := jom.Eval([]byte(fmt.Sprintf(`{"u":%s,"l":[%s],"%s":"#//!js\nvar t = json.trail; t.c = t.u; t.v = %s; t.w = [[%s]]; t.p = t.u * 1; t.eq = t.u === %s"}`, t, t, selfKey, t, t, t)), false)
			if err != nil {
				return core.Failf(key, key, "%s: %v", key, err)
			}
			w := M{"u": x, "l": A{x}, "c": x, "v": x, "w": A{A{x}}, "p": x, "eq": true}
			g := ref.Parse(string(out))
			if ref.Canon(clearZero(g)) != ref.Canon(clearZero(w)) { // the JSON form of -0 is 0
				return core.Failf(key, key, "%s: gives %s instead of %s", key, ref.Canon(g), ref.Canon(w))
			}
			c.Nontrivial(1)
			return nil
		})
	})
	// json.trail is no object any more
	bad := []string{"json.trail = 1", "json.trail = null", "json.trail = 'x'", "json.trail = '{}'", "json.trail = true", "json.trail = [1]", "json.trail = []", "json.trail = undefined", "delete json.trail", "json.trail = function () {}", "json = 5", "json = null", "json = undefined", "delete json.trail; json.trail = [{}]", "json.trail = new Date(0)", "json.trail = 0/0", "json.trail = new String('{}')",
		"json.trail = {toJSON: function () { return 5 }}", "json.trail = {toJSON: function () { return null }}", "json.trail.x = json.trail", "json.trail.toJSON = function () { throw 1 }", "JSON = null", "json = {}", "json = {trail: null}", "json = {trail: 'null'}"}
	for _, d := range append(docs, `{"a":{"b":{"c":1}}}`) {
		for _, s := range bad {
			for where := 0; where < 3; where++ {
				d, s, where := d, s, where
				c.Eval(1)
				key := fmt.Sprintf("%s in %s (%d)", s, d, where)
				c.Case(func() string { return key }, func() *core.Fail {
					m := ref.ParseM(d)
					m[selfKey] = "#//!js\n" + s
					if where == 1 {
						m = M{"z": A{A{m}}}
					}
					if where == 2 {
						m = M{"z": M{"a": 1.0, "q": m}}
					}
					out, err := evalDoc(m, false)
					if err == nil {
						return core.Failf(key, key, "%s: gives %s instead of an error", key, out)
					}
					c.Nontrivial(1)
					return nil
				})
			}
		}
	}
	// every size: data a script leaves alone, and data it makes
	size := 40
	if c.Thorough {
		size = 120
	}
	c.Extra("size", size)
	c.Parallel(size, func(i int) {
		n := size - i
		data := M{"o": wideObject(n), "l": longArray(n), "d": deepValue(n), "s": strings.Repeat("é\"\\\n", n), strings.Repeat("k", n+2): A{}}
		change := func(name, js string, f func(m M)) {
			c.Eval(1)
			key := fmt.Sprintf("%s, size %d", name, n)
			c.Case(func() string { return key }, func() *core.Fail {
				for where := 0; where < 2; where++ {
					m := ref.Copy(data).(M)
					m[selfKey] = "#//!js\n" + js
					w := ref.Copy(data).(M)
					f(w)
					var want V = w
					if where == 1 {
						m, want = M{"z": A{1.0, m, ref.Copy(data)}}, M{"z": A{1.0, w, ref.Copy(data)}}
					}
					j := doc(m)
					if err := tryErr(func() error { j.Run(); return nil }); err != nil {
						return core.Failf(key, key, "%s: %v", key, err)
					}
					if g := canonOf(j); g != ref.Canon(want) {
						return core.Failf(key, key, "%s: gives %s instead of %s", key, g, ref.Canon(want))
					}
				}
				c.Nontrivial(1)
				return nil
			})
		}
		change("untouched", "var x = 1", func(M) {})
		change("one member", "json.trail.q = [json.trail.l[0]]", func(m M) { m["q"] = A{m["l"].(A)[0]} })
		change("many members", fmt.Sprintf("for (var i = 0; i < %d; i++) { json.trail['m' + i] = [i, {i: i}, null, '' + i] }", n), func(m M) {
			for i := 0; i < n; i++ {
				m[fmt.Sprint("m", i)] = A{float64(i), M{"i": float64(i)}, nil, fmt.Sprint(i)}
			}
		})
		change("every other member deleted", "var i = 0; for (i = 0; i < "+fmt.Sprint(n)+"; i += 2) { delete json.trail.o['k' + i] } json.trail.l = json.trail.l.filter(function (v, i) { return i % 2 })", func(m M) {
			l := A{}
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					delete(m["o"].(M), fmt.Sprint("k", i))
				} else {
					l = append(l, m["l"].(A)[i])
				}
			}
			m["l"] = l
		})
		change("elements moved", "json.trail.l.reverse(); json.trail.l.push(json.trail.l.shift(), json.trail.d)", func(m M) {
			l := A{}
			for i := range m["l"].(A) {
				l = append(l, m["l"].(A)[n-1-i])
			}
			m["l"] = append(append(append(A{}, l[1:]...), l[0]), ref.Copy(m["d"]))
		})
		change("deep", fmt.Sprintf("var t = json.trail.x = {}; for (var i = 0; i < %d; i++) { t.l = [i, {e: []}]; t = t.l[1] } t.s = json.trail.s + json.trail.s", n), func(m M) {
			last := M{"s": m["s"].(string) + m["s"].(string), "e": A{}}
			for i := n - 1; i >= 0; i-- {
				p := M{"l": A{float64(i), last}}
				if i > 0 {
					p["e"] = A{}
				}
				last = p
			}
			m["x"] = last
		})
		change("replaced", "json.trail = {o: json.trail.o, l: [json.trail.l, json.trail.l]}", func(m M) {
			o, l := m["o"], m["l"]
			for k := range m {
				delete(m, k)
			}
			m["o"], m["l"] = o, A{l, ref.Copy(l)}
		})
	})
	resetStates()
	for l := 0; l <= depth; l++ {
		l := l
		pl := l
		if pl > 1 {
			pl = 1
		}
		var pre [][]int
		words(len(stms), pl, nil, func(w []int) bool { pre = append(pre, append([]int{}, w...)); return true })
		ds := append([]string{docs[1], docs[0]}, docs[2:]...)
		if l == depth {
			ds = ds[:deepDocs]
		}
		c.Parallel(len(pre)*len(ds), func(i int) {
			words(len(stms), l, pre[i/len(ds)], func(w []int) bool {
				run(ds[i%len(ds)], w, false)
				if l < 2 {
					run(ds[i%len(ds)], w, true)
				}
				return !c.Expired()
			})
		})
	}
	countStates(c)
	c.Sample(stms[3].js + "; " + stms[20].js)
	c.Sample(nums[40])
	c.Sample(bad[5])
}

func clearZero(v V) V {
	switch x := v.(type) {
	case M:
		for k := range x {
			x[k] = clearZero(x[k])
		}
	case A:
		for k := range x {
			x[k] = clearZero(x[k])
		}
	case float64:
		if x == 0 {
			return 0.0
		}
	}
	return v
}
