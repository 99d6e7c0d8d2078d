package main

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf16"

	"github.com/andygello555/json-dom/jom"
	"github.com/robertkrimen/otto"

	"verif/core"
	"verif/ref"
)

func init() { register("C11", "exploration", c11) }

// ex is a filter expression: its text and what it evaluates to.
type ex struct {
	text string
	eval func(n V, root M) (V, error)
	// the $-paths in it: they are evaluated before anything else, wherever they are in the expression
	paths [][]ref.Alt
}

func pathsOf(es ...ex) (ps [][]ref.Alt) {
	for _, e := range es {
		ps = append(ps, e.paths...)
	}
	return ps
}

type undef struct{}

var errThrow = errors.New("throws")

func jsTruthy(v V) bool {
	if _, ok := v.(undef); ok {
		return false
	}
	return truthy(v)
}

func jsMember(v V, k string, i int) (V, error) {
	switch x := v.(type) {
	case nil, undef:
		return nil, errThrow
	case M:
		if i >= 0 {
			k = fmt.Sprint(i)
		}
		if e, ok := x[k]; ok {
			return e, nil
		}
		return undef{}, nil
	case A:
		if i >= 0 && i < len(x) {
			return x[i], nil
		}
		if i < 0 && k == "length" {
			return float64(len(x)), nil
		}
		return undef{}, nil
	case string:
		u := utf16.Encode([]rune(x))
		if i < 0 && k == "length" {
			return float64(len(u)), nil
		}
		if i >= 0 && i < len(u) {
			return string(utf16.Decode(u[i : i+1])), nil
		}
	}
	return undef{}, nil
}

func jsTypeof(v V) string {
	switch v.(type) {
	case undef:
		return "undefined"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	}
	return "object"
}

func prim(v V) bool { return jsTypeof(v) != "object" || v == nil }

func jsSame(a, b V) (bool, error) {
	if !prim(a) && !prim(b) {
		return false, ref.ErrUnknown // identity of objects: not specified
	}
	if !prim(a) || !prim(b) {
		return false, nil
	}
	return a == b, nil
}

func lit(text string, v V) ex { return ex{text, func(V, M) (V, error) { return v, nil }, nil} }

// dollar is a JSONPath within the filter: it stands for the value it selects, or for an array of the values.
func dollar(p string, alts []ref.Alt) ex {
	return ex{p + " ", func(_ V, root M) (V, error) {
		ns, err := ref.Get(alts, root)
		if err != nil {
			return nil, errThrow
		}
		if len(ns) == 1 {
			return ns[0].V, nil
		}
		a := A{}
		for _, n := range ns {
			a = append(a, n.V)
		}
		return a, nil
	}, [][]ref.Alt{alts}}
}

func dollarP(p string) ex {
	alts, err := ref.ParsePath(p)
	if err != nil {
		panic(p)
	}
	return dollar(p, alts)
}

func un(f string, a ex, g func(V) (V, error)) ex {
	return ex{fmt.Sprintf(f, a.text), func(n V, r M) (V, error) {
		x, err := a.eval(n, r)
		if err != nil {
			return nil, err
		}
		return g(x)
	}, pathsOf(a)}
}

func bin(f string, a, b ex, g func(x, y V) (V, error)) ex {
	return ex{fmt.Sprintf(f, a.text, b.text), func(n V, r M) (V, error) {
		x, err := a.eval(n, r)
		if err != nil {
			return nil, err
		}
		y, err := b.eval(n, r)
		if err != nil {
			return nil, err
		}
		return g(x, y)
	}, pathsOf(a, b)}
}

func same(a, b ex) ex {
	return bin("%s === %s", a, b, func(x, y V) (V, error) { s, err := jsSame(x, y); return s, err })
}
func notSame(a, b ex) ex {
	return bin("%s !== %s", a, b, func(x, y V) (V, error) { s, err := jsSame(x, y); return !s, err })
}
func less(a, b ex) ex {
	return bin("%s < %s", a, b, func(x, y V) (V, error) {
		p, ok1 := x.(float64)
		q, ok2 := y.(float64)
		if !ok1 || !ok2 {
			return nil, ref.ErrUnknown
		}
		return p < q, nil
	})
}
func plusText(a, b ex) ex {
	return bin("(%s + %s).length > 1", a, b, func(x, y V) (V, error) {
		p, ok1 := x.(string)
		q, ok2 := y.(string)
		if !ok1 || !ok2 {
			return nil, ref.ErrUnknown
		}
		l, err := jsMember(p+q, "length", -1)
		return l.(float64) > 1, err
	})
}

func and(a, b ex) ex {
	return ex{"(" + a.text + ") && (" + b.text + ")", func(n V, r M) (V, error) {
		x, err := a.eval(n, r)
		if err != nil || !jsTruthy(x) {
			return x, err
		}
		return b.eval(n, r)
	}, pathsOf(a, b)}
}
func or(a, b ex) ex {
	return ex{a.text + " || " + b.text, func(n V, r M) (V, error) {
		x, err := a.eval(n, r)
		if err != nil || jsTruthy(x) {
			return x, err
		}
		return b.eval(n, r)
	}, pathsOf(a, b)}
}
func tern(a, b, c ex) ex {
	return ex{"(" + a.text + " ? " + b.text + " : [" + c.text + "][0])", func(n V, r M) (V, error) {
		x, err := a.eval(n, r)
		if err != nil {
			return nil, err
		}
		if jsTruthy(x) {
			return b.eval(n, r)
		}
		return c.eval(n, r)
	}, pathsOf(a, b, c)}
}

func (e ex) tok() tok {
	return tFilter(e.text, func(n V, root M) (bool, error) {
		for _, p := range e.paths {
			if _, err := ref.Get(p, root); err != nil {
				return false, ref.ErrStep
			}
		}
		v, err := e.eval(n, root)
		if err == ref.ErrUnknown {
			return false, err
		}
		if err != nil {
			return false, ref.ErrStep
		}
		return jsTruthy(v), nil
	})
}

func c11(c *core.Ctx) {
	c.Rule("all filter expressions built from the listed atoms by the listed unary and binary forms, and all pairs/triples over a smaller set of atoms, applied to arrays and objects of nodes of every kind by reads, sets and deletes, also chained; non-trivial: some but not all nodes are selected")
	root := ref.ParseM(`{"x":2,"s":"it's \"@\" é","t":"@","arr":[1,2,3],"one":[5],"k":{"k":7,"a":1},"n":null,"u":"日本","p":"$.x y"}`)
	nodes := ref.Parse(`[1,2,"@","it's \"@\" é",{"a":2},{"a":"@","b":[1]},[1,2],[],true,"$.x","日本",{"a":{"a":0}},"'",")]","",0,"$.x y"]`).(A)
	nulls := ref.Parse(`[2,null,{"a":null}]`).(A)
	list := func(a A, asMap bool) V {
		if !asMap {
			return ref.Copy(a)
		}
		m := M{}
		for i, e := range a {
			m[fmt.Sprintf("k%02d", (i*7)%len(a))] = ref.Copy(e)
		}
		return m
	}
	at := ex{"@", func(n V, _ M) (V, error) { return n, nil }, nil}
	mem := func(f, k string, i int) ex {
		return un(f, at, func(v V) (V, error) { return jsMember(v, k, i) })
	}
	nested := dollar("$.arr[?(@>1)]", []ref.Alt{{{Kind: ref.Str, Name: "arr"}, {Kind: ref.Filter, Pred: func(n V, _ M) (bool, error) { return n.(float64) > 1, nil }}}})
	atoms := []ex{at, mem("%s.a", "a", -1), mem("%s['a']", "a", -1), mem("%s[\"a\"]", "a", -1), mem("%s[0]", "", 0), mem("%s.length", "length", -1),
		lit("'@'", "@"), lit("\"@\"", "@"), lit("'it\\'s \"@\" é'", "it's \"@\" é"), lit("\"it's \\\"@\\\" é\"", "it's \"@\" é"),
		lit("'$.x'", "$.x"), lit("\"$.x\"", "$.x"), lit("'$.x y'", "$.x y"), lit("\"日本\"", "日本"), lit("'日本'", "日本"), lit("')]'", ")]"), lit("'\\''", "'"), lit("\"'\"", "'"), lit("''", ""),
		dollarP("$.x"), dollarP("$.s"), dollarP("$.t"), dollarP("$.u"), dollarP("$.p"), dollarP("$.arr"), dollarP("$.arr[0]"), dollarP("$.arr[0,2]"), dollarP("$..k"), dollarP("$.k.*"), dollarP("$.one[*]"), nested, dollarP("$.miss"), dollarP("$.arr[9]"),
		lit("1", 1.0), lit("2", 2.0), lit("true", true), lit("null", nil), lit("[1, 2]", A{1.0, 2.0}), lit("{}.x", undef{})}
	atoms[len(atoms)-1].text = "({}).x"
	var exs []ex
	var names []string
	for _, a := range atoms {
		a := a
		names = append(names, a.text)
		exs = append(exs, a, un("!%s", a, func(v V) (V, error) { return !jsTruthy(v), nil }), un("(%s)", a, func(v V) (V, error) { return v, nil }), un("( %s )", a, func(v V) (V, error) { return v, nil }),
			un("[[%s]][0][0]", a, func(v V) (V, error) { return v, nil }), un("(function (v) { return v })(%s)", a, func(v V) (V, error) { return v, nil }),
			un("typeof %s === 'string'", a, func(v V) (V, error) { return jsTypeof(v) == "string", nil }),
			un("JSON.stringify(%s) === '[1,2]'", a, func(v V) (V, error) {
				if _, ok := v.(undef); ok {
					return false, nil
				}
				return ref.Canon(v) == "[1,2]", nil
			}),
			un("String(%s).indexOf('@') >= 0 && '@' !== \"'@'\"", a, func(v V) (V, error) {
				s, ok := v.(string)
				if !ok && !prim(v) {
					return nil, ref.ErrUnknown
				}
				for _, r := range s {
					if r == '@' {
						return true, nil
					}
				}
				return false, nil
			}))
	}
	for _, a := range atoms {
		for _, b := range atoms {
			exs = append(exs, same(a, b), notSame(a, b), less(a, b), plusText(a, b), or(a, b), and(a, b))
		}
	}
	// larger expressions over comparisons
	comps := []ex{same(at, lit("'@'", "@")), same(mem("%s.a", "a", -1), dollarP("$.x")), less(at, dollarP("$.arr[0,2]")), same(dollarP("$.s"), at), un("!%s", at, func(v V) (V, error) { return !jsTruthy(v), nil }),
		same(lit("'it\\'s \"@\" é'", "it's \"@\" é"), at), same(at, lit("')]'", ")]")), same(dollarP("$.u"), at), same(lit("\"'\"", "'"), at), mem("%s.length", "length", -1)}
	for _, a := range comps {
		for _, b := range comps {
			exs = append(exs, and(a, b), or(a, b), and(un("!(%s)", a, func(v V) (V, error) { return !jsTruthy(v), nil }), b))
			for _, d := range comps {
				exs = append(exs, tern(a, b, d))
				if c.Thorough {
					for _, e := range comps {
						exs = append(exs, or(and(a, b), tern(d, e, a)))
					}
				}
			}
		}
	}
	if c.Thorough {
		for _, a := range atoms {
			for _, b := range atoms {
				for _, d := range atoms {
					exs = append(exs, and(same(a, b), d), tern(a, b, d))
				}
			}
		}
	}
	c.Extra("atoms", names)
	c.Extra("expressions", len(exs))
	throwing := []ex{}
	for _, t := range []string{"(function () { throw 1 })()", "nothing", "@.a.b.c", "@ ===", "@@", "(", "')", "@.f()", "new Array(-1)", "$.n.q ", "$.miss.q === @"} {
		throwing = append(throwing, ex{t, func(V, M) (V, error) { return nil, errThrow }, nil})
	}

	run := func(d M, ts []tok, kind int) {
		p, _ := compose(ts)
		if _, err := ref.Get(p.alts, d); err == ref.ErrUnknown {
			return
		}
		c.Eval(1)
		key := p.text + " kind " + fmt.Sprint(kind) + " in " + ref.Canon(d["list"])
		c.Case(func() string { return key }, func() *core.Fail {
			var some bool
			var fail *core.Fail
			switch kind {
			case 0:
				some, fail = checkRead(readCase{d, p})
			case 1:
				some, fail = checkWrite(d, p, 99.0, 0)
			case 2:
				some, fail = checkWrite(d, p, nil, 1)
			}
			if some {
				c.Nontrivial(1)
			}
			return fail
		})
	}
	mk := func(l V) M {
		d := ref.Copy(root).(M)
		d["list"] = l
		return d
	}
	l1, m1, l2 := mk(list(nodes, false)), mk(list(nodes, true)), mk(list(nulls, false))
	c.Parallel(len(exs), func(i int) {
		e := exs[i]
		run(l1, []tok{tStr("list"), e.tok()}, 0)
		run(m1, []tok{tStr("list"), e.tok()}, 0)
		run(l2, []tok{tStr("list"), e.tok()}, 0)
		for kind := 1; kind <= 2; kind++ {
			run(l1, []tok{tStr("list"), e.tok()}, kind)
			run(m1, []tok{tStr("list"), e.tok()}, kind)
		}
		if i < len(atoms)*9 || c.Thorough && i%5 == 0 {
			// in the middle and at the end of longer paths, after other selectors
			run(l1, []tok{tStr("list"), e.tok(), tStr("a")}, 0)
			run(mk(A{ref.Copy(nodes), A{}, ref.Copy(nodes)}), []tok{tStr("list"), tIdx(2, 0), e.tok()}, 0)
			run(l1, []tok{tFirst, e.tok()}, 0)
			run(mk(A{ref.Copy(nodes)}), []tok{tStr("list"), tWild, tIdx(0), e.tok(), tSlice(ip(0), nil)}, 0)
		}
	})
	// expressions which change the node they are given: neither the document nor the next node, be it an equal one, notices
	changing := []ex{
		{"(@.n = @.n + 1) === 2", func(n V, _ M) (V, error) { return n.(M)["n"] == 1.0, nil }, nil},
		{"@.n++ === 1 && @.n === 2", func(n V, _ M) (V, error) { return n.(M)["n"] == 1.0, nil }, nil},
		{"@.l.push(0) < 3", func(n V, _ M) (V, error) { return len(n.(M)["l"].(A)) < 2, nil }, nil},
		{"@.l.pop() === 2", func(n V, _ M) (V, error) { l := n.(M)["l"].(A); return len(l) > 0 && l[len(l)-1] == 2.0, nil }, nil},
		{"@.l.reverse()[0] === 2", func(n V, _ M) (V, error) { l := n.(M)["l"].(A); return len(l) > 0 && l[len(l)-1] == 2.0, nil }, nil},
		{"delete @.o.x && @.o.x === undefined && !('y' in @.o)", func(n V, _ M) (V, error) { _, ok := n.(M)["o"].(M)["y"]; return !ok, nil }, nil},
		{"(@.o.y = @.o.x) && delete @.n && @.n === undefined", func(n V, _ M) (V, error) { return jsTruthy(n.(M)["o"].(M)["x"]), nil }, nil},
		{"(function (node) { var was = node.m; node.m = true; return was })(@) === undefined", func(n V, _ M) (V, error) { return true, nil }, nil},
		{"(@.m = (@.m || 0) + 1) === 1", func(n V, _ M) (V, error) { return true, nil }, nil},
	}
	node := func(i int) V {
		l, o := A{1.0, 2.0, 3.0}[:i%4], M{}
		if i&1 == 0 {
			o["x"] = 1.0
		}
		if i&2 == 0 {
			o["y"] = true
		}
		return M{"n": float64(i % 3), "l": ref.Copy(l), "o": o}
	}
	c.Parallel(len(changing), func(i int) {
		for a := 0; a < 12; a++ {
			for b := 0; b < 12; b++ {
				l := A{node(a), node(b), node(a), node(a), node(b), node(b)}
				for kind := 0; kind <= 2; kind++ {
					run(mk(ref.Copy(l)), []tok{tStr("list"), changing[i].tok()}, kind)
					run(mk(list(l, true)), []tok{tStr("list"), changing[i].tok()}, kind)
					run(mk(ref.Copy(l)), []tok{tStr("list"), changing[i].tok(), changing[(i+a)%len(changing)].tok(), tStr("n")}, 0)
				}
			}
		}
	})
	// two filters in one path: each is applied with its own expression
	chain := append(append([]ex{}, comps...), atoms[0], atoms[1], atoms[6], atoms[8], atoms[15], atoms[20], atoms[25])
	c.Parallel(len(chain), func(i int) {
		for _, e2 := range chain {
			run(l1, []tok{tStr("list"), chain[i].tok(), e2.tok()}, 0)
			run(m1, []tok{tStr("list"), chain[i].tok(), e2.tok()}, 0)
			run(mk(A{list(nodes, false), list(nodes, true)}), []tok{tStr("list"), tWild, tIdx(1), chain[i].tok(), e2.tok(), tStr("a")}, 0)
			run(mk(A{A{1.0, "@"}, M{"a": 2.0, "b": "'"}, A{}}), []tok{tStr("list"), chain[i].tok(), e2.tok()}, 1)
			run(mk(A{A{1.0, "@"}, M{"a": 2.0, "b": "'"}, A{}}), []tok{tStr("list"), chain[i].tok(), e2.tok()}, 2)
		}
	})
	// expressions and nodes of every size: an odd number of the parts are truthy
	odd := func(es ...ex) ex {
		var ts []string
		for _, e := range es {
			ts = append(ts, e.text)
		}
		return ex{"[" + strings.Join(ts, ", ") + "].filter(function (v) { return v }).length % 2", func(n V, r M) (V, error) {
			k := 0
			for _, e := range es {
				v, err := e.eval(n, r)
				if err != nil {
					return nil, err
				}
				if jsTruthy(v) {
					k++
				}
			}
			return float64(k % 2), nil
		}, pathsOf(es...)}
	}
	size := 48
	if c.Thorough {
		size = 160
	}
	c.Extra("size of expressions", size)
	c.Parallel(size, func(i int) {
		n := size - i
		d := mk(nil)
		nums, words := A{}, M{}
		for x := 0; x < n; x++ {
			d[fmt.Sprint("v", x)] = float64(x % 7)
			d[fmt.Sprint("w", x)] = strings.Repeat("@'\"", x%5) + fmt.Sprint(x)
			nums = append(nums, float64(x%9))
			words[fmt.Sprint("n", x)] = strings.Repeat("@'\"", x%5) + fmt.Sprint(x)
		}
		var ats, paths, texts, mixed []ex
		for x := 0; x < n; x++ {
			ats = append(ats, same(at, lit(fmt.Sprint(x%9), float64(x%9))))
			paths = append(paths, same(dollarP(fmt.Sprint("$.v", x)), at))
			texts = append(texts, same(at, dollarP(fmt.Sprint("$.w", x))))
			t := strings.Repeat("@)]", x)
			mixed = append(mixed, notSame(lit("'"+t+"'", t), at), same(at, lit("\"'"+t+"\"", "'"+t)), comps[x%len(comps)], less(dollarP(fmt.Sprint("$.v", x)), lit("3", 3.0)))
		}
		num, txt := ref.Copy(d).(M), ref.Copy(d).(M)
		num["list"], txt["list"] = nums, words
		both := ref.Copy(d).(M)
		both["list"] = append(append(A{}, nums...), list(nodes, true), "@", "'@)]")
		for _, kind := range []int{0, 1, 2} {
			run(num, []tok{tStr("list"), odd(ats...).tok()}, kind)
			run(num, []tok{tStr("list"), odd(paths...).tok()}, kind)
			run(txt, []tok{tStr("list"), odd(texts...).tok()}, kind)
			run(both, []tok{tStr("list"), odd(mixed...).tok()}, kind)
		}
		run(num, []tok{tStr("list"), odd(append(append([]ex{}, paths...), texts...)...).tok(), tSlice(ip(0), nil)}, 0)
		// deep parentheses and brackets, long texts, many filters one after the other
		deep := un(strings.Repeat("(", n)+"%s"+strings.Repeat(")", n), same(at, lit("2", 2.0)), func(v V) (V, error) { return v, nil })
		run(num, []tok{tStr("list"), deep.tok()}, 0)
		deep = un(strings.Repeat("[", n)+"%s"+strings.Repeat("][0]", n), same(at, lit("2", 2.0)), func(v V) (V, error) { return v, nil })
		run(num, []tok{tStr("list"), deep.tok()}, 0)
		long := strings.Repeat("é@ $.x ", n)
		txt["list"].(M)["long"], txt["long"] = long, long
		run(txt, []tok{tStr("list"), same(lit("'"+long+"'", long), at).tok()}, 0)
		run(txt, []tok{tStr("list"), same(at, dollarP("$.long")).tok()}, 0)
		if n <= 16 {
			var v V = A{1.0}
			chain := []tok{tStr("list")}
			for x := 0; x < n; x++ {
				v = A{"no", v, float64(x)}
				chain = append(chain, odd(ats[:x%2+1]...).tok(), tFilter("typeof @ !== 'string'", func(n V, _ M) (bool, error) { _, ok := n.(string); return !ok, nil }))
			}
			run(mk(v), chain, 0)
			chain = []tok{tStr("list")}
			for x := 0; x < n; x++ {
				chain = append(chain, mem("%s.length", "length", -1).tok(), tIdx(0))
			}
			run(mk(v), chain, 0)
		}
	})
	// a filter that throws makes the whole operation fail
	for _, e := range throwing {
		for _, kind := range []int{0, 1, 2} {
			run(mk(A{1.0}), []tok{tStr("list"), e.tok()}, kind)
			run(mk(M{"q": 1.0}), []tok{tStr("list"), e.tok()}, kind)
			run(mk(A{A{1.0}}), []tok{tStr("list"), tIdx(0), e.tok()}, kind)
			run(mk(A{1.0, M{"a": 1.0}}), []tok{tStr("list"), fTrue, e.tok()}, kind)
		}
		run(mk(A{1.0}), []tok{tStr("list"), e.tok(), fTrue}, 0)
	}
	// every character is left alone within a string literal, and reaches the expression through @ and $-paths
	var chars []rune
	for r := rune(0x20); r < 0x180; r++ {
		chars = append(chars, r)
	}
	chars = append(chars, 0x2028, 0x2029, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x1f600, 0x10ffff, 1, 9, 0x7f)
	c.Parallel(len(chars), func(i int) {
		r := chars[i]
		for _, q := range []rune{'\'', '"'} {
			s := string(r) + "@" + string(r)
			t := string(q) + s + string(q)
			if r == q || r == '\\' {
				t = string(q) + "\\" + string(r) + "@\\" + string(r) + string(q)
			}
			e := same(at, lit(t, s))
			if r == 0x2028 || r == 0x2029 {
				continue // line terminators in JavaScript source
			}
			run(mk(A{s, "@", 1.0}), []tok{tStr("list"), e.tok()}, 0)
			run(mk(A{s, "@", 1.0}), []tok{tStr("list"), e.tok(), same(lit(t, s), at).tok()}, 0)
		}
		d := mk(A{string(r), "@", string(r) + "@"})
		d["c"] = string(r) + "@"
		run(d, []tok{tStr("list"), same(at, dollarP("$.c")).tok()}, 0)
		run(d, []tok{tStr("list"), same(dollarP("$.c"), at).tok()}, 2)
		run(d, []tok{tStr("list"), same(dollarP("$.list[2]"), at).tok()}, 1)
	})
	// nothing within regular expression literals and comments is taken for a string, a node, a path or the end of the filter
	parts := []string{"'", `"`, `\)]`, "[)]", "[/']", `\/`, "@", "$.x", "]", "a", `\'`, "[^@]", "$", " "}
	forms := []string{"/BODY/.test(NODE)", "NODE !== 'a' && /BODY/.test(NODE) || NODE === \"it's\"", "String(NODE).replace(/BODY/g, '@').length > 1", "[/BODY/, '@'][0].test(NODE)", "NODE.length / 2 > 1 && /BODY/i.test(NODE)",
		"(function (r) { return /BODY/.test(NODE) || /'/.test(r) })(NODE)", "!/BODY/.test(NODE) && (NODE).length / 1 / 1 > 2", "/* it's @ )] */ /BODY/.test(NODE) /* \" */", "/BODY/.test(NODE) && '/' !== NODE && '/@' !== NODE", "/BODY/.test(PATH ) || /BODY/.test(NODE)", "{'/': /BODY/}['/'].test(NODE)",
		"/*BODY*/NODE > 'a'", "'a'</*BODY*/NODE", "NODE/*BODY*/!=/*BODY*/'it\\'s'/*BODY*/", "(/*BODY*/NODE.length/2/*BODY*/>1)&&/*BODY*//[aeiou@]/.test(/*BODY*/NODE)", "'@'<NODE"}
	texts := A{"it's", "say \"a\"", ")]", "a@b.c", "$.x", "/", "a/b'", "[", "@", " ", "", "x$"}
	lmax := 2
	if c.Thorough {
		lmax = 3
	}
	var bodies []string
	for l := 1; l <= lmax; l++ {
		words(len(parts), l, nil, func(w []int) bool {
			b := ""
			for _, x := range w {
				b += parts[x]
			}
			bodies = append(bodies, b)
			return true
		})
	}
	c.Extra("bodies of regular expressions", len(bodies))
	c.Extra("forms of regular expressions", forms)
	c.Parallel(len(bodies), func(i int) {
		vm := otto.New()
		for _, form := range forms {
			text := strings.ReplaceAll(form, "BODY", bodies[i])
			key := "regular expression " + text
			c.Eval(1)
			c.Case(func() string { return key }, func() *core.Fail {
				var want []interface{}
				for _, t := range texts {
					vm.Set("theNode", t)
					vm.Set("thePath", "it's")
					v, err := vm.Run("!!(" + strings.NewReplacer("NODE", "theNode", "PATH ", "thePath").Replace(text) + ")")
					if err != nil {
						// not JavaScript
						return nil
					}
					if b, _ := v.ToBoolean(); b {
						want = append(want, t)
					}
				}
				if len(want) > 0 && len(want) < len(texts) {
					c.Nontrivial(1)
				}
				filter := strings.NewReplacer("NODE", "@", "PATH", "$.p").Replace(text)
				for _, path := range []string{"$.l[?(" + filter + ")]", "$.ll[?(/[(]/.test)][0][?(" + filter + ")]"} {
					d := M{"l": ref.Copy(texts), "ll": A{ref.Copy(texts)}, "p": "it's", "x": 1.0}
					ns, err := jom.NewFromMap(d).JsonPathSelector(path)
					if err != nil {
						return core.Failf(key, path, "%s: %v", path, err)
					}
					var got []interface{}
					for _, n := range ns {
						got = append(got, n.Value)
					}
					if canonList(got) != canonList(want) {
						return core.Failf(key, path, "%s on %s gives %s, not %s", path, ref.Canon(texts), canonList(got), canonList(want))
					}
				}
				return nil
			})
		}
	})
	for _, re := range []struct {
		name, text, list string
		want             []int
	}{
		{"quotes in regular expressions", `/'/.test(@) || @ === 'a'`, `["it's","a","b"]`, []int{0, 1}},
		{"brackets in a regular expression", `/[)]/.test(@)`, `["(a)","a"]`, []int{0}},
		{"a regular expression", `/^[a-c]+\.\d$/i.test(@) && @ !== 'a.0'`, `["a.0","B.1","x"]`, []int{1}},
		{"a regular expression after a division", `@ / 2 / 1 === 1 && /^\d$/.test(String(@))`, `[1,2,4]`, []int{1}},
	} {
		re := re
		c.Eval(1)
		c.Nontrivial(1)
		c.Case(func() string { return re.name }, func() *core.Fail {
			l := ref.Parse(re.list).(A)
			var want []interface{}
			for _, i := range re.want {
				want = append(want, l[i])
			}
			ns, err := jom.NewFromMap(M{"l": ref.Copy(l)}).JsonPathSelector("$.l[?(" + re.text + ")]")
			if err != nil {
				return core.Failf(re.name, re.text, "$.l[?(%s)] on %s: %v", re.text, re.list, err)
			}
			var got []interface{}
			for _, n := range ns {
				got = append(got, n.Value)
			}
			if canonList(got) != canonList(want) {
				return core.Failf(re.name, re.text, "$.l[?(%s)] on %s gives %s, not %s", re.text, re.list, canonList(got), canonList(want))
			}
			return nil
		})
	}
	for _, i := range []int{0, 40, 400, 800, len(exs) - 1} {
		c.Sample("$.list[?(" + exs[i].text + ")]")
	}
}
