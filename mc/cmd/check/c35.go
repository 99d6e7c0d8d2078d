package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() { register("C35", "exploration", c35) }

// handKey is the opposite of stepOf.
func handKey(s ref.Step) json_map.AbsolutePathKey {
	end := func(i *int) json_map.AbsolutePathKey {
		if i == nil {
			return json_map.AbsolutePathKey{KeyType: json_map.StartEnd}
		}
		return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: *i}
	}
	switch s.Kind {
	case ref.Str:
		return json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: s.Name}
	case ref.Idx:
		return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: s.I}
	case ref.Wild:
		return json_map.AbsolutePathKey{KeyType: json_map.Wildcard}
	case ref.Filter:
		return json_map.AbsolutePathKey{KeyType: json_map.Filter, Value: s.Name}
	case ref.First:
		return json_map.AbsolutePathKey{KeyType: json_map.First}
	case ref.Rec:
		return json_map.AbsolutePathKey{KeyType: json_map.RecursiveLookup, Value: s.Name}
	}
	return json_map.AbsolutePathKey{KeyType: json_map.Slice, Value: []json_map.AbsolutePathKey{end(s.Start), end(s.End)}}
}

func byHand(alts []ref.Alt) *json_map.AbsolutePaths {
	ps := json_map.AbsolutePaths{}
	for _, a := range alts {
		p := make([]json_map.AbsolutePathKey, 0)
		for _, s := range a {
			p = append(p, handKey(s))
		}
		ps = append(ps, p)
	}
	return &ps
}

// handCheck reads, sets and deletes through paths built by hand, twice each with the same paths.
func handCheck(d M, alts []ref.Alt, vals ...V) (bool, *core.Fail) {
	key := fmt.Sprintf("%s %s", ref.Canon(d), ref.AltsString(alts))
	replay := map[string]string{"document": ref.Canon(d), "paths": ref.AltsString(alts)}
	ps := byHand(alts)
	same := func(what string) *core.Fail {
		if !reflect.DeepEqual(ps, byHand(alts)) {
			return core.Failf(key, replay, "%s changed the paths %s to %v", what, key, *ps)
		}
		return nil
	}
	failing := 0
	for _, a := range alts {
		if _, err := ref.Get([]ref.Alt{a}, d); err != nil {
			failing++
		}
	}
	want, werr := ref.Get(alts, d)
	j := doc(d)
	for i := 0; i < 2; i++ {
		ns, errs := j.GetAbsolutePaths(ps)
		if (len(errs) > 0) != (werr != nil) || len(errs) != failing {
			return false, core.Failf(key, replay, "reading %s: errors %v, but %d paths lead nowhere", key, errs, failing)
		}
		for _, e := range errs {
			if e == nil || !strings.HasPrefix(e.Error(), "(-6) ") {
				return false, core.Failf(key, replay, "reading %s: error %v", key, e)
			}
		}
		if werr == nil {
			var wv []V
			for _, n := range want {
				wv = append(wv, n.V)
			}
			if g, w := canonList(values(ns)), canonList(wv); g != w {
				return true, core.Failf(key, replay, "reading %s gives %s instead of %s", key, g, w)
			}
			for x, n := range ns {
				// the path of the node: the alternative, and the index of an element
				a := byHand(alts[want[x].Alt : want[x].Alt+1])
				p := (*a)[0]
				if want[x].Pos >= 0 {
					p = append(p, json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: want[x].Pos})
				}
				if len(n.Absolute) != len(p) || len(p) > 0 && !reflect.DeepEqual(n.Absolute, p) {
					return true, core.Failf(key, replay, "reading %s: the path of node %d is %v instead of %v", key, x, n.Absolute, p)
				}
			}
		} else if len(ns) > 0 {
			return true, core.Failf(key, replay, "reading %s gives values and errors", key)
		}
		if g := canonOf(j); g != ref.Canon(d) {
			return true, core.Failf(key, replay, "reading %s changed the document to %s", key, g)
		}
		if f := same("reading"); f != nil {
			return true, f
		}
	}
	hit := len(want) > 0
	for _, v := range vals {
		cur := d
		j := doc(d)
		for i := 0; i < 2; i++ {
			w, touched, werr := ref.Set(alts, cur, v)
			err := tryErr(func() error { return j.SetAbsolutePaths(ps, ref.Copy(v)) })
			if (err != nil) != (werr != nil) {
				return true, core.Failf(key, replay, "setting %s to %s (time %d): error %v, expected error %v", key, ref.Canon(v), i+1, err, werr)
			}
			if f := same("setting"); f != nil {
				return true, f
			}
			got := canonOf(j)
			if err != nil {
				if definite(alts) && got != ref.Canon(cur) {
					return true, core.Failf(key, replay, "setting %s to %s (time %d) failed with %v but changed the document to %s", key, ref.Canon(v), i+1, err, got)
				}
				break
			}
			if got != ref.Canon(w) || j.IsArray() {
				return true, core.Failf(key, replay, "setting %s to %s (time %d) gives %s instead of %s", key, ref.Canon(v), i+1, got, ref.Canon(w))
			}
			cur = w
			hit = hit || touched > 0
		}
	}
	return hit, nil
}

func c35(c *core.Ctx) {
	c.Rule("paths built by hand: all key lists of up to n keys over properties and recursive lookups of odd names (empty, with dots, brackets, digits first, control characters …), indices (also negative), wildcards, first descents, filters and slices with every kind of side, on all documents of up to m nodes over these names; lists of alternatives; names which look like something else; every length of a path and number of alternatives; lone start/end keys at every position: reads, sets and deletes twice with the same paths against the reference evaluation, paths unchanged, one error per alternative which leads nowhere; non-trivial: something read or written")
	run := func(d M, alts []ref.Alt, vals ...V) {
		c.Case(func() string { return ref.Canon(d) + " " + ref.AltsString(alts) }, func() *core.Fail {
			hit, f := handCheck(d, alts, vals...)
			if hit {
				c.Nontrivial(1)
			}
			return f
		})
	}
	steps := func(k1, k2 string) []ref.Step {
		out := []ref.Step{{Kind: ref.Str, Name: k1}, {Kind: ref.Str, Name: k2}, {Kind: ref.Rec, Name: k1}, {Kind: ref.Idx, I: 0}, {Kind: ref.Idx, I: 1}, {Kind: ref.Idx, I: -1}, {Kind: ref.Wild}, {Kind: ref.First},
			{Kind: ref.Slice}, {Kind: ref.Slice, Start: ip(0), End: ip(1)}, {Kind: ref.Slice, Start: ip(-1)}, {Kind: ref.Slice, End: ip(-1)}, {Kind: ref.Slice, Start: ip(1), End: ip(0)}, {Kind: ref.Slice, Start: ip(-1), End: ip(2)}, {Kind: ref.Slice, Start: ip(-2), End: ip(-1)}, fTrue.steps[0], fNum.steps[0]}
		return out
	}
	vals := []V{5.0, nil, A{M{"q": nil}}}
	names := []string{"a", "", ".", "a.b", " ", "0", "-1", "$", "@", "*", "..", "[0]", "é", "a\n\"", "\x00", "?(true)", "array", "a,b"}
	nodes, length := 4, 2
	if c.Thorough {
		nodes, length = 5, 3
	}
	c.Extra("names", names)
	c.Extra("nodes", nodes)
	c.Extra("keys", length)
	// (a) all documents and key lists over pairs of names
	type pair struct{ a, b string }
	var prs []pair
	for i, n := range names {
		prs = append(prs, pair{n, names[(i+1)%len(names)]})
	}
	for pi, p := range prs {
		st := steps(p.a, p.b)
		n, l := nodes, length
		if c.Thorough && pi > 2 {
			n, l = 4, 2
			if pi%4 == 3 {
				l = 3
			}
		}
		ds := shapes(n, 2, p.a, p.b)
		var alts []ref.Alt
		for k := 0; k <= l; k++ {
			words(len(st), k, nil, func(w []int) bool {
				a := ref.Alt{}
				for _, x := range w {
					a = append(a, st[x])
				}
				filters := 0
				for _, s := range a {
					if s.Kind == ref.Filter {
						filters++
					}
				}
				if filters < 2 {
					alts = append(alts, a)
				}
				return true
			})
		}
		c.Parallel(len(ds), func(i int) {
			for x, a := range alts {
				if c.Expired() {
					return
				}
				c.Eval(1)
				vs := vals
				if !c.Thorough {
					vs = vals[(x+i)%3 : (x+i)%3+1]
				}
				run(ds[i], []ref.Alt{a}, vs...)
			}
		})
	}
	// (b) all lists of alternatives (also none)
	st := []ref.Step{{Kind: ref.Str, Name: "a"}, {Kind: ref.Str, Name: ""}, {Kind: ref.Idx, I: 0}, {Kind: ref.Idx, I: 1}, {Kind: ref.Wild}, {Kind: ref.Rec, Name: ""}, {Kind: ref.Slice, Start: ip(-1)}}
	var single []ref.Alt
	for k := 0; k <= 2; k++ {
		words(len(st), k, nil, func(w []int) bool {
			a := ref.Alt{}
			for _, x := range w {
				a = append(a, st[x])
			}
			single = append(single, a)
			return true
		})
	}
	ds := shapes(4, 2, "a", "")
	c.Parallel(len(ds), func(i int) {
		run(ds[i], nil, vals...)
		for x, a := range single {
			for y, b := range single {
				if c.Expired() {
					return
				}
				if !c.Thorough && (x*len(single)+y+i)%5 > 0 {
					continue
				}
				c.Eval(1)
				run(ds[i], []ref.Alt{a, b}, vals[(x+y+i)%3])
				if (x+y+i)%7 == 0 {
					run(ds[i], []ref.Alt{b, a, b, single[(x+y)%len(single)]}, vals[(x+i)%3])
				}
			}
		}
	})
	// (c) names which look like something else, next to each other
	look := lookalikes()
	c.Parallel(len(look), func(i int) {
		n := look[i]
		for k := 1; k <= 3; k++ {
			o := look[(i+k)%len(look)]
			d := M{n: M{n: A{1.0, M{n: 2.0, o: 3.0}}, o: n}, o: A{M{n: A{}}, n, M{o: M{n: 4.0}}}}
			for _, a := range []ref.Alt{{{Kind: ref.Str, Name: n}}, {{Kind: ref.Str, Name: n}, {Kind: ref.Str, Name: n}}, {{Kind: ref.Str, Name: n}, {Kind: ref.Str, Name: n}, {Kind: ref.Str, Name: n}}, {{Kind: ref.Rec, Name: n}}, {{Kind: ref.Rec, Name: o}, {Kind: ref.Str, Name: n}}, {{Kind: ref.Str, Name: o}, {Kind: ref.Str, Name: n}}, {{Kind: ref.Str, Name: o}, {Kind: ref.Idx, I: 2}, {Kind: ref.Str, Name: o}, {Kind: ref.Str, Name: n + "x"}}, {{Kind: ref.First}, {Kind: ref.Wild}}} {
				c.Eval(1)
				run(d, []ref.Alt{a}, 5.0, nil, n)
				run(d, []ref.Alt{a, {{Kind: ref.Str, Name: o}}}, nil)
			}
		}
	})
	// (d) every length of a path and of a list of alternatives
	size := 64
	if c.Thorough {
		size = 400
	}
	c.Extra("size", size)
	c.Parallel(size, func(i int) {
		n := i + 1
		v := V(1.0)
		a, w := ref.Alt{}, ref.Alt{}
		for x := 0; x < n; x++ {
			if x%2 == 0 {
				v = M{names[x%len(names)]: v}
				a = append(ref.Alt{{Kind: ref.Str, Name: names[x%len(names)]}}, a...)
			} else {
				v = A{float64(x), v}
				a = append(ref.Alt{{Kind: ref.Idx, I: 1}}, a...)
			}
			w = append(ref.Alt{{Kind: ref.Wild}}, w...)
		}
		d := M{"": v, "k": longArray(n)}
		a = append(ref.Alt{{Kind: ref.Str, Name: ""}}, a...)
		c.Eval(1)
		run(d, []ref.Alt{a}, 5.0, nil)
		run(d, []ref.Alt{a[:len(a)-1]}, 5.0, nil)
		run(d, []ref.Alt{append(a[:len(a):len(a)], ref.Step{Kind: ref.Wild})}, 5.0)
		if n < 20 {
			run(d, []ref.Alt{append(ref.Alt{{Kind: ref.Str, Name: ""}}, w...)}, 5.0)
		}
		var up, down, part []ref.Alt
		for x := 0; x < n; x++ {
			up = append(up, ref.Alt{{Kind: ref.Str, Name: "k"}, {Kind: ref.Idx, I: x}})
			down = append(down, ref.Alt{{Kind: ref.Str, Name: "k"}, {Kind: ref.Idx, I: n - 1 - x}})
			part = append(part, ref.Alt{{Kind: ref.Str, Name: "k"}, {Kind: ref.Idx, I: x * 2}})
		}
		run(d, up, 5.0)
		run(d, down, 5.0, nil)
		run(d, part, 5.0)
	})
	// (e) start/end keys which are no side of a slice
	lone := json_map.AbsolutePathKey{KeyType: json_map.StartEnd}
	c.Parallel(len(ds), func(i int) {
		d := ds[i]
		for _, a := range single {
			for at := 0; at <= len(a); at++ {
				p := []json_map.AbsolutePathKey{}
				for x, s := range a {
					if x == at {
						p = append(p, lone)
					}
					p = append(p, handKey(s))
				}
				if at == len(a) {
					p = append(p, lone)
				}
				key := fmt.Sprintf("%s %v", ref.Canon(d), p)
				c.Eval(1)
				c.Case(func() string { return key }, func() *core.Fail {
					j := jom.NewFromMap(ref.Copy(d).(M))
					if ns, errs := j.GetAbsolutePaths(&json_map.AbsolutePaths{p}); len(errs) != 1 || len(ns) > 0 {
						return core.Failf(key, key, "reading %s, in which there is a start/end key outside a slice, gives %d values and the errors %v", key, len(ns), errs)
					}
					for _, v := range []V{5.0, nil} {
						// it is met when the keys before it lead to one place
						j := jom.NewFromMap(ref.Copy(d).(M))
						err := tryErr(func() error { return j.SetAbsolutePaths(&json_map.AbsolutePaths{p}, v) })
						if walks(a[:at], d) && (err == nil || canonOf(j) != ref.Canon(d)) {
							return core.Failf(key, key, "setting %s, in which there is a start/end key outside a slice, gives %v and %s", key, err, canonOf(j))
						}
					}
					return nil
				})
			}
		}
	})
	c.Sample(ref.AltsString([]ref.Alt{single[len(single)/2]}))
	c.Sample(ref.Canon(ds[len(ds)/2]))
}

// walks: the keys are properties of objects and indices of arrays which are there.
func walks(a ref.Alt, v V) bool {
	for _, s := range a {
		switch x := v.(type) {
		case M:
			e, ok := x[s.Name]
			if s.Kind != ref.Str || !ok {
				return false
			}
			v = e
		case A:
			if s.Kind != ref.Idx || s.I < 0 || s.I >= len(x) {
				return false
			}
			v = x[s.I]
		default:
			return false
		}
	}
	return true
}
