package main

import (
	"fmt"

	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() {
	register("C02", "exploration", func(c *core.Ctx) { readCheck(c, checkRead) })
	register("C07", "exploration", func(c *core.Ctx) { readCheck(c, checkNodePaths) })
}

type readCase struct {
	d M
	p path
}

// readSpace enumerates documents times paths.
func readSpace(c *core.Ctx, f func(rc readCase)) {
	// (4) long arrays with every index, list of two indices and slice
	max := 12
	if c.Thorough {
		max = 34
	}
	c.Extra("array_length", max)
	c.Parallel(max+1, func(n int) {
		arr := A{}
		for i := 0; i < n; i++ {
			if i%3 == 1 {
				arr = append(arr, M{"a": float64(i)})
			} else {
				arr = append(arr, float64(i))
			}
		}
		d := M{"x": arr}
		var ps []tok
		for i := 0; i <= n+1; i++ {
			ps = append(ps, tIdx(i), tSlice(ip(i), nil), tSlice(nil, ip(i)))
			if i > 0 {
				ps = append(ps, tSlice(ip(-i), nil), tSlice(nil, ip(-i)))
			}
			for j := 0; j <= n+1; j++ {
				ps = append(ps, tIdx(i, j), tSlice(ip(i), ip(j)))
			}
		}
		for _, t := range ps {
			if p, ok := compose([]tok{tStr("x"), t}); ok {
				f(readCase{d, p})
			}
			if p, ok := compose([]tok{tStr("x"), t, tStr("a")}); ok {
				f(readCase{d, p})
			}
			if p, ok := compose([]tok{tStr("x"), t, tIdx(0)}); ok {
				f(readCase{d, p})
			}
		}
	})
	// (5) objects with many keys of awkward order: wildcard, first descent, recursive lookup
	keys := []string{"a", "B", "_", "a-b", "a1", "a10", "a2", "A", "é", "", " ", "0", "10", "9", "aa", "b", "array", "#", "$", "@", "z.z", "[0]"}
	mixed := func(i int) V {
		switch i % 4 {
		case 0:
			return float64(i)
		case 1:
			return M{"k": float64(i), "a": A{float64(i)}}
		case 2:
			return A{float64(i), M{"a": float64(i)}}
		}
		return fmt.Sprint("s", i)
	}
	c.Parallel(len(keys), func(rot int) {
		m := M{}
		for i := range keys {
			m[keys[(i+rot)%len(keys)]] = mixed(i)
			sub := ref.Copy(m).(M)
			ts := []tok{tWild, tWildDot, tFirst, tRec("a"), tRec("k"), tRec("aa"), tRec("a1"), tStr("a-b"), tStr("a1"), tStr("_"), tStr("array")}
			for _, t := range ts {
				for _, d := range []M{sub, {"x": sub, "n": 1.0}} {
					pre := []tok{}
					if len(d) == 2 && d["n"] == 1.0 {
						pre = append(pre, tStr("x"))
					}
					for _, suf := range [][]tok{{}, {tStr("k")}, {tIdx(0)}, {tFirst}, {tRec("a")}, {tWild}, {tIdx(3, 1)}} {
						if p, ok := compose(append(append(append([]tok{}, pre...), t), suf...)); ok {
							f(readCase{d, p})
						}
					}
				}
			}
		}
	})
	// (6) chains: depth of nesting and length of path
	depth := 24
	c.Parallel(depth, func(n int) {
		for _, kind := range []int{0, 1, 2} {
			var v V = 7.0
			var sel []tok
			for i := n; i > 0; i-- {
				if kind == 0 || kind == 2 && i%2 == 0 {
					v = M{"a": v, "b": float64(i)}
				} else {
					v = A{v, float64(i)}
				}
			}
			d := M{"a": v}
			sel = append(sel, tStr("a"))
			for i := 1; i <= n; i++ {
				if kind == 0 || kind == 2 && i%2 == 0 {
					sel = append(sel, tStr("a"))
				} else {
					sel = append(sel, tIdx(0))
				}
			}
			for cut := 1; cut <= len(sel); cut++ {
				for _, t := range []tok{{}, tWild, tRec("a"), tRec("b"), tFirst, tStr("b"), tIdx(1), tIdx(0, 1), tSlice(ip(-1), nil)} {
					s := append([]tok{}, sel[:cut]...)
					if t.steps != nil {
						s = append(s, t)
					}
					if p, ok := compose(s); ok {
						f(readCase{d, p})
					}
				}
			}
			if p, ok := compose([]tok{tFirst, tFirst, tFirst, tStr("a")}); ok {
				f(readCase{d, p})
			}
		}
	})
	// (7) scalars of every kind are returned as they are
	for _, s := range []V{nil, true, false, 0.0, -1.5, 1e300, "", "x", "é\n\"'", "$.a", "#//!", M{}, A{}, A{A{}}, A{nil}, M{"": nil}} {
		for _, t := range []tok{tStr("v"), tWild, tRec("v"), tFirst} {
			for _, d := range []M{{"v": s}, {"x": M{"v": s}}, {"x": A{s, s}}, {"x": A{M{"v": s}}}} {
				for _, pre := range [][]tok{{}, {tStr("x")}, {tStr("x"), tIdx(0)}} {
					if p, ok := compose(append(append([]tok{}, pre...), t)); ok {
						f(readCase{d, p})
					}
				}
			}
		}
	}
	scaled(c, f)
	// (1) every small document with every short path
	n, l := 4, 3
	if c.Thorough {
		n, l = 5, 3
	}
	ds := shapes(n, 3, "a", "b")
	nulls := withScalar(shapes(n-1, 3, "a", "b"), nil)
	small := shapes(4, 3, "a", "b")
	ps3 := allPaths(baseToks(), l, 0)
	c.Extra("documents", len(ds)+len(nulls))
	c.Extra("document_nodes", n)
	c.Extra("paths", len(ps3))
	c.Extra("path_selectors", l)
	all := append(append([]M{}, ds...), nulls...)
	c.Parallel(len(all), func(i int) {
		for _, p := range ps3 {
			if c.Expired() {
				return
			}
			f(readCase{all[i], p})
		}
	})
	// (2) deeper documents, shorter paths
	deep := shapes(n+2, 4, "a", "b")
	ps2 := allPaths(baseToks(), 2, 0)
	c.Extra("larger_documents", len(deep))
	c.Extra("larger_document_nodes", n+2)
	c.Parallel(len(deep), func(i int) {
		for _, p := range ps2 {
			if c.Expired() {
				return
			}
			f(readCase{deep[i], p})
		}
	})
	// (3) paths with one filter
	fl := 2
	if c.Thorough {
		fl = 3
	}
	var pf []path
	for _, p := range allPaths(append(baseToks(), filterToks()...), fl, 1) {
		if p.filter == 1 {
			pf = append(pf, p)
		}
	}
	fdocs := append(append([]M{}, small...), withScalar(shapes(4, 3, "a", "b"), nil)...)
	if c.Thorough {
		fdocs = fdocs[:len(fdocs)/2]
	}
	c.Extra("filter_paths", len(pf))
	c.Extra("filter_documents", len(fdocs))
	c.Parallel(len(fdocs), func(i int) {
		for _, p := range pf {
			if c.Expired() {
				return
			}
			f(readCase{fdocs[i], p})
		}
	})
}

func readCheck(c *core.Ctx, f func(rc readCase) (bool, *core.Fail)) {
	c.Rule("all object documents of at most document_nodes nodes over the keys a and b (scalars numbered; also with a null at each position) times all paths of at most path_selectors selectors, larger documents times shorter paths, paths with a filter, long arrays times all indices/pairs/slices, objects with awkward keys, deep chains; non-trivial: the read returns at least one value")
	readSpace(c, func(rc readCase) {
		c.Eval(1)
		c.Case(func() string { return ref.Canon(rc.d) + " " + rc.p.text }, func() *core.Fail {
			some, fail := f(rc)
			if some {
				c.Nontrivial(1)
			}
			return fail
		})
	})
	for _, s := range [][]string{{`{"a":[1,{"a":2}]}`, "$..a"}, {`{"a":[1,2],"b":{"a":3}}`, "$.a[1,0]"}} {
		d := ref.ParseM(s[0])
		ns, err := doc(d).JsonPathSelector(s[1])
		var vs []V
		for _, n := range ns {
			vs = append(vs, n.Value)
		}
		c.Sample(map[string]string{"document": s[0], "path": s[1], "values": canonList(vs), "error": fmt.Sprint(err)})
	}
}

func values(ns []*json_map.JsonPathNode) []V {
	vs := make([]V, 0, len(ns))
	for _, n := range ns {
		vs = append(vs, n.Value)
	}
	return vs
}

func checkRead(rc readCase) (bool, *core.Fail) {
	want, werr := ref.Get(rc.p.alts, rc.d)
	j := doc(rc.d)
	ns, err := j.JsonPathSelector(rc.p.text)
	key := ref.Canon(rc.d) + " " + rc.p.text
	replay := map[string]string{"document": ref.Canon(rc.d), "path": rc.p.text}
	if (err != nil) != (werr != nil) {
		return false, core.Failf(key, replay, "reading %s from %s: error %v, expected error %v", rc.p.text, ref.Canon(rc.d), err, werr)
	}
	if err != nil {
		if len(ns) != 0 {
			return false, core.Failf(key, replay, "reading %s from %s: values and an error", rc.p.text, ref.Canon(rc.d))
		}
		return false, nil
	}
	var wv []V
	for _, n := range want {
		wv = append(wv, n.V)
	}
	if g, w := canonList(values(ns)), canonList(wv); g != w {
		return true, core.Failf(key, replay, "reading %s from %s gives %s instead of %s", rc.p.text, ref.Canon(rc.d), g, w)
	}
	if g := canonOf(j); g != ref.Canon(rc.d) {
		return true, core.Failf(key, replay, "reading %s changed the document %s to %s", rc.p.text, ref.Canon(rc.d), g)
	}
	return len(wv) > 0, nil
}

func checkNodePaths(rc readCase) (bool, *core.Fail) {
	j := doc(rc.d)
	ns, err := j.JsonPathSelector(rc.p.text)
	if err != nil {
		return false, nil
	}
	// of very many nodes (each of which is looked for from the root) the ones at the ends and around the powers of two and ten
	which := map[int]bool{}
	if len(ns) > 300 {
		for _, p := range powers(0, len(ns)) {
			which[p], which[len(ns)-1-p] = true, true
		}
	}
	for i, n := range ns {
		if len(which) > 0 && !which[i] {
			continue
		}
		again, errs := j.GetAbsolutePaths(&json_map.AbsolutePaths{n.Absolute})
		want := []V{n.Value}
		if a, ok := n.Value.(A); ok {
			want = a
		}
		if errs != nil || canonList(values(again)) != canonList(want) {
			key := fmt.Sprintf("%s %s node %d", ref.Canon(rc.d), rc.p.text, i)
			return true, core.Failf(key, map[string]interface{}{"document": ref.Canon(rc.d), "path": rc.p.text, "node": i, "absolute": fmt.Sprint(n.Absolute)},
				"node %d of %s in %s is %s, but its path %v leads to %s %v", i, rc.p.text, ref.Canon(rc.d), ref.Canon(n.Value), n.Absolute, canonList(values(again)), errs)
		}
	}
	return len(ns) > 0, nil
}
