package main

import (
	"fmt"
	"strings"

	"github.com/andygello555/json-dom/jom"

	"verif/core"
	"verif/ref"
)

func init() {
	register("C04", "exploration", func(c *core.Ctx) {
		schedules(c, "C04", false)
		writeCheck(c, []V{99.0, "s", false, "", M{"x": A{98.0}, "a": nil}, A{97.0}, A{}, M{}}, false)
	})
	register("C05", "exploration", func(c *core.Ctx) {
		schedules(c, "C05", false)
		writeCheck(c, []V{nil}, true)
	})
}

// definite: keys and single indices only.
func definite(alts []ref.Alt) bool {
	if len(alts) != 1 {
		return false
	}
	for _, s := range alts[0] {
		if s.Kind != ref.Str && s.Kind != ref.Idx {
			return false
		}
	}
	return true
}

func checkWrite(d M, p path, v V, how int) (bool, *core.Fail) {
	want, touched, werr := ref.Set(p.alts, d, v)
	j := doc(d)
	given := ref.Copy(v)
	err := tryErr(func() error {
		switch how {
		case 1:
			if v == nil {
				j.MustDelete(p.text)
			} else {
				j.MustSet(p.text, given)
			}
			return nil
		}
		return j.JsonPathSetter(p.text, given)
	})
	key := fmt.Sprintf("%s %s = %s", ref.Canon(d), p.text, ref.Canon(v))
	replay := map[string]string{"document": ref.Canon(d), "path": p.text, "value": ref.Canon(v)}
	got := canonOf(j)
	if ref.Canon(given) != ref.Canon(v) {
		return true, core.Failf(key, replay, "setting %s changed the value given: %s", key, ref.Canon(given))
	}
	if j.Array {
		return true, core.Failf(key, replay, "setting %s made the root an array", key)
	}
	if (err != nil) != (werr != nil) {
		return true, core.Failf(key, replay, "setting %s: error %v, expected error %v (document %s)", key, err, werr, got)
	}
	if err != nil {
		if definite(p.alts) && got != ref.Canon(d) {
			return true, core.Failf(key, replay, "setting %s failed with %v but changed the document to %s", key, err, got)
		}
		return false, nil
	}
	if got != ref.Canon(want) {
		return true, core.Failf(key, replay, "setting %s gives %s instead of %s", key, got, ref.Canon(want))
	}
	return touched > 0, nil
}

// canonCheap stands for the size of a value.
func canonCheap(v V) string {
	switch x := v.(type) {
	case string:
		return x
	case A:
		return strings.Repeat("x", len(x)*8)
	case M:
		return strings.Repeat("x", len(x)*16)
	}
	return ""
}

func writeCheck(c *core.Ctx, vals []V, del bool) {
	c.Rule("all object documents of at most document_nodes nodes over the keys a and b (also with a null at each position) times all paths of at most path_selectors selectors times the listed values, larger documents times shorter paths, paths with filters, long arrays times all indices/pairs/slices, objects with awkward keys, deep chains; the whole document is compared with a plain JSON model; non-trivial: at least one location is written or removed")
	c.Extra("values", vals)
	readSpace(c, func(rc readCase) {
		for vi, v := range vals {
			// composite values behave alike: beyond the first value each is used on a share of the paths
			if vi > 0 && !c.Thorough && (len(rc.p.text)+len(rc.d))%len(vals) != vi {
				continue
			}
			c.Eval(1)
			v := v
			c.Case(func() string { return ref.Canon(rc.d) + " " + rc.p.text + " = " + ref.Canon(v) }, func() *core.Fail {
				some, fail := checkWrite(rc.d, rc.p, v, vi%2)
				if some {
					c.Nontrivial(1)
				}
				return fail
			})
		}
	})
	// values and other names which look like something else, and values as long as buffers
	var odd []V
	for _, t := range lookalikes() {
		odd = append(odd, t, M{t: t}, A{t, A{t}})
	}
	for _, n := range powers(3, 1<<12+1) {
		odd = append(odd, strings.Repeat("é", n))
		if n < 140 {
			odd = append(odd, longArray(n), wideObject(n))
		}
	}
	for _, x := range []float64{-1, 0.5, -0.25, 1e21, 1e-9, 1 << 53, 1<<63 - 1, -1 << 63, 1.7976931348623157e308, 5e-324} {
		odd = append(odd, x, A{x})
	}
	oddPaths := allPaths([]tok{tStr("a"), tStr("new"), tIdx(0), tIdx(1), tIdx(1, 0), tWild, tFirst, tRec("a"), tSlice(ip(-1), nil), tSlice(ip(0), ip(1))}, 2, 0)
	c.Extra("odd_values", len(odd))
	c.Parallel(len(odd), func(i int) {
		v := odd[i]
		t, ok := v.(string)
		if !ok || len(t) > 100 {
			t = "t"
		}
		for _, d := range []M{{"a": A{v, t, M{"a": v}}, t + "k": v}, {"a": M{"a": t, t + "k": v}, "b": A{v, v}}} {
			for x, p := range oddPaths {
				if len(canonCheap(v)) > 200 && (x+i)%11 > 0 {
					continue
				}
				w := v
				if del {
					w = nil
				}
				d, p, x := d, p, x
				c.Eval(1)
				c.Case(func() string { return head(ref.Canon(d), 200) + " " + p.text + " = " + head(ref.Canon(w), 200) }, func() *core.Fail {
					some, fail := checkWrite(d, p, w, x%2)
					if some {
						c.Nontrivial(1)
					}
					return fail
				})
			}
		}
	})
	// an array at the root is reached under the key "array", and stays one
	for _, text := range []string{`[1,2,3]`, `[[1],[2]]`, `[{"a":1}]`, `[]`} {
		for _, pt := range allPaths([]tok{tIdx(0), tIdx(1), tWild, tStr("a"), tSlice(ip(1), nil), tRec("a")}, 2, 0) {
			text, pt := text, pt
			ptext := "$.array" + pt.text[1:]
			alts := make([]ref.Alt, len(pt.alts))
			for i, a := range pt.alts {
				alts[i] = append(ref.Alt{{Kind: ref.Str, Name: "array"}}, a...)
			}
			for _, v := range vals {
				v := v
				c.Eval(1)
				c.Case(func() string { return text + " " + ptext }, func() *core.Fail {
					j := jom.New()
					if err := j.Unmarshal([]byte(text)); err != nil {
						return core.Failf("root "+text, text, "cannot unmarshal %s: %v", text, err)
					}
					want, _, werr := ref.Set(alts, M{"array": ref.Parse(text)}, v)
					err := j.JsonPathSetter(ptext, ref.Copy(v))
					if (err != nil) != (werr != nil) {
						return core.Failf("root "+text+ptext, text+" "+ptext, "setting %s in %s: error %v, expected %v", ptext, text, err, werr)
					}
					if err != nil {
						return nil
					}
					out, err := j.Marshal()
					if err != nil || !j.IsArray() || ref.Canon(ref.Parse(string(out))) != ref.Canon(want["array"]) {
						return core.Failf("root "+text+ptext, text+" "+ptext, "setting %s in %s gives %s %v instead of %s", ptext, text, out, err, ref.Canon(want["array"]))
					}
					c.Nontrivial(1)
					return nil
				})
			}
		}
	}
	d := ref.ParseM(`{"a":[1,2,3],"b":{"a":4}}`)
	for _, pt := range []string{"$.a[1:]", "$..a", "$.b.zz"} {
		j := doc(d)
		err := j.JsonPathSetter(pt, vals[0])
		c.Sample(map[string]string{"document": ref.Canon(d), "path": pt, "value": ref.Canon(vals[0]), "result": canonOf(j), "error": fmt.Sprint(err)})
	}
}
