package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() { register("C33", "exploration", c33) }

// described is what a node set should say about a key.
func described(k json_map.AbsolutePathKey) V {
	var key V = k.Value
	switch x := k.Value.(type) {
	case int:
		key = float64(x)
	case []json_map.AbsolutePathKey:
		l := A{}
		for _, e := range x {
			l = append(l, described(e))
		}
		key = l
	}
	return M{"typeId": float64(k.KeyType), "name": json_map.AbsolutePathKeyTypeNames[k.KeyType], "key": key}
}

// normal brings what a node set says into the form of described: a missing key is null, the name may be typeName (as the code
// says) or typeStr (as the documentation says).
func normal(v V) V {
	switch x := v.(type) {
	case A:
		l := A{}
		for _, e := range x {
			l = append(l, normal(e))
		}
		return l
	case M:
		m := M{"key": nil}
		for k, e := range x {
			if k == "typeName" || k == "typeStr" {
				k = "name"
			}
			m[k] = normal(e)
		}
		return m
	}
	return v
}

func c33(c *core.Ctx) {
	c.Rule("paths of at most n selectors, filters, lists, slices, properties and recursive lookups of odd names, and selectors, lists, names and numbers of every size up to a bound: scripts make node sets of a batch of them and describe them afterwards (_absolutePaths); the descriptions before and after the node sets are read, set and made again, and before and after the document or another description is changed; compared with the selectors the path was written from; non-trivial: more than one alternative or selector")
	toks := []tok{tStr("a"), tStr("b"), tIdx(0), tIdx(1, 0), tIdx(2, 2, 3), tWild, tFirst, tRec("a"), tSlice(ip(0), ip(1)), tSlice(ip(-1), nil), tSlice(nil, ip(-2)), fTrue, tFilter(`@.a == "x)]" || 'é\\' < $.b`, nil)}
	n := 4
	if c.Thorough {
		n = 5
	}
	paths := allPaths(toks, n, 2)
	c.Extra("paths of few selectors", len(paths))
	add := func(ts ...tok) {
		if p, ok := compose(ts); ok {
			paths = append(paths, p)
		}
	}
	size := 70
	if c.Thorough {
		size = 300
	}
	for n := 1; n <= size; n++ {
		var up, many []int
		var deep, mixed []tok
		for i := 0; i < n; i++ {
			up, many = append(up, i*i), append(many, n-i/2)
			deep, mixed = append(deep, tStr(fmt.Sprint("k", i))), append(mixed, toks[i%len(toks)])
		}
		add(tIdx(up...))
		if n <= 24 {
			add(tStr("a"), tIdx(many...), tIdx(up...)) // n * n alternatives
		}
		add(deep...)
		if n <= 14 {
			add(mixed...)
		}
		add(tStr(strings.Repeat("n", n)), tRec(strings.Repeat("m", n)))
		add(tSlice(ip(n), ip(n*n)), tSlice(ip(-n), nil), tSlice(nil, ip(-n*n)))
		add(tFilter(strings.Repeat("@.a + ", n)+"'"+strings.Repeat("é", n)+"'", nil))
	}
	for _, p := range powers(1, 9007199254740993) {
		add(tIdx(p), tIdx(p, 0))
		add(tSlice(ip(p), nil), tSlice(ip(p), ip(p+1)), tSlice(nil, ip(-p)))
	}
	for _, l := range lookalikes() {
		f := ref.Canon(l)
		add(tFilter("@ == "+f, nil))
		add(tFilter(f, nil), tStr("a"))
	}
	// what is written in other ways, as the parser understands it (C01)
	var odd []string
	for _, name := range []string{"é", "aé", "__proto__", "constructor", "toString", "hasOwnProperty", "typeId", "key", "length", "0a", "a0", "_", "a-b", "a b", "\u2028", "名", "a%s", "%d", "true", "null", "e\u0301"} {
		odd = append(odd, "$."+name, "$.."+name, "$['"+name+"']", "$."+name+"[0]."+name, "$[?(@."+name+")]", "$[?(@['"+name+"'] == \""+name+"\")]", "$[?(/"+name+"]/.test(@))]")
	}
	odd = append(odd, "$[ 1 , 2 ]", "$[01]", "$[1,01]", "$[-0:]", "$[:0]", "$[0:0]", "$[+1]", "$.*", "$..*", "$[\"a\"]", "$", "$...", "$....a", "$.a.b..c...d")
	for _, o := range odd {
		abs, err := json_map.ParseJsonPath(o)
		if err != nil {
			continue
		}
		p := path{text: o}
		for _, alt := range abs {
			a := ref.Alt{}
			for _, k := range alt {
				s, ok := stepOf(k)
				if !ok {
					panic(o)
				}
				a = append(a, s)
			}
			p.alts = append(p.alts, a)
		}
		paths = append(paths, p)
	}
	c.Extra("paths", len(paths))
	want := func(p path) V {
		l := A{}
		for _, a := range p.alts {
			x := A{}
			for _, s := range a {
				x = append(x, described(keyOf(s)))
			}
			l = append(l, x)
		}
		return l
	}
	docs := []M{{"a": A{A{M{"a": 1.0}, 2.0}, M{"a": A{3.0}}}, "b": M{"a": nil}}, {}}
	const batch = 12
	c.Parallel((len(paths)+batch-1)/batch, func(i int) {
		ps := paths[i*batch:]
		if len(ps) > batch {
			ps = ps[:batch]
		}
		var texts []V
		for _, p := range ps {
			texts = append(texts, p.text)
			if len(p.alts) > 1 || len(p.alts) > 0 && len(p.alts[0]) > 1 {
				c.Nontrivial(1)
			}
		}
		key := "node sets of " + ref.Canon(A(texts))
		c.Eval(int64(len(ps)))
		d := docs[i%2]
		c.Case(func() string { return key }, func() *core.Fail {
			out, err := runJS(d, fmt.Sprintf(`var ps = %s, sets = [], out = [], again = [];
var describe = function (n) { return JSON.stringify(n._absolutePaths) };
for (var i = 0; i < ps.length; i++) sets.push(json.jsonPathSelector(ps[i]));
out.push(sets.map(describe));
for (var i = 0; i < ps.length; i++) {
  try { sets[i].getValues() } catch (e) {}
  if (i %% 3 == 0) try { sets[i].setValues(i) } catch (e) {}
  again.push(json.jsonPathSelector(ps[i]));
}
json.trail = {other: 1};
out.push(sets.map(describe));
for (var i = 0; i < ps.length; i++) {
  var l = again[i]._absolutePaths;
  if (l.length > 0 && l[0].length > 0) { l[0][0].typeId = 'changed'; l[0][0].key = 'changed'; l.length = 1 }
}
out.push(sets.map(describe));
out.push(ps.map(function (p) { return describe(json.jsonPathSelector(p)) }));
json.trail = {out: JSON.stringify(out)}`, ref.Canon(A(texts))))
			if err != nil {
				return core.Failf(key, key, "%s: %v", key, err)
			}
			for r, round := range out.(A) {
				when := []string{"at first", "after they were used", "after other descriptions were changed", "when made again"}[r]
				for x, g := range round.(A) {
					var v V
					s, _ := g.(string)
					if err := json.Unmarshal([]byte(s), &v); err != nil {
						return core.Failf(ps[x].text, ps[x].text, "the description of %s is %v %s", ps[x].text, g, when)
					}
					if got, w := ref.Canon(normal(v)), ref.Canon(want(ps[x])); got != w {
						return core.Failf(ps[x].text, ps[x].text, "%s is described as %s %s, expected %s", ps[x].text, head(s, 1500), when, head(w, 1500))
					}
				}
			}
			return nil
		})
	})
	c.Sample(paths[len(paths)/2].text)
	c.Sample(paths[len(paths)-1].text)
}
