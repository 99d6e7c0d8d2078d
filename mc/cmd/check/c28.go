package main

import (
	"fmt"
	"strings"

	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() { register("C28", "model_checking", c28) }

func keyOf(s ref.Step) json_map.AbsolutePathKey {
	se := func(p *int) json_map.AbsolutePathKey {
		if p == nil {
			return json_map.AbsolutePathKey{KeyType: json_map.StartEnd}
		}
		return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: *p}
	}
	switch s.Kind {
	case ref.Str:
		return json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: s.Name}
	case ref.Idx:
		return json_map.AbsolutePathKey{KeyType: json_map.IndexKey, Value: s.I}
	case ref.Wild:
		return json_map.AbsolutePathKey{KeyType: json_map.Wildcard}
	case ref.Filter:
		return json_map.AbsolutePathKey{KeyType: json_map.Filter, Value: s.Name}
	case ref.First:
		return json_map.AbsolutePathKey{KeyType: json_map.First}
	case ref.Slice:
		return json_map.AbsolutePathKey{KeyType: json_map.Slice, Value: []json_map.AbsolutePathKey{se(s.Start), se(s.End)}}
	}
	return json_map.AbsolutePathKey{KeyType: json_map.RecursiveLookup, Value: s.Name}
}

// c28: transitions are extensions by a list of keys; the state is the list of alternatives.
func c28(c *core.Ctx) {
	c.Rule("all sequences of at most depth extensions, each by one of the listed key lists, with and without checking against a document; after every extension all alternatives are compared with the model's cross product; non-trivial: at least two alternatives")
	docm := ref.ParseM(`{"a":[{"b":1},[5,[6]]],"b":{"a":[1,2,3],"c":null}}`)
	S := func(n string) ref.Step { return ref.Step{Kind: ref.Str, Name: n} }
	I := func(i int) ref.Step { return ref.Step{Kind: ref.Idx, I: i} }
	menu := [][]ref.Step{{}, {S("a")}, {S("b")}, {I(0)}, {I(1)}, {S("a"), S("b")}, {I(0), I(1)}, {I(1), I(0)}, {I(0), I(1), I(2)}, {{Kind: ref.Wild}},
		{{Kind: ref.First}, S("b")}, {{Kind: ref.Rec, Name: "a"}}, {{Kind: ref.Slice, Start: ip(0), End: ip(1)}}, {S("a"), S("a")}, {S("a"), I(0), {Kind: ref.Wild}, S("zz")}}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	c.Extra("depth", depth)
	var names []string
	for _, m := range menu {
		names = append(names, ref.Alt(m).String())
	}
	c.Extra("extensions", names)
	k := len(menu)
	run := func(w []int, check bool) *core.Fail {
		j := doc(docm)
		p := make(json_map.AbsolutePaths, 0)
		var model []ref.Alt
		key := fmt.Sprint("extend ", check, " ", w)
		var olds []json_map.AbsolutePaths
		var oldWant []string
		for n, x := range w {
			add := menu[x]
			var ks []json_map.AbsolutePathKey
			for _, s := range add {
				ks = append(ks, keyOf(s))
			}
			// every alternative followed by every key
			if len(add) > 0 {
				var nm []ref.Alt
				if len(model) == 0 {
					for _, s := range add {
						nm = append(nm, ref.Alt{s})
					}
				}
				for _, a := range model {
					for _, s := range add {
						nm = append(nm, append(append(ref.Alt{}, a...), s))
					}
				}
				model = nm
			}
			// alternatives copied out before the extension must survive it
			keep := make(json_map.AbsolutePaths, len(p))
			copy(keep, p)
			al, _ := altsOf(keep)
			olds, oldWant = append(olds, keep), append(oldWant, ref.AltsString(al))

			errs := p.AddToAll(j, check, ks...)
			c.Transitions(1)
			c.States(1)
			if len(model) > 1 {
				c.Nontrivial(1)
			}
			al, ok := altsOf(p)
			if !ok || ref.AltsString(al) != ref.AltsString(model) {
				return core.Failf(key, w, "after extension %d of %v: %s instead of %s", n, w, ref.AltsString(al), ref.AltsString(model))
			}
			wantErr := false
			if check && len(add) > 0 {
				_, err := ref.Get(model, docm)
				wantErr = err != nil
			}
			if (len(errs) > 0) != wantErr || (errs != nil) != wantErr {
				return core.Failf(key, w, "extension %d of %v (checking %v): errors %v, expected an error: %v (%s)", n, w, check, errs, wantErr, ref.AltsString(model))
			}
			if len(model) > 400 {
				break
			}
		}
		for i, o := range olds {
			al, _ := altsOf(o)
			if ref.AltsString(al) != oldWant[i] {
				return core.Failf(key, w, "the alternatives before extension %d of %v were changed from %s to %s", i, w, oldWant[i], ref.AltsString(al))
			}
		}
		if check && canonOf(j) != ref.Canon(docm) {
			return core.Failf(key, w, "extending %v changed the document", w)
		}
		return nil
	}
	for l := 1; l <= depth; l++ {
		l := l
		c.Parallel(k, func(p int) {
			words(k, l, []int{p}, func(w []int) bool {
				for _, check := range []bool{false, true} {
					if check && l > depth-1 {
						continue
					}
					w := append([]int{}, w...)
					c.Eval(1)
					c.Traces(1)
					c.Case(func() string { return fmt.Sprint("extend ", check, " ", w) }, func() *core.Fail { return run(w, check) })
				}
				return !c.Expired()
			})
		})
	}
	// long chains of single extensions grow the capacity of the paths
	for _, first := range [][]int{{5}, {6}, {8}, {1}} {
		for n := 1; n <= 40; n++ {
			for branch := 0; branch <= n; branch += 3 {
				w := append([]int{}, first...)
				for i := 0; i < n; i++ {
					if i == branch {
						w = append(w, 6)
					} else {
						w = append(w, 1+i%4)
					}
				}
				c.Eval(1)
				c.Traces(1)
				c.Case(func() string { return fmt.Sprint("extend ", w) }, func() *core.Fail { return run(w, false) })
			}
		}
	}
	// extensions by lists of every length, and of every length after that, each key different from the others
	size := 40
	if c.Thorough {
		size = 120
	}
	c.Extra("lengths of lists", size)
	big := map[int]int{}
	for l := 1; l <= size; l++ {
		var m, o []ref.Step
		for i := 0; i < l; i++ {
			m = append(m, S(fmt.Sprint("k", i)))
			switch i % 7 {
			case 0:
				o = append(o, I(i))
			case 1:
				o = append(o, S(strings.Repeat("s", i)))
			case 2:
				o = append(o, ref.Step{Kind: ref.Slice, Start: ip(i), End: ip(2 * i)})
			case 3:
				o = append(o, ref.Step{Kind: ref.Rec, Name: fmt.Sprint("r", i)})
			case 4:
				o = append(o, ref.Step{Kind: ref.Slice, Start: ip(-i)})
			case 5:
				o = append(o, ref.Step{Kind: ref.Wild})
			case 6:
				o = append(o, ref.Step{Kind: ref.First})
			}
		}
		big[l] = len(menu)
		menu = append(menu, m, o)
	}
	at := func(w []int, check bool) {
		c.Eval(1)
		c.Traces(1)
		c.Case(func() string { return fmt.Sprint("extend ", check, " ", w) }, func() *core.Fail { return run(w, check) })
	}
	c.Parallel(size, func(i int) {
		l := size - i
		for x := 0; x < 2; x++ {
			for _, check := range []bool{false, true} {
				at([]int{big[l] + x}, check)
				for m := 1; m <= size && l*m <= 1000 && !c.Expired(); m++ {
					at([]int{big[l] + x, big[m] + 1 - x}, check && m%5 == 1)
					if l*m <= 100 {
						at([]int{1, big[l] + x, 2, big[m] + x, 6}, false)
					}
				}
			}
		}
	})
	c.Sample(strings.Join(names[5:8], " then "))
}
