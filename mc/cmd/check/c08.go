package main

import (
	"fmt"
	"sort"

	"verif/core"
	"verif/ref"
)

func init() {
	register("C08", "exploration", c08)
	register("C09", "exploration", c09)
}

// refPush: the array holds v at exactly the given positions and the elements of a, in order, elsewhere.
func refPush(a A, v V, idx []int) A {
	at := map[int]bool{}
	max := -1
	for _, i := range idx {
		at[i] = true
		if i > max {
			max = i
		}
	}
	if len(idx) == 0 {
		at[len(a)] = true
		max = len(a)
	}
	out := A{}
	next := 0
	for p := 0; p <= max || next < len(a); p++ {
		switch {
		case at[p]:
			out = append(out, ref.Copy(v))
		case next < len(a):
			out = append(out, a[next])
			next++
		default:
			out = append(out, nil)
		}
	}
	return out
}

func refPop(a A, idx []int) (popped, rest A) {
	at := map[int]bool{}
	for _, i := range idx {
		at[i] = true
	}
	if len(idx) == 0 {
		at[0] = true
	}
	popped, rest = A{}, A{}
	for i, e := range a {
		if at[i] {
			popped = append(popped, e)
		} else {
			rest = append(rest, e)
		}
	}
	return
}

// elements of the arrays pushed to and popped from: all different, of every kind
func elems(n int) A {
	a := A{}
	for i := 0; i < n; i++ {
		switch i % 6 {
		case 0:
			a = append(a, float64(i))
		case 1:
			a = append(a, A{float64(i), A{}})
		case 2:
			a = append(a, M{"x": float64(i)})
		case 3:
			a = append(a, nil)
		case 4:
			a = append(a, fmt.Sprint("s", i))
		case 5:
			a = append(a, A{})
		}
	}
	return a
}

// rotations of the elements, so that arrays of one element hold every kind of element
func arrays(max int) []A {
	var out []A
	all := elems(12)
	for n := 0; n <= max; n++ {
		for r := 0; r < 6; r++ {
			if n == 0 && r > 0 {
				continue
			}
			a := A{}
			for i := 0; i < n; i++ {
				a = append(a, all[(i+r)%len(all)])
			}
			out = append(out, a)
		}
	}
	return out
}

type place struct {
	path string
	wrap func(a A) M
}

// places at which the array is kept; alias: the array is not what the path reads because reading expands a single array
func places() []place {
	return []place{
		{"$.x", func(a A) M { return M{"x": a, "y": A{1.0}, "z": nil} }},
		{"$.m.x", func(a A) M { return M{"m": M{"x": a, "y": 1.0}, "x": A{2.0}} }},
		{"$.l[1]", func(a A) M { return M{"l": A{A{1.0}, a, A{2.0}}} }},
		{"$.l[1].x", func(a A) M { return M{"l": A{M{"x": A{0.0}}, M{"x": a}}} }},
		{"$...x", func(a A) M { return M{"m": M{"x": a}, "n": M{"x": A{1.0}}} }},
	}
}

func idxLists(lo, hi, n int) [][]int {
	var out [][]int
	for l := 0; l <= n; l++ {
		words(hi-lo+1, l, nil, func(w []int) bool {
			x := make([]int, l)
			for i := range w {
				x[i] = w[i] + lo
			}
			out = append(out, x)
			return true
		})
	}
	return out
}

func distinct(idx []int) int {
	m := map[int]bool{}
	for _, i := range idx {
		m[i] = true
	}
	return len(m)
}

func c08(c *core.Ctx) {
	c.Rule("all arrays of the listed lengths (elements of every kind, rotated) at five places times all lists of at most max_indices indices from 0 to max_index times values; non-trivial: at least two different positions, or a position beyond the end")
	maxLen, hi, n := 6, 7, 4
	if c.Thorough {
		maxLen, hi, n = 7, 9, 5
	}
	c.Extra("max_array_length", maxLen)
	c.Extra("max_index", hi)
	c.Extra("max_indices", n)
	as := arrays(maxLen)
	lists := idxLists(0, hi, n)
	vals := []V{99.0, A{98.0}, M{"v": A{}}, "", false, A{}}
	one := func(a A, pl place, v V, idx []int) {
		c.Eval(1)
		if distinct(idx) > 1 || len(idx) > 0 && max(idx) > len(a) {
			c.Nontrivial(1)
		}
		key := fmt.Sprintf("%s %s push %s at %v", ref.Canon(pl.wrap(a)), pl.path, ref.Canon(v), idx)
		c.Case(func() string { return key }, func() *core.Fail {
			j := doc(pl.wrap(a))
			given := append([]int{}, idx...)
			p := try(func() { j.MustPush(pl.path, ref.Copy(v), given...) })
			want := ref.Canon(pl.wrap(refPush(a, v, idx)))
			if p != nil || canonOf(j) != want {
				return core.Failf(key, key, "%s gives %s (panic: %v) instead of %s", key, canonOf(j), p, want)
			}
			if fmt.Sprint(given) != fmt.Sprint(idx) {
				return core.Failf(key, key, "%s changed the list of indices it was given to %v", key, given)
			}
			return nil
		})
	}
	pls := places()
	c.Parallel(len(as)*len(pls), func(i int) {
		a, pl := as[i/len(pls)], pls[i%len(pls)]
		for li, idx := range lists {
			if c.Expired() {
				return
			}
			one(a, pl, vals[0], idx)
			one(a, pl, vals[1+li%(len(vals)-1)], idx)
		}
	})
	// long arrays and far positions
	for n := 1; n <= 72; n++ {
		a := elems(n)
		for _, k := range []int{3, 7, 12, n / 2, n - 1, n, n + 1} {
			if k < 1 || n > 40 && k > 12 {
				continue
			}
			for _, idx := range append(indexLists(k, n), indexLists(k, n+k+2)...) {
				one(a, pls[n%len(pls)], 99.0, idx)
			}
		}
		for i := 0; i <= n+2; i++ {
			one(a, pls[i%len(pls)], 99.0, []int{i})
		}
	}
	for _, n := range []int{8, 15, 16, 17, 31, 32, 33, 64, 100} {
		a := elems(n)
		for _, idx := range [][]int{nil, {0}, {n}, {n - 1}, {n + 1}, {n + 20}, {0, n + 1}, {n + 1, 0}, {n, n, n}, {3, 2, 1, 0}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {n + 9, n + 3, 5}} {
			for _, pl := range pls {
				one(a, pl, 99.0, idx)
			}
		}
	}
	// lengths at which buffers end, and elements and places which look like something else
	big := 1<<11 + 1
	if c.Thorough {
		big = 1<<14 + 1
	}
	pow := powers(73, big)
	c.Parallel(len(pow), func(i int) {
		n := pow[i]
		for x, idx := range [][]int{nil, {0}, {n - 1}, {n}, {n + 3, 1, n / 2}, indexLists(n/4, n)[0]} {
			one(elems(n), pls[x%len(pls)], 99.0, idx)
		}
		one(elems(3), pls[i%len(pls)], 99.0, indexLists(n, n)[0])
	})
	look := lookalikes()
	c.Parallel(len(look), func(i int) {
		t := look[i]
		for _, idx := range [][]int{nil, {0}, {1}, {2, 0}, {3, 5, 1}} {
			for _, a := range []A{{t}, {t, M{t: t}}, {A{t}, 1.0, t}} {
				one(a, place{"$.x", func(a A) M { return M{"x": a, t + "k": A{t, M{"x": t}}} }}, t, idx)
				one(a, place{"$.m[1].x", func(a A) M { return M{t + "k": nil, "m": A{t, M{"x": a, t + "k": t}, A{t}}} }}, M{t: t}, idx)
			}
		}
	})
	c.Sample(map[string]interface{}{"array": A{1.0, 2.0}, "indices": []int{4, 0}, "result": refPush(A{1.0, 2.0}, "v", []int{4, 0})})
}

func max(x []int) int {
	y := append([]int{}, x...)
	sort.Ints(y)
	return y[len(y)-1]
}

func c09(c *core.Ctx) {
	c.Rule("all non-empty arrays of the listed lengths (elements of every kind, rotated) at five places times all lists of at most max_indices indices from -2 to max_index; non-trivial: at least one element and not all are popped")
	maxLen, hi, n := 6, 6, 4
	if c.Thorough {
		maxLen, hi, n = 7, 8, 5
	}
	c.Extra("max_array_length", maxLen)
	c.Extra("max_index", hi)
	c.Extra("max_indices", n)
	as := arrays(maxLen)[1:]
	lists := idxLists(-2, hi, n)
	one := func(a A, pl place, idx []int) {
		c.Eval(1)
		wp, wr := refPop(a, idx)
		if len(wp) > 0 && len(wr) > 0 {
			c.Nontrivial(1)
		}
		key := fmt.Sprintf("%s %s pop at %v", ref.Canon(pl.wrap(a)), pl.path, idx)
		c.Case(func() string { return key }, func() *core.Fail {
			j := doc(pl.wrap(a))
			given := append([]int{}, idx...)
			var popped []interface{}
			p := try(func() { popped = j.MustPop(pl.path, given...) })
			want := ref.Canon(pl.wrap(wr))
			if p != nil || canonOf(j) != want || ref.Canon(A(append(A{}, popped...))) != ref.Canon(wp) {
				return core.Failf(key, key, "%s returns %s and gives %s (panic: %v) instead of %s and %s", key, ref.Canon(A(popped)), canonOf(j), p, ref.Canon(wp), want)
			}
			if fmt.Sprint(given) != fmt.Sprint(idx) {
				return core.Failf(key, key, "%s changed the list of indices it was given to %v", key, given)
			}
			return nil
		})
	}
	pls := places()
	c.Parallel(len(as)*len(pls), func(i int) {
		a, pl := as[i/len(pls)], pls[i%len(pls)]
		for _, idx := range lists {
			if c.Expired() {
				return
			}
			one(a, pl, idx)
		}
	})
	for n := 1; n <= 72; n++ {
		a := elems(n)
		for _, k := range []int{3, 7, 12, n / 2, n - 1, n, n + 1} {
			if k < 1 || n > 40 && k > 12 {
				continue
			}
			for _, idx := range append(indexLists(k, n), indexLists(k, n+k+2)...) {
				one(a, pls[n%len(pls)], idx)
			}
		}
		for i := -2; i <= n+2; i++ {
			one(a, pls[(i+2)%len(pls)], []int{i})
		}
	}
	for _, n := range []int{8, 15, 16, 17, 31, 32, 33, 64, 100} {
		a := elems(n)
		for _, idx := range [][]int{nil, {0}, {n}, {n - 1}, {-1}, {-n}, {n - 1, 0}, {n - 1, n - 1, 0, 0}, {n, n - 1}, {9, 8, 7, 6, 5, 4, 3, 2, 1, 0}, {-5, -4, -3, 2, n + 5}, {2, 4, 6}, {7, 3, 1, 3}} {
			for _, pl := range pls {
				one(a, pl, idx)
			}
		}
	}
	// lengths at which buffers end, and elements and places which look like something else
	big := 1<<11 + 1
	if c.Thorough {
		big = 1<<14 + 1
	}
	pow := powers(73, big)
	c.Parallel(len(pow), func(i int) {
		n := pow[i]
		for x, idx := range [][]int{nil, {0}, {n - 1}, {-1}, {n + 3, 1, n / 2}, indexLists(n/4, n)[0]} {
			one(elems(n), pls[x%len(pls)], idx)
		}
		one(elems(3), pls[i%len(pls)], indexLists(n, n)[0])
	})
	look := lookalikes()
	c.Parallel(len(look), func(i int) {
		t := look[i]
		for _, idx := range [][]int{nil, {0}, {1}, {2, 0}, {3, 5, 1}} {
			for _, a := range []A{{t}, {t, M{t: t}}, {A{t}, 1.0, t}} {
				one(a, place{"$.x", func(a A) M { return M{"x": a, t + "k": A{t, M{"x": t}}} }}, idx)
				one(a, place{"$.m[1].x", func(a A) M { return M{t + "k": nil, "m": A{t, M{"x": a, t + "k": t}, A{t}}} }}, idx)
			}
		}
	})
	p, r := refPop(A{1.0, 2.0, 3.0}, []int{2, 0, 7, -1})
	c.Sample(map[string]interface{}{"array": A{1.0, 2.0, 3.0}, "indices": []int{2, 0, 7, -1}, "popped": p, "rest": r})
}
