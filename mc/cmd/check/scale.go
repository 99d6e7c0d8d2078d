package main

import (
	"fmt"
	"strings"

	"verif/core"
	"verif/ref"
)

// Families of documents and paths with a size: every size up to the bound is enumerated, so that a threshold anywhere below
// it is met from both sides.

// tree is a complete tree of the given depth: arrays (kind 0), objects (kind 1) or both by turns (kind 2).
func tree(depth, kind, width int, n *int) V {
	if depth == 0 {
		*n++
		return float64(*n)
	}
	k := kind
	if k == 2 {
		k = depth % 2
	}
	if k == 0 {
		a := A{}
		for i := 0; i < width; i++ {
			a = append(a, tree(depth-1, kind, width, n))
		}
		return a
	}
	m := M{}
	for i := 0; i < width; i++ {
		m[string(rune('a'+i))] = tree(depth-1, kind, width, n)
	}
	return m
}

func mixedValue(i int) V {
	switch i % 5 {
	case 0:
		return float64(i)
	case 1:
		return M{"a": float64(i), "b": A{float64(i), nil}}
	case 2:
		return A{float64(i), M{"a": float64(-i)}}
	case 3:
		return nil
	}
	return fmt.Sprint("s", i)
}

func wideObject(n int) M {
	m := M{}
	for i := 0; i < n; i++ {
		m[fmt.Sprint("k", i)] = mixedValue(i)
	}
	return m
}

func longArray(n int) A {
	a := A{}
	for i := 0; i < n; i++ {
		a = append(a, mixedValue(i))
	}
	return a
}

// indexLists gives lists of k indices below n: rising, falling, with duplicates, around the middle.
func indexLists(k, n int) [][]int {
	if n == 0 {
		return nil
	}
	up, down, same, in := []int{}, []int{}, []int{}, []int{}
	for i := 0; i < k; i++ {
		up, down, same = append(up, i%n), append(down, n-1-i%n), append(same, (n-1)*(i%2))
		if i%2 == 0 {
			in = append(in, i/2%n)
		} else {
			in = append(in, n-1-i/2%n)
		}
	}
	return [][]int{up, down, same, in}
}

func scaled(c *core.Ctx, f func(rc readCase)) {
	size, depth := 40, 6
	if c.Thorough {
		size, depth = 140, 7
	}
	c.Extra("scale", size)
	give := func(d M, pre []tok, ts ...tok) {
		if p, ok := compose(append(append([]tok{}, pre...), ts...)); ok && !c.Expired() {
			f(readCase{d, p})
		}
	}
	// wide objects and long arrays, selected as a whole, by lists of many indices, and one by one
	c.Parallel(size, func(i int) {
		n := size - i
		o, a := wideObject(n), longArray(n)
		d := M{"x": o, "y": a, "z": A{o, a}}
		all := []tok{tWild, tWildDot, tFirst, tRec("a"), tRec("b"), tRec(fmt.Sprint("k", n-1)), tRec(fmt.Sprint("k", n/2)), fTrue, fNum, tSlice(ip(0), nil), tSlice(ip(n/2), nil), tSlice(nil, ip(n/2)), tSlice(ip(-n), nil), tSlice(nil, ip(n)), tSlice(ip(-1), nil), tSlice(nil, ip(-1))}
		for _, k := range []int{2, n / 2, n - 1, n, n + 1} {
			if k < 1 {
				continue
			}
			for _, is := range indexLists(k, n) {
				all = append(all, tIdx(is...))
			}
		}
		for _, pre := range [][]tok{{}, {tStr("x")}, {tStr("y")}, {tStr("z"), tIdx(0)}, {tStr("z"), tWild}, {tStr("z"), tIdx(1)}} {
			for _, t := range all {
				give(d, pre, t)
				if t.steps[0].Kind != ref.Filter || n%8 == 1 {
					give(d, pre, t, tIdx(n-1))
					give(d, pre, t, tSlice(ip(-1), nil))
					give(d, pre, t, tWild)
				}
			}
			give(d, pre, tStr(fmt.Sprint("k", n-1)))
			give(d, pre, tStr(fmt.Sprint("k", n)))
			give(d, pre, tIdx(n-1))
			give(d, pre, tIdx(n))
		}
		// the same selected many times over: a list, then a list
		if n <= 12 {
			for _, is := range indexLists(n, n) {
				rows := A{}
				for r := 0; r < n; r++ {
					rows = append(rows, longArray(n))
				}
				give(M{"x": rows}, []tok{tStr("x")}, tIdx(is...), tIdx(is...))
			}
		}
		// long names and names with many dots between
		name := strings.Repeat("n", n-1) + "m"
		ln := M{name: M{name: A{M{name: 1.0}, 2.0}}, name + "m": 3.0, name[1:]: 4.0}
		for _, ts := range [][]tok{{tStr(name)}, {tStr(name + "m")}, {tRec(name)}, {tStr(name), tRec(name)}, {tStr(name), tStr(name), tIdx(0), tStr(name)}, {tStr(name), tStr(name), tIdx(1)}, {tRec(name + "m")}, {tStr(name + "mm")}} {
			give(ln, ts)
		}
		if n > 1 {
			give(ln, []tok{tStr(name[1:])})
			give(ln, []tok{tRec(name[1:])})
		}
	})
	// keys which look like something else
	like := lookalikes()
	c.Parallel(len(like), func(i int) {
		a := like[i]
		for j, o := range like {
			if !c.Thorough && (i+j)%5 != 0 && i != j {
				continue
			}
			inner := M{a: 1.0, o: A{a, M{o: 2.0}}, "a" + a: M{"a": o, a: nil}}
			d := M{a: inner, "x": inner, o: A{M{a: o}, o}}
			name := "k"
			word := a != "" && strings.IndexByte("-0123456789", a[0]) < 0 && strings.Trim(a, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-") == ""
			if word {
				name = a
			}
			for _, ts := range [][]tok{{tWild}, {tFirst}, {tWild, tWild}, {tFirst, tFirst}, {tStr("x"), tWild}, {tStr("x"), tFirst}, {tStr("x"), tWild, tIdx(0)}, {tStr("x"), tIdx(0)}, {tRec("a")}, {tRec("x"), tFirst}, {tStr(name)}, {tRec(name)}, {tStr("x"), tStr(name)}, {tWild, tStr(name)}, {tRec("a"), tIdx(0)}, {tWild, tIdx(0), tWild}, {tStr("a")}, {tStr("x"), fTrue}} {
				give(d, nil, ts...)
			}
		}
	})
	// keys which differ in case, length or marks only
	near := []string{"a", "A", "b", "B", "aa", "aA", "Aa", "AA", "a_", "a-", "a1", "á", "Á", "a\u0301", "ß", "SS", "ss", "ſ", "s", "K", "k", "\u212a", "i", "I", "İ", "ı", "1", "10", "2", "01"}
	c.Parallel(len(near), func(i int) {
		for j := range near {
			for k := range near {
				if i == j || j == k || i == k || !c.Thorough && (i+j+k)%3 != 0 {
					continue
				}
				d := M{near[i]: 0.0, near[j]: A{1.0, M{near[k]: 3.0}}, near[k]: M{near[i]: 4.0, near[j]: 5.0}}
				for _, ts := range [][]tok{{tFirst}, {tFirst, tFirst}, {tWild}, {tWild, tFirst}, {tRec("a")}, {tRec("A")}, {tRec("k")}, {tStr("a")}, {tStr("A")}, {tStr("aA")}, {tWild, tStr("a")}} {
					give(d, nil, ts...)
				}
			}
		}
	})
	// arrays, objects and names at the sizes at which buffers end
	big := powers(size+1, 4097)
	c.Parallel(len(big), func(i int) {
		n := big[len(big)-1-i]
		o, a := M{}, A{}
		for i := 0; i < n; i++ {
			o[fmt.Sprint("k", i)] = float64(i)
			a = append(a, float64(i))
		}
		name := strings.Repeat("n", n)
		d := M{"x": o, "y": a, name: A{M{name: 1.0}}, name[1:]: 2.0}
		half := []int{}
		for i := 0; i < n; i += 1 + n/64 {
			half = append(half, n-1-i)
		}
		for _, ts := range [][]tok{{tStr("x"), tWild}, {tStr("y"), tWild}, {tStr("x"), tFirst}, {tStr("y"), tFirst}, {tStr("y"), tIdx(n - 1)}, {tStr("y"), tIdx(n)}, {tStr("y"), tIdx(n-1, 0)}, {tStr("y"), tIdx(half...)}, {tStr("y"), tSlice(ip(n-1), nil)}, {tStr("y"), tSlice(ip(n/2), ip(n))}, {tStr("y"), tSlice(nil, ip(n))}, {tStr("y"), tSlice(ip(-n), nil)}, {tStr("y"), tSlice(ip(-n-1), nil)}, {tStr("y"), tSlice(nil, ip(-n))}, {tStr("y"), tSlice(nil, ip(-1))}, {tRec(fmt.Sprint("k", n-1))}, {tRec(fmt.Sprint("k", n))}, {tStr("x"), tStr(fmt.Sprint("k", n-1))}, {tStr(name)}, {tStr(name[1:])}, {tRec(name)}, {tRec(name), tIdx(0)}, {tStr(name), tIdx(0), tStr(name)}, {tFirst, tFirst}} {
			give(d, nil, ts...)
		}
		// as many alternatives, failures and values found as that
		all, none, es := []int{}, []int{}, A{}
		for i := 0; i < n; i++ {
			all, none = append(all, n-1-i), append(none, n+i)
			es = append(es, M{"e": float64(i)})
		}
		give(M{"y": a}, nil, tStr("y"), tIdx(all...))
		give(M{"y": a}, nil, tStr("y"), tIdx(none...))
		give(M{"y": a}, nil, tStr("y"), tIdx(all...), tStr("z"))
		for _, ts := range [][]tok{{tRec("e")}, {tStr("m"), tRec("e")}, {tFirst, tRec("e")}, {tStr("m"), tStr("e")}, {tRec("m"), tStr("e")}} {
			give(M{"m": es, "n": M{"o": A{M{"m": es}}}}, nil, ts...)
		}
	})
	// trees: as many selectors as levels, of one kind or by turns, and one less or more
	c.Parallel(3*depth, func(i int) {
		kind, dep := i%3, depth-i/3
		for width := 1; width <= 3; width++ {
			if width == 3 && dep > 4 {
				continue
			}
			k := 0
			d := M{"x": tree(dep, kind, width, &k)}
			ts := []tok{tWild, tFirst, tIdx(0), tIdx(0, width-1), tIdx(width-1, 0), tStr("a"), tStr("b"), tRec("a"), tSlice(ip(0), nil), tSlice(nil, ip(1)), tSlice(ip(-1), nil)}
			for _, t := range ts {
				for _, u := range ts {
					for l := dep - 1; l <= dep+1; l++ {
						if l < 1 {
							continue
						}
						pre := []tok{tStr("x")}
						for x := 0; x < l; x++ {
							if x%2 == 0 {
								pre = append(pre, t)
							} else {
								pre = append(pre, u)
							}
						}
						give(d, pre)
					}
				}
			}
		}
	})
}

// likeTrees gives trees with scripts whose keys look like something else and can be written in a line of the form path:text.
func likeTrees(pairs bool) []M {
	var out []M
	like := lookalikes()
	for i, a := range like {
		if a == "array" || strings.ContainsAny(a, ":\n\r[]") { // (the key array means something at the root)
			continue
		}
		for j, o := range like {
			if o == "array" || strings.ContainsAny(o, ":\n\r[]") || o == a || !pairs && j != (i*7+3)%len(like) {
				continue
			}
			out = append(out, M{a: marker, o + "k": M{a: marker, "d": A{o}}, "z": 1.0}, M{"k" + a: A{M{o + "s": marker, a + "q": M{"s": marker}}, a}, o: M{o: M{a: marker}}})
		}
	}
	return out
}

// scaledTrees gives trees with scripts (markers) of every size up to the given one.
func scaledTrees(size int) []M {
	var out []M
	for n := 1; n <= size; n++ {
		wide, plain := M{}, M{}
		list, sparse, scripts := A{}, A{}, M{}
		for i := 0; i < n; i++ {
			wide[fmt.Sprint("k", i)] = marker
			wide[fmt.Sprint("d", i)] = mixedValue(i)
			scripts[fmt.Sprint(i)] = marker
			list = append(list, M{"s": marker, "d": float64(i)})
			sparse = append(sparse, mixedValue(i), A{mixedValue(i + 1)})
			plain[fmt.Sprint("o", i)] = M{"d": mixedValue(i)}
		}
		plain["o"+strings.Repeat("p", n)] = M{"s": marker, "z": 1.0}
		sparse = append(sparse, M{"a": A{M{"s": marker}}})
		out = append(out, wide, scripts, plain, M{"a": list, "s": marker, "l": A{ref.Copy(list)}}, M{"x": sparse}, M{strings.Repeat("s", n): marker, strings.Repeat("o", n): M{strings.Repeat("t", n): marker}})
		for kind := 0; kind < 3; kind++ {
			var v V = M{"s": marker, "last": true}
			for i := 0; i < n; i++ {
				if kind == 0 || kind == 2 && i%2 == 0 {
					v = A{float64(i), v}
				} else if i%3 == 0 {
					v = M{"a": v, "d": float64(i)}
				} else {
					v = M{"a": v, "s": marker, "t": marker}
				}
			}
			out = append(out, M{"a": v, "b": 1.0})
		}
	}
	return out
}

// deepValue nests objects and arrays n levels deep.
func deepValue(n int) V {
	var v V = 1.0
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			v = M{"a": v, "b": nil}
		} else {
			v = A{v, float64(i)}
		}
	}
	return v
}

// powers gives the sizes just below, at and just above the powers of two and ten between lo and hi: where buffers end.
func powers(lo, hi int) (out []int) {
	for p := 1; p <= hi; p *= 2 {
		for n := p - 1; n <= p+1; n++ {
			if n >= lo && n <= hi {
				out = append(out, n)
			}
		}
	}
	for p := 10; p <= hi; p *= 10 {
		for n := p; n <= p+1; n++ {
			if n >= lo && n <= hi {
				out = append(out, n)
			}
		}
	}
	return out
}

// lookalikes are texts which look like something else: escapes, verbs of formats, markup, names the languages know, numbers.
func lookalikes() []string {
	return []string{
		"\\u003c", "\\u0026", "\\u2028", "\\u0041", "\\n", "\\", "\\\\", "\\\"", "\"", "'", "`", "%s", "%", "%d%", "100%v", "%!s(MISSING)", "%%", "{}", "${x}", "{{.}}",
		"<", ">", "&", "<b>", "&lt;", "&amp;", "]]>", "\u2028", "\u2029", "$1", "$&", "$", "$.a", "@", "*", "..", "?()",
		"[object Object]", "__proto__", "constructor", "prototype", "toString", "valueOf", "hasOwnProperty", "length", "toJSON", "array", "trail", "json", "insides", "this", "function", "return",
		"null", "true", "false", "undefined", "NaN", "Infinity", "-Infinity", "nil", "<nil>", "map[]", "0", "-0", "010", "1e5", "1E400", "0x1f", "1.0", ".5", "12345678901234567890",
		"#", "//", "/*", "*/", "#//!", "#//!js", "//!js", "#!js", " #//!js\n1", "# c", "\r\n", "\r", "\n", "\t", "\v", "\f", "\b", "\x00", "\ufeff", "\u00a0", "\u200b", "\u0301e", "é", "e\u0301", "K", "ſ", "İ", "ǆ", "\U0001f600", "\U0010ffff", "\ufffd",
		"2006-01-02T15:04:05Z", "<anonymous>", "$.a:1:1", "(-5) x", "a.b", "a..b", "a[0]", "['a']", " ", " a", "a ", "",
	}
}
