package main

import (
	"fmt"
	"strings"

	"verif/ref"
)

// The documents and paths which the checks of reads and writes enumerate.

// numbered replaces every scalar by a different number, so that no two places of a document look alike.
func numbered(v V) V {
	n := 0
	var f func(v V) V
	f = func(v V) V {
		switch x := v.(type) {
		case M:
			m := M{}
			for _, k := range ref.Keys(x) {
				m[k] = f(x[k])
			}
			return m
		case A:
			a := A{}
			for _, e := range x {
				a = append(a, f(e))
			}
			return a
		}
		n++
		return float64(n)
	}
	return f(v)
}

// shapes gives all object documents of at most n nodes over the keys, with numbered scalars.
func shapes(n, maxArr int, keys ...string) []M {
	g := ref.Gen{Keys: keys, Scalars: []V{1.0}, MaxArr: maxArr}
	var out []M
	for _, m := range g.Maps(n) {
		out = append(out, numbered(m).(M))
	}
	return out
}

// withScalar gives, for every scalar position of every document, the document with that scalar replaced.
func withScalar(ds []M, v V) []M {
	var out []M
	for _, d := range ds {
		n := countScalars(d)
		for i := 0; i < n; i++ {
			k := 0
			out = append(out, replaceScalar(d, i, v, &k).(M))
		}
	}
	return out
}

func countScalars(v V) int {
	switch x := v.(type) {
	case M:
		n := 0
		for _, e := range x {
			n += countScalars(e)
		}
		return n
	case A:
		n := 0
		for _, e := range x {
			n += countScalars(e)
		}
		return n
	}
	return 1
}

func replaceScalar(v V, at int, by V, k *int) V {
	switch x := v.(type) {
	case M:
		m := M{}
		for _, key := range ref.Keys(x) {
			m[key] = replaceScalar(x[key], at, by, k)
		}
		return m
	case A:
		a := A{}
		for _, e := range x {
			a = append(a, replaceScalar(e, at, by, k))
		}
		return a
	}
	*k++
	if *k-1 == at {
		return by
	}
	return v
}

// tok is one selector of an enumerated path: its text, what it means, and whether it is one of several dots.
type tok struct {
	text  string
	steps []ref.Step // more than one: a list of indices
	first bool
	rec   bool
}

func ip(i int) *int { return &i }

func tStr(n string) tok { return tok{text: "." + n, steps: []ref.Step{{Kind: ref.Str, Name: n}}} }
func tRec(n string) tok {
	return tok{text: ".." + n, steps: []ref.Step{{Kind: ref.Rec, Name: n}}, rec: true}
}
func tIdx(is ...int) tok {
	t := tok{}
	var p []string
	for _, i := range is {
		p = append(p, fmt.Sprint(i))
		t.steps = append(t.steps, ref.Step{Kind: ref.Idx, I: i})
	}
	t.text = "[" + strings.Join(p, ",") + "]"
	return t
}
func tSlice(a, b *int) tok {
	s := ref.Step{Kind: ref.Slice, Start: a, End: b}
	f := func(p *int) string {
		if p == nil {
			return ""
		}
		return fmt.Sprint(*p)
	}
	return tok{text: "[" + f(a) + ":" + f(b) + "]", steps: []ref.Step{s}}
}

var (
	tWild    = tok{text: "[*]", steps: []ref.Step{{Kind: ref.Wild}}}
	tWildDot = tok{text: ".*", steps: []ref.Step{{Kind: ref.Wild}}}
	tFirst   = tok{steps: []ref.Step{{Kind: ref.First}}, first: true}
)

func tFilter(text string, p func(n V, root M) (bool, error)) tok {
	return tok{text: "[?(" + text + ")]", steps: []ref.Step{{Kind: ref.Filter, Name: text, Pred: p}}}
}

func truthy(v V) bool {
	switch x := v.(type) {
	case nil:
		return false
	case bool:
		return x
	case float64:
		return x != 0
	case string:
		return x != ""
	}
	return true
}

var (
	fTrue  = tFilter("true", func(V, M) (bool, error) { return true, nil })
	fFalse = tFilter("false", func(V, M) (bool, error) { return false, nil })
	fA     = tFilter("@.a", func(n V, _ M) (bool, error) {
		if n == nil {
			return false, ref.ErrStep // property of null: TypeError
		}
		if m, ok := n.(M); ok {
			return truthy(m["a"]), nil
		}
		return false, nil
	})
	fNum = tFilter("typeof @ === 'number'", func(n V, _ M) (bool, error) { _, ok := n.(float64); return ok, nil })
	fOne = tFilter("@ === 1", func(n V, _ M) (bool, error) { x, ok := n.(float64); return ok && x == 1, nil })
)

// path is an enumerated path: text and meaning.
type path struct {
	text   string
	alts   []ref.Alt
	filter int
}

// compose writes a path out of selectors (ok is false if the sequence cannot be written).
func compose(ts []tok) (path, bool) {
	var b strings.Builder
	b.WriteByte('$')
	alts := []ref.Alt{{}}
	firsts := 0
	p := path{}
	for _, t := range ts {
		var n []ref.Alt
		for _, a := range alts {
			for _, s := range t.steps {
				n = append(n, append(append(ref.Alt{}, a...), s))
			}
		}
		alts = n
		if t.steps[0].Kind == ref.Filter {
			p.filter++
		}
		if t.first {
			firsts++
			continue
		}
		if firsts > 0 {
			if t.rec {
				return p, false
			}
			b.WriteString(".." + strings.Repeat(".", firsts) + strings.TrimPrefix(t.text, "."))
			firsts = 0
			continue
		}
		b.WriteString(t.text)
	}
	if firsts > 0 {
		b.WriteString(".." + strings.Repeat(".", firsts))
	}
	p.text = b.String()
	p.alts = alts
	return p, true
}

// allPaths gives all paths of 1..n selectors with at most maxFilters filters.
func allPaths(ts []tok, n, maxFilters int) []path {
	var out []path
	for l := 1; l <= n; l++ {
		words(len(ts), l, nil, func(w []int) bool {
			sel := make([]tok, l)
			for i, x := range w {
				sel[i] = ts[x]
			}
			if p, ok := compose(sel); ok && p.filter <= maxFilters {
				out = append(out, p)
			}
			return true
		})
	}
	return out
}

func baseToks() []tok {
	return []tok{tStr("a"), tStr("b"), tStr("zz"), tIdx(0), tIdx(1), tIdx(2), tIdx(1, 0), tIdx(0, 0), tWild, tWildDot, tFirst, tRec("a"), tRec("b"),
		tSlice(ip(0), ip(1)), tSlice(ip(1), ip(2)), tSlice(ip(1), nil), tSlice(nil, ip(1)), tSlice(ip(-1), nil), tSlice(nil, ip(-1)),
		tSlice(ip(0), ip(0)), tSlice(ip(2), ip(1)), tSlice(ip(-2), nil), tSlice(nil, ip(2))}
}

func filterToks() []tok { return []tok{fTrue, fFalse, fA, fNum, fOne} }
