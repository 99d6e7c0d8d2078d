// Package ref is the reference model: plain JSON values and the documented meaning of JSONPaths on them, written for
// obviousness and independent of the code under test.
package ref

import (
	"encoding/json"
	"sort"
	"strings"
)

type V = interface{}
type M = map[string]interface{}
type A = []interface{}

// Canon gives the canonical text of a value (functions are not JSON and are shown as "<func>").
func Canon(v V) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func canon(b *strings.Builder, v V) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case M:
		b.WriteByte('{')
		for i, k := range Keys(x) {
			if i > 0 {
				b.WriteByte(',')
			}
			s, _ := json.Marshal(k)
			b.Write(s)
			b.WriteByte(':')
			canon(b, x[k])
		}
		b.WriteByte('}')
	case A:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, e)
		}
		b.WriteByte(']')
	default:
		s, err := json.Marshal(x)
		if err != nil {
			b.WriteString("<func>")
			return
		}
		b.Write(s)
	}
}

func Keys(m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func Copy(v V) V {
	switch x := v.(type) {
	case M:
		m := make(M, len(x))
		for k, e := range x {
			m[k] = Copy(e)
		}
		return m
	case A:
		a := make(A, len(x))
		for i, e := range x {
			a[i] = Copy(e)
		}
		return a
	}
	return v
}

// Parse parses JSON text (panics on bad text: only used on literals of the harness).
func Parse(s string) V {
	var v V
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic("harness literal " + s + ": " + err.Error())
	}
	return v
}

func ParseM(s string) M { return Parse(s).(M) }

// Gen enumerates all values with exactly n nodes over the given keys and scalars; maxArr bounds array lengths.
type Gen struct {
	Keys    []string
	Scalars []V
	MaxArr  int
	memo    map[int][]V
}

func (g *Gen) Exactly(n int) []V {
	if g.memo == nil {
		g.memo = map[int][]V{}
	}
	if r, ok := g.memo[n]; ok {
		return r
	}
	var out []V
	if n == 1 {
		out = append(out, g.Scalars...)
	}
	if n >= 1 {
		// arrays of n-1 nodes
		for l := 0; l <= g.MaxArr; l++ {
			for _, seq := range g.seqs(l, n-1) {
				out = append(out, A(append([]V{}, seq...)))
			}
		}
		// maps over subsets of the keys
		for mask := 0; mask < 1<<len(g.Keys); mask++ {
			var ks []string
			for i, k := range g.Keys {
				if mask>>i&1 == 1 {
					ks = append(ks, k)
				}
			}
			for _, seq := range g.seqs(len(ks), n-1) {
				m := M{}
				for i, k := range ks {
					m[k] = seq[i]
				}
				out = append(out, m)
			}
		}
	}
	g.memo[n] = out
	return out
}

func (g *Gen) seqs(l, n int) [][]V {
	if l == 0 {
		if n == 0 {
			return [][]V{{}}
		}
		return nil
	}
	var out [][]V
	for first := 1; first <= n-(l-1); first++ {
		rest := g.seqs(l-1, n-first)
		if len(rest) == 0 {
			continue
		}
		for _, f := range g.Exactly(first) {
			for _, r := range rest {
				s := make([]V, 0, l)
				s = append(s, f)
				s = append(s, r...)
				out = append(out, s)
			}
		}
	}
	return out
}

func (g *Gen) UpTo(n int) []V {
	var out []V
	for i := 1; i <= n; i++ {
		out = append(out, g.Exactly(i)...)
	}
	return out
}

// Maps returns only the maps of at most n nodes.
func (g *Gen) Maps(n int) []M {
	var out []M
	for _, v := range g.UpTo(n) {
		if m, ok := v.(M); ok {
			out = append(out, m)
		}
	}
	return out
}
