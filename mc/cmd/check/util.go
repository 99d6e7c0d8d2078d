package main

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"

	_ "github.com/andygello555/json-dom/code/go"
	_ "github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

type M = ref.M
type A = ref.A
type V = ref.V

func init() {
	// scripts of the explored cases are short; the halting delay must not be reached because the machine is busy
	globals.HaltingDelay = 4
	usual := 0
	core.Patient = func(on bool) {
		if on {
			usual = globals.HaltingDelay
			globals.HaltingDelay = 5 * usual
		} else {
			globals.HaltingDelay = usual
		}
	}
	// the live heap is small: without the ballast the collector would run all the time
	ballast = make([]byte, 512<<20)
	debug.SetGCPercent(100)
}

var ballast []byte

// try runs f and returns what it panicked with.
func try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func tryErr(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}

func doc(m M) *jom.JsonMap { return jom.NewFromMap(ref.Copy(m).(M)) }

func canonOf(j *jom.JsonMap) string { return ref.Canon(*j.GetInsides()) }

// stepOf converts a parsed key (second result false: not representable).
func stepOf(k json_map.AbsolutePathKey) (ref.Step, bool) {
	s, sok := k.Value.(string)
	i, iok := k.Value.(int)
	switch k.KeyType {
	case json_map.StringKey:
		return ref.Step{Kind: ref.Str, Name: s}, sok
	case json_map.IndexKey:
		return ref.Step{Kind: ref.Idx, I: i}, iok
	case json_map.Wildcard:
		return ref.Step{Kind: ref.Wild}, true
	case json_map.Filter:
		return ref.Step{Kind: ref.Filter, Name: s}, sok
	case json_map.First:
		return ref.Step{Kind: ref.First}, true
	case json_map.RecursiveLookup:
		return ref.Step{Kind: ref.Rec, Name: s}, sok
	case json_map.Slice:
		l, ok := k.Value.([]json_map.AbsolutePathKey)
		if !ok || len(l) != 2 {
			return ref.Step{}, false
		}
		st := ref.Step{Kind: ref.Slice}
		for n, e := range l {
			switch e.KeyType {
			case json_map.StartEnd:
			case json_map.IndexKey:
				x, ok := e.Value.(int)
				if !ok {
					return ref.Step{}, false
				}
				if n == 0 {
					st.Start = &x
				} else {
					st.End = &x
				}
			default:
				return ref.Step{}, false
			}
		}
		return st, true
	}
	return ref.Step{}, false
}

func altsOf(ps json_map.AbsolutePaths) ([]ref.Alt, bool) {
	var out []ref.Alt
	for _, p := range ps {
		a := ref.Alt{}
		for _, k := range p {
			s, ok := stepOf(k)
			if !ok {
				return nil, false
			}
			a = append(a, s)
		}
		out = append(out, a)
	}
	return out, true
}

func canonList(vs []interface{}) string {
	var b strings.Builder
	b.WriteByte('(')
	for i, v := range vs {
		if i > 0 {
			b.WriteString(" ; ")
		}
		b.WriteString(ref.Canon(v))
	}
	b.WriteByte(')')
	return b.String()
}

// words enumerates all sequences of exactly n indices below k, calling f with a reused slice, for the sequences starting
// with the given prefix.
func words(k, n int, prefix []int, f func(w []int) bool) {
	w := make([]int, n)
	copy(w, prefix)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(w)
		}
		for x := 0; x < k; x++ {
			w[i] = x
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(len(prefix))
}

func short(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s...(%d bytes)...%s", s[:80], len(s), s[len(s)-40:])
	}
	return s
}

// the set of different states reached
var states [64]struct {
	mu sync.Mutex
	m  map[string]bool
}

func resetStates() {
	for i := range states {
		states[i].m = map[string]bool{}
	}
}

func reach(s string) {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	sh := &states[h%64]
	sh.mu.Lock()
	sh.m[s] = true
	sh.mu.Unlock()
}

func countStates(c *core.Ctx) {
	n := 0
	for i := range states {
		states[i].mu.Lock()
		n += len(states[i].m)
		states[i].mu.Unlock()
	}
	c.States(int64(n))
}
