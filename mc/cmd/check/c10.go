package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/andygello555/json-dom/jom"

	"verif/core"
	"verif/ref"
)

func init() {
	register("C06", "model_checking", c06)
	register("C10", "model_checking", c10)
}

// model is the plain JSON model of a document object.
type model struct {
	root  M
	array bool
}

func (m *model) value() V {
	if m.array {
		return m.root["array"]
	}
	return m.root
}

const scriptPrefix = "#//!js\n"

func isScriptText(v V) bool {
	s, ok := v.(string)
	if !ok {
		return false
	}
	l := strings.SplitN(s, "\n", 2)[0]
	return l == "#//!js" || l == "#//!go"
}

// refStrip removes every key whose value is a script.
func refStrip(v V, isScript func(V) bool) V {
	switch x := v.(type) {
	case M:
		m := M{}
		for k, e := range x {
			if !isScript(e) {
				m[k] = refStrip(e, isScript)
			}
		}
		return m
	case A:
		a := A{}
		for _, e := range x {
			a = append(a, refStrip(e, isScript))
		}
		return a
	}
	return v
}

// refRun runs scripts: effect gives the new scope for the scope (which still holds the script).
func refRun(v V, isScript func(V) bool, effect func(script V, scope M) M) V {
	switch x := v.(type) {
	case M:
		var ks []string
		for k, e := range x {
			if isScript(e) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		scripts := M{}
		for _, k := range ks {
			scripts[k] = x[k]
		}
		for _, k := range ks {
			x = effect(scripts[k], x)
			delete(x, k)
		}
		for k := range x {
			x[k] = refRun(x[k], isScript, effect)
		}
		return x
	case A:
		for i := range x {
			x[i] = refRun(x[i], isScript, effect)
		}
		return x
	}
	return v
}

type op struct {
	name string
	real func(j *jom.JsonMap) (*jom.JsonMap, error)
	ref  func(m *model) error
}

var errModel = fmt.Errorf("error expected by the model")

func opUnmarshal(text string, ok bool) op { return opUnmarshalAs(text, text, ok) }

// opUnmarshalAs unmarshals a hjson text which stands for the given JSON.
func opUnmarshalAs(text, same string, ok bool) op {
	return op{"unmarshal " + text, func(j *jom.JsonMap) (*jom.JsonMap, error) { return j, j.Unmarshal([]byte(text)) }, func(m *model) error {
		if !ok {
			return errModel
		}
		switch x := ref.Parse(same).(type) {
		case M:
			*m = model{x, false}
		case A:
			*m = model{M{"array": x}, true}
		}
		return nil
	}}
}

func opSet(p string, v V) op {
	alts, err := ref.ParsePath(p)
	if err != nil {
		panic(p)
	}
	return op{fmt.Sprintf("set %s = %s", p, ref.Canon(v)), func(j *jom.JsonMap) (*jom.JsonMap, error) {
		return j, tryErr(func() error { j.MustSet(p, ref.Copy(v)); return nil })
	}, func(m *model) error {
		r, _, err := ref.Set(alts, m.root, v)
		if err != nil {
			return err
		}
		m.root = r
		return nil
	}}
}

func opMarkup(p, lang, text string, ok bool) op {
	alts, perr := ref.ParsePath(p)
	return op{fmt.Sprintf("markup %s %s %q", p, lang, text), func(j *jom.JsonMap) (*jom.JsonMap, error) { return j, j.MarkupCode(p, lang, text) }, func(m *model) error {
		if !ok || perr != nil {
			return errModel
		}
		r, _, err := ref.Set(alts, m.root, "#//!"+lang+"\n"+text)
		if err != nil {
			return err
		}
		m.root = r
		return nil
	}}
}

// arrayAt gives the array a path of keys and indices leads to.
func arrayAt(m M, p string) (A, bool) {
	alts, _ := ref.ParsePath(p)
	ns, err := ref.Get([]ref.Alt{alts[0][:len(alts[0])-1]}, m)
	if err != nil {
		return nil, false
	}
	_ = ns
	var cur V = m
	for _, s := range alts[0] {
		switch x := cur.(type) {
		case M:
			v, ok := x[s.Name]
			if s.Kind != ref.Str || !ok {
				return nil, false
			}
			cur = v
		case A:
			if s.Kind != ref.Idx || s.I >= len(x) {
				return nil, false
			}
			cur = x[s.I]
		default:
			return nil, false
		}
	}
	a, ok := cur.(A)
	return a, ok
}

func opPush(p string, v V, idx ...int) op {
	alts, _ := ref.ParsePath(p)
	return op{fmt.Sprintf("push %s %s %v", p, ref.Canon(v), idx), func(j *jom.JsonMap) (*jom.JsonMap, error) {
		return j, tryErr(func() error { j.MustPush(p, ref.Copy(v), idx...); return nil })
	}, func(m *model) error {
		a, ok := arrayAt(m.root, p)
		if !ok {
			return errSkip
		}
		m.root, _, _ = ref.Set(alts, m.root, refPush(a, v, idx))
		return nil
	}}
}

func opPop(p string, idx ...int) op {
	alts, _ := ref.ParsePath(p)
	return op{fmt.Sprintf("pop %s %v", p, idx), func(j *jom.JsonMap) (*jom.JsonMap, error) {
		return j, tryErr(func() error { j.MustPop(p, idx...); return nil })
	}, func(m *model) error {
		a, ok := arrayAt(m.root, p)
		if !ok || len(a) == 0 {
			return errSkip
		}
		_, rest := refPop(a, idx)
		m.root, _, _ = ref.Set(alts, m.root, rest)
		return nil
	}}
}

// errSkip: the operation has no meaning in this state (a push to something which is no array); it is not executed.
var errSkip = fmt.Errorf("not applicable")

// jsEffects are the scripts used in histories and their meaning.
var jsEffects = map[string]func(s M) M{
	scriptPrefix + "json.trail.k = 7":                  func(s M) M { s["k"] = 7.0; return s },
	scriptPrefix + "delete json.trail.a":               func(s M) M { delete(s, "a"); return s },
	scriptPrefix + "json.trail.l = [1, {\"a\": null}]": func(s M) M { s["l"] = A{1.0, M{"a": nil}}; return s },
	scriptPrefix + "if (json.trail.array) { json.trail.array.push(5) }": func(s M) M {
		if a, ok := s["array"].(A); ok {
			s["array"] = append(append(A{}, a...), 5.0)
		}
		return s
	},
}

func opRun() op {
	return op{"run", func(j *jom.JsonMap) (*jom.JsonMap, error) { return j, tryErr(func() error { j.Run(); return nil }) }, func(m *model) error {
		m.root = refRun(ref.Copy(m.root), isScriptText, func(script V, scope M) M { return jsEffects[script.(string)](scope) }).(M)
		return nil
	}}
}

var opStrip = op{"strip", func(j *jom.JsonMap) (*jom.JsonMap, error) { j.Strip(); return j, nil }, func(m *model) error {
	m.root = refStrip(m.root, isScriptText).(M)
	return nil
}}

var opFind = op{"find scripts", func(j *jom.JsonMap) (*jom.JsonMap, error) { j.FindScriptFields(); return j, nil }, func(m *model) error { return nil }}

func opClone(clear bool) op {
	return op{fmt.Sprint("clone ", clear), func(j *jom.JsonMap) (*jom.JsonMap, error) { return j.Clone(clear).(*jom.JsonMap), nil }, func(m *model) error {
		if clear {
			m.root = M{}
		}
		return nil
	}}
}

func opRead(p string) op {
	return op{"read " + p, func(j *jom.JsonMap) (*jom.JsonMap, error) {
		return j, tryErr(func() error { j.MustGet(p); return nil })
	}, func(m *model) error {
		alts, err := ref.ParsePath(p)
		if err == nil {
			_, err = ref.Get(alts, m.root)
		}
		return err
	}}
}

func opRoundtrip() op {
	return op{"marshal and unmarshal into itself", func(j *jom.JsonMap) (*jom.JsonMap, error) {
		out, err := j.Marshal()
		if err != nil {
			return j, err
		}
		return j, j.Unmarshal(out)
	}, func(m *model) error {
		if m.array {
			if _, ok := m.root["array"].(A); !ok {
				return errModel
			}
			m.root = M{"array": m.root["array"]}
		}
		return nil
	}}
}

// histories runs all sequences of at most depth operations from every start and compares the document with the model after
// every step.
func histories(c *core.Ctx, starts []string, ops []op, depth int, extra func(j *jom.JsonMap, m *model) string) {
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	c.Extra(fmt.Sprintf("operations_depth_%d", depth), names)
	c.Extra(fmt.Sprintf("starts_depth_%d", depth), starts)
	k := len(ops)
	runSeq := func(start string, w []int) *core.Fail {
		j := jom.New()
		m := &model{}
		st := opUnmarshal(start, true)
		if _, err := st.real(j); err != nil {
			return core.Failf(start, start, "unmarshal %s: %v", start, err)
		}
		st.ref(m)
		hist := []string{start}
		for _, x := range w {
			o := ops[x]
			hist = append(hist, o.name)
			before := &model{ref.Copy(m.root).(M), m.array}
			rerr := o.ref(m)
			if rerr == errSkip {
				*m = *before
				hist[len(hist)-1] += " (not applicable)"
				continue
			}
			if rerr != nil {
				*m = *before
			}
			var err error
			j, err = o.real(j)
			key := strings.Join(hist, " ; ")
			c.Transitions(1)
			if (err != nil) != (rerr != nil) {
				return core.Failf(key, hist, "%s: error %v, the model expects %v", key, err, rerr)
			}
			out, merr := j.Marshal()
			if merr != nil {
				return core.Failf(key, hist, "%s: cannot be marshalled: %v", key, merr)
			}
			if m.root != nil {
				var got string
				if p := try(func() { got = ref.Canon(ref.Parse(string(out))) }); p != nil {
					return core.Failf(key, hist, "%s: marshals to %s", key, out)
				}
				if got != ref.Canon(m.value()) || j.IsArray() != m.array {
					return core.Failf(key, hist, "%s: gives %s (array %v), the model has %s (array %v)", key, got, j.IsArray(), ref.Canon(m.value()), m.array)
				}
				if g := canonOf(j); g != ref.Canon(m.root) {
					return core.Failf(key, hist, "%s: holds %s, the model has %s", key, g, ref.Canon(m.root))
				}
			}
			if extra != nil {
				if s := extra(j, m); s != "" {
					return core.Failf(key, hist, "%s: %s", key, s)
				}
			}
			if rerr != nil {
				c.Outcome("failed " + strings.SplitN(o.name, " ", 2)[0])
			}
			reach(ref.Canon(m.value()))
		}
		c.Nontrivial(1)
		return nil
	}
	for l := 1; l <= depth; l++ {
		l := l
		var pre [][]int
		pl := 1
		if l >= 2 {
			pl = 2
		}
		words(k, pl, nil, func(w []int) bool { pre = append(pre, append([]int{}, w...)); return true })
		c.Parallel(len(pre)*len(starts), func(i int) {
			start := starts[i%len(starts)]
			words(k, l, pre[i/len(starts)], func(w []int) bool {
				w = append([]int{}, w...)
				c.Eval(1)
				c.Traces(1)
				c.Case(func() string {
					s := start
					for _, x := range w {
						s += " ; " + ops[x].name
					}
					return s
				}, func() *core.Fail { return runSeq(start, w) })
				return !c.Expired()
			})
		})
	}
}

func statesDone(c *core.Ctx) {
	var ss []string
	for i := range states {
		for s := range states[i].m {
			ss = append(ss, s)
		}
	}
	c.States(int64(len(ss)))
	sort.Strings(ss)
	for i := 0; i < 5; i++ {
		c.Sample(map[string]string{"reached": ss[i*(len(ss)-1)/4]})
	}
}

func c10(c *core.Ctx) {
	resetStates()
	c.Rule("all sequences of at most depth operations (menu below) from every start document; the object under test is never recreated within a history; after every step the marshalled document, the stored document and the kind of root are compared with the model; non-trivial: complete histories (states: different documents reached)")
	var js []string
	for s := range jsEffects {
		js = append(js, strings.TrimPrefix(s, scriptPrefix))
	}
	sort.Strings(js)
	ops := []op{opUnmarshal(`{"a":{"a":1,"l":[1,2]},"l":[3]}`, true), opUnmarshal(`[{"a":1},[2]]`, true), opUnmarshal(`{"a":`, false), opUnmarshal(`[1,`, false), opUnmarshal(`7`, false), opUnmarshal(`{}`, true),
		opUnmarshalAs("{a: {b: 2}, # x\n k: text\n}", `{"a":{"b":2},"k":"text"}`, true), opUnmarshalAs("[{a: 7}, [\n]\n x y\n]", `[{"a":7},[],"x y"]`, true), opUnmarshalAs("{a: 9, l: [", "", false), opUnmarshalAs("[{a: 1},", "", false), opUnmarshalAs("text", "", false),
		opSet("$.a", M{"l": A{A{}, nil}, "a": M{}}), opSet("$.l", A{1.0, 2.0, 3.0}), opSet("$..a", 5.0), opSet("$.a.zz.q", 1.0), opSet("$.a.l[0]", nil), opSet("$.*", nil), opSet("$.array[0]", A{M{"a": 2.0}}),
		opPush("$.l", M{"a": 1.0}, 0, 4), opPush("$.array", 8.0), opPop("$.l", 0, 1), opPop("$.array"),
		opMarkup("$.s", "js", js[0], true), opMarkup("$.a.t", "js", js[1], true), opMarkup("$.array[0].s", "js", js[2], true), opMarkup("$.s", "py", "x", false), opMarkup("s", "js", "x", false), opMarkup("$.r", "js", js[3], true),
		opStrip, opFind, opClone(false), opClone(true), opRun(), opRead("$..a"), opRead("$.l[0]"), opRoundtrip()}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	histories(c, []string{`{"a":{"a":1},"l":[]}`, `[1,2]`}, ops, depth, nil)
	// the histories in which the kind of root and the script bookkeeping change, deeper
	core10 := []op{opUnmarshal(`{"a":{"a":1,"l":[1,2]},"l":[3]}`, true), opUnmarshal(`[{"a":1},[2]]`, true), opUnmarshal(`[1,`, false), opUnmarshalAs("{b: 2}", `{"b":2}`, true), opSet("$.a", M{"a": 1.0}), opMarkup("$.s", "js", js[0], true), opMarkup("$.a.t", "js", js[0], true), opStrip, opFind, opClone(false), opRun()}
	d2 := 5
	if c.Thorough {
		d2 = 6
	}
	histories(c, []string{`{"a":{"a":1},"l":[]}`}, core10, d2, nil)
	// documents of every size
	size := 32
	if c.Thorough {
		size = 128
	}
	c.Extra("size", size)
	for n := size; n > 0; n-- {
		d := M{"o": wideObject(n), "l": longArray(n), "d": deepValue(n), "s": strings.Repeat("é ", n), strings.Repeat("k", n+1): scriptPrefix + js[0]}
		last := fmt.Sprint("$.o.k", n-1)
		ops := []op{opUnmarshal(ref.Canon(d), true), opUnmarshal(ref.Canon(A{d, d}), true), opSet(last, M{"l": A{}}), opSet(fmt.Sprintf("$.l[%d]", n-1), nil), opSet("$.o.*", 3.0), opSet("$..b", nil), opPush("$.l", 7.0, n, n/2), opPush("$.array", M{}), opPop("$.l", n-1, 0),
			opMarkup("$.o."+strings.Repeat("x", n), "js", js[1], true), opMarkup("$.array[0].s", "js", js[0], true), opStrip, opClone(false), opRun(), opRead("$..k0"), opRoundtrip()}
		c.Quiet(func() { histories(c, []string{ref.Canon(d), ref.Canon(A{1.0, d})}, ops, 2, nil) })
		if c.Expired() {
			break
		}
	}
	statesDone(c)
}

// c06: values given by the caller are kept and changed through the document afterwards.
func c06(c *core.Ctx) {
	c.Rule("all sequences of at most depth document operations, in which composite values are stored at several places and places inside of them are written afterwards; after every step the document and every value ever given by the caller are compared with a model of plain values; non-trivial: complete histories")
	type given struct {
		v    V
		want string
	}
	pad := 0 // the size of the values
	vals := []func() V{func() V {
		m := M{"a": append(A{1.0}, longArray(pad)...), "b": 2.0}
		if pad > 0 {
			m["o"], m["d"] = wideObject(pad), deepValue(pad)
		}
		return m
	}, func() V { return append(A{M{"a": 1.0}, A{2.0}}, longArray(pad)...) }}
	type wop struct {
		name string
		real func(j *jom.JsonMap, gs []*given) // gs: the values given, reused by all operations of a history
		ref  func(m M) (M, bool)
	}
	set := func(p string, vi int) wop {
		alts, err := ref.ParsePath(p)
		if err != nil {
			panic(p)
		}
		return wop{fmt.Sprintf("set %s = v%d", p, vi), func(j *jom.JsonMap, gs []*given) { j.MustSet(p, gs[vi].v) }, func(m M) (M, bool) {
			r, _, err := ref.Set(alts, m, vals[vi]())
			return r, err == nil
		}}
	}
	setS := func(p string, v V) wop {
		o := opSet(p, v)
		return wop{o.name, func(j *jom.JsonMap, gs []*given) { j.MustSet(p, v) }, func(m M) (M, bool) {
			mm := &model{root: m}
			err := o.ref(mm)
			return mm.root, err == nil
		}}
	}
	push := func(p string, vi int, idx ...int) wop {
		alts, _ := ref.ParsePath(p)
		return wop{fmt.Sprintf("push %s v%d %v", p, vi, idx), func(j *jom.JsonMap, gs []*given) { j.MustPush(p, gs[vi].v, idx...) }, func(m M) (M, bool) {
			a, ok := arrayAt(m, p)
			if !ok {
				return m, false
			}
			r, _, _ := ref.Set(alts, m, refPush(a, vals[vi](), idx))
			return r, true
		}}
	}
	pop := func(p string, idx ...int) wop {
		o := opPop(p, idx...)
		return wop{o.name, func(j *jom.JsonMap, gs []*given) { j.MustPop(p, idx...) }, func(m M) (M, bool) {
			mm := &model{root: m}
			err := o.ref(mm)
			return mm.root, err == nil
		}}
	}
	// storing what a read returned: the stored value must be independent of where it was read
	move := func(from, to string) wop {
		fa, _ := ref.ParsePath(from)
		ta, _ := ref.ParsePath(to)
		return wop{fmt.Sprintf("set %s = value read from %s", to, from), func(j *jom.JsonMap, gs []*given) { j.MustSet(to, j.MustGet(from)[0]) }, func(m M) (M, bool) {
			ns, err := ref.Get(fa, m)
			if err != nil || len(ns) == 0 || ns[0].V == nil {
				return m, false
			}
			r, _, err := ref.Set(ta, m, ns[0].V)
			return r, err == nil
		}}
	}
	ops := []wop{set("$.x", 0), set("$.x", 1), set("$.y", 0), set("$.l[*]", 0), set("$.l[0,1]", 1), set("$.*", 0), set("$..a", 1), set("$.l[0:2]", 0), set("$.l[?(true)]", 0),
		push("$.l", 0, 0, 2), push("$.l", 1), push("$.x.a", 0, 0, 1, 3), push("$.l[0].a", 1), pop("$.l", 0), move("$.x", "$.y"), move("$.l[0]", "$.l[1]"), move("$.y", "$.x.a"),
		setS("$.x.a", 77.0), setS("$.x.a[0]", 78.0), setS("$.l[0].a[0]", 79.0), setS("$.l[1].b", 80.0), setS("$.y.n", 81.0), setS("$..b", 82.0), setS("$.l[0].a", nil), setS("$.y[0].a", 83.0), setS("$.l[1][1][0]", 84.0)}
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	c.Extra("operations", names)
	c.Extra("values", []V{vals[0](), vals[1]()})
	c.Extra("depth", depth)
	k := len(ops)
	resetStates()
	start := M{"x": M{"a": 1.0}, "y": 2.0, "l": A{3.0, 4.0}}
	run := func(w []int) *core.Fail {
		j := doc(start)
		m := ref.Copy(start).(M)
		gs := []*given{}
		for _, v := range vals {
			x := v()
			gs = append(gs, &given{x, ref.Canon(x)})
		}
		var hist []string
		for _, x := range w {
			o := ops[x]
			nm, ok := o.ref(ref.Copy(m).(M))
			if !ok {
				hist = append(hist, o.name+" (not applicable)")
				continue
			}
			hist = append(hist, o.name)
			m = nm
			key := strings.Join(hist, " ; ")
			if p := try(func() { o.real(j, gs) }); p != nil {
				return core.Failf(key, hist, "%s: panic %v", key, p)
			}
			c.Transitions(1)
			if g := canonOf(j); g != ref.Canon(m) {
				return core.Failf(key, hist, "%s: gives %s instead of %s", key, g, ref.Canon(m))
			}
			for i, g := range gs {
				if ref.Canon(g.v) != g.want {
					return core.Failf(key, hist, "%s: the caller's value v%d became %s", key, i, ref.Canon(g.v))
				}
			}
			reach(ref.Canon(m))
		}
		// the caller changing its values must not show in the document either
		for _, g := range gs {
			spoil(g.v)
		}
		if g := canonOf(j); g != ref.Canon(m) {
			key := strings.Join(hist, " ; ") + " ; the caller changes its values"
			return core.Failf(key, hist, "%s: the document became %s instead of staying %s", key, g, ref.Canon(m))
		}
		c.Nontrivial(1)
		return nil
	}
	size := 20
	if c.Thorough {
		size = 80
	}
	c.Extra("size", size)
	for pad = size; pad > 0; pad-- {
		c.Parallel(k*k, func(i int) {
			c.Eval(1)
			c.Traces(1)
			c.Case(func() string { return fmt.Sprint("size ", pad, " history ", i/k, i%k) }, func() *core.Fail { return run([]int{i / k, i % k}) })
		})
		if c.Expired() {
			break
		}
	}
	pad = 0
	for l := 1; l <= depth; l++ {
		l := l
		n := k
		if l >= 2 {
			n = k * k
		}
		c.Parallel(n, func(i int) {
			pre := []int{i}
			if l >= 2 {
				pre = []int{i / k, i % k}
			}
			words(k, l, pre, func(w []int) bool {
				w = append([]int{}, w...)
				c.Eval(1)
				c.Traces(1)
				c.Case(func() string { return fmt.Sprint("history ", w) }, func() *core.Fail { return run(w) })
				return !c.Expired()
			})
		})
	}
	statesDone(c)
}

// spoil changes everything inside of a value in place.
func spoil(v V) {
	switch x := v.(type) {
	case M:
		for _, e := range x {
			spoil(e)
		}
		x["spoilt"] = true
	case A:
		for i, e := range x {
			spoil(e)
			x[i] = "spoilt"
		}
	}
}
