package ref

import "errors"

// Node is a value returned by a read and the alternative it came from.
type Node struct {
	V V
	// Alt and Pos: index of the alternative and position within its unwrapped result (-1: not unwrapped)
	Alt, Pos int
}

var (
	ErrStep = errors.New("step cannot be taken")
	// ErrUnknown: the harness does not know the meaning (filter without a predicate)
	ErrUnknown = errors.New("unknown filter")
)

func isContainer(v V) bool {
	switch v.(type) {
	case M, A:
		return true
	}
	return false
}

func firstContainer(m M) (string, bool) {
	for _, k := range Keys(m) {
		if isContainer(m[k]) {
			return k, true
		}
	}
	return "", false
}

// span resolves a slice against a length; ok is false if it is outside of the array or ends before it starts.
func span(s Step, n int) (from, to int, ok bool) {
	from, to = 0, n
	if s.Start != nil {
		from = *s.Start
	}
	if s.End != nil {
		to = *s.End
	}
	if from < 0 {
		from += n
	}
	if to < 0 {
		to += n
	}
	return from, to, from >= 0 && to <= n && from <= to
}

// matches lists all values of the given name in v in document order (outer before inner).
func matches(v V, name string) (out []V) {
	switch x := v.(type) {
	case M:
		for _, k := range Keys(x) {
			if k == name {
				out = append(out, x[k])
			}
			out = append(out, matches(x[k], name)...)
		}
	case A:
		for _, e := range x {
			out = append(out, matches(e, name)...)
		}
	}
	return out
}

func pred(s Step, node V, root M) (bool, error) {
	if s.Pred == nil {
		return false, ErrUnknown
	}
	return s.Pred(node, root)
}

// getStep applies one selector to one value.
func getStep(s Step, cur V, root M) (V, error) {
	switch x := cur.(type) {
	case M:
		switch s.Kind {
		case Str:
			if v, ok := x[s.Name]; ok {
				return v, nil
			}
			return nil, ErrStep
		case Wild:
			out := A{}
			for _, k := range Keys(x) {
				out = append(out, x[k])
			}
			return out, nil
		case Filter:
			out := A{}
			for _, k := range Keys(x) {
				ok, err := pred(s, x[k], root)
				if err != nil {
					return nil, err
				}
				if ok {
					out = append(out, x[k])
				}
			}
			return out, nil
		case First:
			k, ok := firstContainer(x)
			if !ok {
				return nil, ErrStep
			}
			return x[k], nil
		case Rec:
			return flatten(matches(x, s.Name)), nil
		}
	case A:
		switch s.Kind {
		case Str:
			out := A{}
			for _, e := range x {
				if m, ok := e.(M); ok {
					if v, ok := m[s.Name]; ok {
						out = append(out, v)
					}
				}
			}
			return out, nil
		case Idx:
			if s.I < 0 || s.I >= len(x) {
				return nil, ErrStep
			}
			return x[s.I], nil
		case Wild:
			return x, nil
		case Filter:
			out := A{}
			for _, e := range x {
				ok, err := pred(s, e, root)
				if err != nil {
					return nil, err
				}
				if ok {
					out = append(out, e)
				}
			}
			return out, nil
		case Slice:
			from, to, ok := span(s, len(x))
			if !ok {
				return nil, ErrStep
			}
			return x[from:to:to], nil
		case Rec:
			return flatten(matches(x, s.Name)), nil
		}
	}
	return nil, ErrStep
}

// flatten: arrays found by a recursive lookup contribute their elements.
func flatten(vs []V) A {
	out := A{}
	for _, v := range vs {
		if a, ok := v.(A); ok {
			out = append(out, a...)
		} else {
			out = append(out, v)
		}
	}
	return out
}

// Get reads all alternatives: an array result contributes its elements.
func Get(alts []Alt, root M) ([]Node, error) {
	var out []Node
	var firstErr error
	for ai, alt := range alts {
		var cur V = root
		var err error
		for _, s := range alt {
			if cur, err = getStep(s, cur, root); err != nil {
				break
			}
		}
		if err != nil {
			if firstErr == nil || err == ErrUnknown {
				firstErr = err
			}
			continue
		}
		if a, ok := cur.(A); ok {
			for i, e := range a {
				out = append(out, Node{e, ai, i})
			}
		} else {
			out = append(out, Node{cur, ai, -1})
		}
	}
	if firstErr != nil {
		return nil, firstErr
	}
	return out, nil
}

// Set writes v (nil: deletes) at everything the alternatives address, one alternative after the other, and returns the
// new root. The given root is not changed. touched is the number of locations written/removed.
func Set(alts []Alt, root M, v V) (out M, touched int, err error) {
	w := &writer{v: v}
	cur := Copy(root).(M)
	for _, alt := range alts {
		w.root = cur
		n, err := w.apply(alt, cur)
		if err != nil {
			return nil, w.touched, err
		}
		cur = n.(M)
	}
	return cur, w.touched, nil
}

type writer struct {
	v       V
	root    M
	touched int
}

// put gives the new value of an addressed child.
func (w *writer) put(rest Alt, child V) (V, error) {
	if len(rest) == 0 {
		w.touched++
		return Copy(w.v), nil
	}
	return w.apply(rest, child)
}

func (w *writer) mapKey(m M, k string, rest Alt) error {
	if len(rest) == 0 && w.v == nil {
		if _, ok := m[k]; ok {
			w.touched++
		}
		delete(m, k)
		return nil
	}
	n, err := w.put(rest, m[k])
	if err != nil {
		return err
	}
	m[k] = n
	return nil
}

func (w *writer) arrIdx(a A, idx []int, rest Alt) (A, error) {
	if len(rest) == 0 && w.v == nil {
		gone := map[int]bool{}
		for _, i := range idx {
			gone[i] = true
		}
		out := A{}
		for i, e := range a {
			if gone[i] {
				w.touched++
			} else {
				out = append(out, e)
			}
		}
		return out, nil
	}
	for _, i := range idx {
		n, err := w.put(rest, a[i])
		if err != nil {
			return nil, err
		}
		a[i] = n
	}
	return a, nil
}

// rec applies rest at every occurrence of the name, inner occurrences first.
func (w *writer) rec(name string, rest Alt, t V) (V, error) {
	switch x := t.(type) {
	case M:
		for _, k := range Keys(x) {
			if k == name && len(rest) == 0 {
				continue
			}
			n, err := w.rec(name, rest, x[k])
			if err != nil {
				return nil, err
			}
			x[k] = n
		}
		if _, ok := x[name]; ok {
			if err := w.mapKey(x, name, rest); err != nil {
				return nil, err
			}
		}
		return x, nil
	case A:
		for i, e := range x {
			n, err := w.rec(name, rest, e)
			if err != nil {
				return nil, err
			}
			x[i] = n
		}
		return x, nil
	}
	return t, nil
}

func (w *writer) apply(alt Alt, t V) (V, error) {
	if len(alt) == 0 {
		return t, nil
	}
	s, rest := alt[0], alt[1:]
	switch x := t.(type) {
	case M:
		switch s.Kind {
		case Str:
			if _, ok := x[s.Name]; !ok && len(rest) > 0 {
				return nil, ErrStep
			}
			return x, w.mapKey(x, s.Name, rest)
		case Wild:
			for _, k := range Keys(x) {
				if err := w.mapKey(x, k, rest); err != nil {
					return nil, err
				}
			}
			return x, nil
		case Filter:
			var hit []string
			for _, k := range Keys(x) {
				ok, err := pred(s, x[k], w.root)
				if err != nil {
					return nil, err
				}
				if ok {
					hit = append(hit, k)
				}
			}
			for _, k := range hit {
				if err := w.mapKey(x, k, rest); err != nil {
					return nil, err
				}
			}
			return x, nil
		case First:
			k, ok := firstContainer(x)
			if !ok {
				return nil, ErrStep
			}
			return x, w.mapKey(x, k, rest)
		case Rec:
			return w.rec(s.Name, rest, x)
		}
	case A:
		switch s.Kind {
		case Str:
			for _, e := range x {
				if m, ok := e.(M); ok {
					if _, ok := m[s.Name]; ok {
						if err := w.mapKey(m, s.Name, rest); err != nil {
							return nil, err
						}
					}
				}
			}
			return x, nil
		case Idx:
			if s.I < 0 || s.I >= len(x) {
				return nil, ErrStep
			}
			return w.arrIdx(x, []int{s.I}, rest)
		case Wild:
			var idx []int
			for i := range x {
				idx = append(idx, i)
			}
			return w.arrIdx(x, idx, rest)
		case Filter:
			var idx []int
			for i, e := range x {
				ok, err := pred(s, e, w.root)
				if err != nil {
					return nil, err
				}
				if ok {
					idx = append(idx, i)
				}
			}
			return w.arrIdx(x, idx, rest)
		case Slice:
			from, to, ok := span(s, len(x))
			if !ok {
				return nil, ErrStep
			}
			var idx []int
			for i := from; i < to; i++ {
				idx = append(idx, i)
			}
			return w.arrIdx(x, idx, rest)
		case Rec:
			return w.rec(s.Name, rest, x)
		}
	}
	return nil, ErrStep
}
