package ref

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
)

type Kind int

const (
	Str Kind = iota
	Idx
	Wild
	Filter
	First
	Slice
	Rec
)

// Step is one selector. Start/End are nil for a missing side of a slice.
type Step struct {
	Kind       Kind
	Name       string // Str, Rec: property; Filter: expression
	I          int
	Start, End *int
	// Pred is the known meaning of a filter generated by the harness (nil if unknown). root is the document.
	Pred func(node V, root M) (bool, error)
}

func (s Step) String() string {
	p := func(i *int) string {
		if i == nil {
			return ""
		}
		return strconv.Itoa(*i)
	}
	switch s.Kind {
	case Str:
		return fmt.Sprintf("S(%q)", s.Name)
	case Idx:
		return fmt.Sprintf("I(%d)", s.I)
	case Wild:
		return "W"
	case Filter:
		return fmt.Sprintf("F(%q)", s.Name)
	case First:
		return "D"
	case Slice:
		return fmt.Sprintf("L(%s:%s)", p(s.Start), p(s.End))
	case Rec:
		return fmt.Sprintf("R(%q)", s.Name)
	}
	return "?"
}

// Alt is one alternative absolute path.
type Alt []Step

func (a Alt) String() string {
	var b strings.Builder
	for _, s := range a {
		b.WriteString(s.String())
		b.WriteByte(' ')
	}
	return b.String()
}

func AltsString(as []Alt) string {
	var b strings.Builder
	for _, a := range as {
		b.WriteString(a.String())
		b.WriteString("; ")
	}
	return b.String()
}

var errPath = errors.New("bad path")

func letter(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }

// ParsePath is the reference parser of JSONPath text.
func ParsePath(s string) ([]Alt, error) {
	if s == "" || s[0] != '$' {
		return nil, errPath
	}
	s = s[1:]
	var alts []Alt
	ext := func(choices ...Step) {
		if len(alts) == 0 {
			for _, c := range choices {
				alts = append(alts, Alt{c})
			}
			return
		}
		if len(choices) == 1 {
			for i := range alts {
				alts[i] = append(alts[i], choices[0]) // every alternative has its own memory
			}
			return
		}
		var n []Alt
		for _, a := range alts {
			for _, c := range choices {
				n = append(n, append(append(Alt{}, a...), c))
			}
		}
		alts = n
	}
	afterDot := false
	for strings.TrimSpace(s) != "" {
		c := s[0]
		switch {
		case c == '.':
			n := 0
			for n < len(s) && s[n] == '.' {
				n++
			}
			if afterDot {
				return nil, errPath
			}
			if n == 2 && len(s) > 2 && letter(s[2]) {
				e := nameEnd(s, 2)
				ext(Step{Kind: Rec, Name: s[2:e]})
				s = s[e:]
				afterDot = false
				continue
			}
			for i := 2; i < n; i++ {
				ext(Step{Kind: First})
			}
			s = s[n:]
			afterDot = true
			continue
		case c == '[':
			steps, l, err := bracket(s)
			if err != nil {
				return nil, err
			}
			ext(steps...)
			s = s[l:]
		case afterDot && c == '*':
			ext(Step{Kind: Wild})
			s = s[1:]
		case afterDot && letter(c):
			e := nameEnd(s, 0)
			ext(Step{Kind: Str, Name: s[:e]})
			s = s[e:]
		default:
			return nil, errPath
		}
		afterDot = false
	}
	return alts, nil
}

func nameEnd(s string, i int) int {
	for i < len(s) && (letter(s[i]) || digit(s[i]) || s[i] == '-') {
		i++
	}
	return i
}

// bracket parses an index, index list, slice, wildcard or filter at the start of s and returns its length.
func bracket(s string) ([]Step, int, error) {
	if strings.HasPrefix(s, "[?(") {
		l := filterLen(s)
		if l < 0 {
			return nil, 0, errPath
		}
		return []Step{{Kind: Filter, Name: s[3 : l-2]}}, l, nil
	}
	e := strings.IndexByte(s, ']')
	if e < 0 {
		return nil, 0, errPath
	}
	in := s[1:e]
	if in == "*" {
		return []Step{{Kind: Wild}}, e + 1, nil
	}
	num := func(t string, neg bool) (int, bool) {
		d := t
		if neg {
			d = strings.TrimPrefix(t, "-")
		}
		if d == "" {
			return 0, false
		}
		for i := 0; i < len(d); i++ {
			if !digit(d[i]) {
				return 0, false
			}
		}
		n, err := strconv.Atoi(t)
		return n, err == nil
	}
	if i := strings.IndexByte(in, ':'); i >= 0 {
		a, b := in[:i], in[i+1:]
		switch {
		case a == "" && b == "":
			return nil, 0, errPath
		case a == "":
			if n, ok := num(b, true); ok {
				return []Step{{Kind: Slice, End: &n}}, e + 1, nil
			}
		case b == "":
			if n, ok := num(a, true); ok {
				return []Step{{Kind: Slice, Start: &n}}, e + 1, nil
			}
		default:
			x, ok1 := num(a, false)
			y, ok2 := num(b, false)
			if ok1 && ok2 {
				return []Step{{Kind: Slice, Start: &x, End: &y}}, e + 1, nil
			}
		}
		return nil, 0, errPath
	}
	var out []Step
	for i, p := range strings.Split(in, ",") {
		if i > 0 {
			p = strings.TrimLeft(p, " \t\n\f\r")
		}
		n, ok := num(p, false)
		if !ok {
			return nil, 0, errPath
		}
		out = append(out, Step{Kind: Idx, I: n})
	}
	return out, e + 1, nil
}

// filterLen: a filter ends at its own ")]", which is outside string literals and nested brackets; if there is none it
// reaches up to the last ")]" of the line.
func filterLen(s string) int {
	line := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		line = s[:i]
	}
	last := strings.LastIndex(line, ")]")
	if last < 3 {
		return -1
	}
	depth := 0
	for i := 3; i <= last; {
		c := line[i]
		switch {
		case c == '\'' || c == '"':
			j := i + 1
			for j <= last && line[j] != c {
				if line[j] == '\\' {
					j++
				}
				j++
			}
			i = j + 1
			continue
		case c == '(' || c == '[':
			depth++
		case c == ')' && depth == 0 && line[i+1] == ']':
			return i + 2
		case c == ')' || c == ']':
			depth--
		}
		i++
	}
	return last + 2
}
