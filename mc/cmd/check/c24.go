package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/andygello555/json-dom/jom"
	hjson "github.com/hjson/hjson-go"

	"verif/core"
	"verif/ref"
)

func init() { register("C24", "exploration", c24) }

// sameJSON compares values as JSON (-0 and 0 are the same number).
func sameJSON(a, b V) bool {
	switch x := a.(type) {
	case M:
		y, ok := b.(M)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !sameJSON(e, f) {
				return false
			}
		}
		return true
	case A:
		y, ok := b.(A)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	}
	return a == b
}

// text writes a value as JSON with every character of a string outside of printable ASCII escaped (or, if raw, as few as
// possible), independent of encoding/json.
func jsonText(v V, raw bool) string {
	var b strings.Builder
	var w func(v V)
	str := func(s string) {
		b.WriteByte('"')
		for _, r := range s {
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r < 0x20 || (!raw && r > 0x7e && r <= 0xffff):
				fmt.Fprintf(&b, "\\u%04X", r)
			case !raw && r > 0xffff:
				r -= 0x10000
				fmt.Fprintf(&b, "\\u%04x\\u%04x", 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
	}
	w = func(v V) {
		switch x := v.(type) {
		case M:
			b.WriteByte('{')
			for i, k := range ref.Keys(x) {
				if i > 0 {
					b.WriteByte(',')
				}
				str(k)
				b.WriteByte(':')
				w(x[k])
			}
			b.WriteByte('}')
		case A:
			b.WriteByte('[')
			for i, e := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				w(e)
			}
			b.WriteByte(']')
		case string:
			str(x)
		case nil:
			b.WriteString("null")
		default:
			s, _ := json.Marshal(x)
			b.Write(s)
		}
	}
	w(v)
	return b.String()
}

// hjsonText writes a value in one of several hjson styles.
func hjsonText(v V, style int) string {
	var b strings.Builder
	plainKey := func(k string) bool {
		if k == "" {
			return false
		}
		for _, r := range k {
			if !(r >= 'a' && r <= 'z' || r == '_' || r == '$' || r > 0x3000 && r < 0xa000) {
				return false
			}
		}
		return true
	}
	quoted := func(s string, q byte) string {
		j := jsonText(s, true)
		if q == '\'' {
			j = "'" + strings.ReplaceAll(strings.ReplaceAll(j[1:len(j)-1], "\\\"", "\""), "'", "\\u0027") + "'"
		}
		return j
	}
	key := func(k string) string {
		if plainKey(k) {
			return k
		}
		return quoted(k, '"')
	}
	// unquoted strings: begin and end with a letter, one line, no keyword
	plain := func(s string) bool {
		if s == "" || strings.ContainsAny(s, "\n\r") || s == "null" || s == "true" || s == "false" {
			return false
		}
		for _, k := range []string{"null", "true", "false"} {
			if strings.HasPrefix(s, k) {
				return false
			}
		}
		l := s[len(s)-1]
		return (s[0] >= 'a' && s[0] <= 'z') && (l >= 'a' && l <= 'z' || strings.IndexByte("}],#:'\"/*\\-", l) >= 0)
	}
	multi := func(s string) bool {
		return !strings.ContainsAny(s, "\r'\t\v\f\b\x00\x1f ") && s != "" && s[0] != '\n' && s[len(s)-1] != '\n'
	}
	var w func(v V, ind string)
	w = func(v V, ind string) {
		switch x := v.(type) {
		case M:
			b.WriteString("{")
			if style%2 == 0 {
				b.WriteString(" # comment }")
			}
			b.WriteString("\n")
			for i, k := range ref.Keys(x) {
				if style == 2 {
					b.WriteString(ind + "  // comment { ]\n")
				}
				b.WriteString(ind + "  " + key(k))
				if style == 3 {
					b.WriteString(" : /* c, */\t")
				} else {
					b.WriteString(": ")
				}
				w(x[k], ind+"  ")
				_ = i
				b.WriteString("\n")
			}
			b.WriteString(ind + "}")
		case A:
			b.WriteString("[\n")
			for i, e := range x {
				b.WriteString(ind + "  ")
				w(e, ind+"  ")
				// an unquoted string would take the comma
				if style == 1 {
					if s, ok := e.(string); !ok || !plain(s) {
						if i < len(x)-1 || i%2 == 0 {
							b.WriteString(",")
						}
					}
				}
				b.WriteString("\n")
			}
			b.WriteString(ind + "]")
		case string:
			switch {
			case style < 3 && plain(x):
				b.WriteString(x)
			case style >= 2 && multi(x):
				b.WriteString("'''" + strings.ReplaceAll(x, "\n", "\n"+ind) + "'''")
			case style%2 == 1:
				b.WriteString(quoted(x, '\''))
			default:
				b.WriteString(quoted(x, '"'))
			}
		case nil:
			b.WriteString("null")
		default:
			s, _ := json.Marshal(x)
			b.Write(s)
		}
	}
	w(v, "")
	s := b.String()
	if _, ok := v.(M); ok && style == 1 {
		// no braces around the root
		s = strings.TrimSuffix(strings.TrimPrefix(s, "{"), "}")
	}
	if style == 3 {
		s = "/* c [ */\n" + s + "\n# end\n"
	}
	return s
}

// roundTrip: the text is accepted, gives the value v, and so does its rendering.
func roundTrip(j *jom.JsonMap, text string, v V) string {
	if err := j.Unmarshal([]byte(text)); err != nil {
		return fmt.Sprintf("Unmarshal(%q): %v", text, err)
	}
	_, isArr := v.(A)
	if j.IsArray() != isArr {
		return fmt.Sprintf("after Unmarshal(%q), IsArray is %v", text, j.IsArray())
	}
	out, err := j.Marshal()
	if err != nil {
		return fmt.Sprintf("Marshal after Unmarshal(%q): %v", text, err)
	}
	var w V
	if err := json.Unmarshal(out, &w); err != nil || !sameJSON(v, w) {
		return fmt.Sprintf("Unmarshal(%q) and Marshal give %s (want %s) %v", text, out, jsonText(v, true), err)
	}
	h := j.String()
	j2 := jom.New()
	if err := j2.Unmarshal([]byte(h)); err != nil {
		return fmt.Sprintf("String of %s gives %q, which is rejected: %v", out, h, err)
	}
	out2, err := j2.Marshal()
	if err != nil {
		return fmt.Sprintf("Marshal after Unmarshal(%q): %v", h, err)
	}
	w = nil
	if err := json.Unmarshal(out2, &w); err != nil || !sameJSON(v, w) {
		return fmt.Sprintf("String of %s gives %q, which is read as %s", out, h, out2)
	}
	if j2.IsArray() != isArr {
		return fmt.Sprintf("String of %s gives %q, for which IsArray is %v", out, h, j2.IsArray())
	}
	return ""
}

func c24(c *core.Ctx) {
	c.Rule("documents: all strings up to a length over awkward characters as values and keys at several places of object and array roots, a grid of numbers, all pairs of texts which look like something else (escapes, markup, names, verbs), sizes around the powers of two and ten, all small structures; each as JSON (escaped and raw) and in four hjson styles written from the known value; Unmarshal, Marshal, String and Unmarshal again must give the value; all token sequences up to a length: accepted exactly if an object or array in (h)json, with its value; non-trivial: texts which are accepted")
	chars := []string{"a", " ", "\n", "\r", "\t", "\"", "'", "\\", "#", "/", "*", ":", ",", "{", "}", "[", "]", "-", "1", ".", "e", "<", "\x00", "\x1f", "\x7f", "\u0085", "\u00a0", "\u00ad", "\u00e9", "\u2028", "\ufeff", "\ufffd", "\U0001f600", "'''", "null", "true", "\\u0041", "#//!js\n"}
	n := 3
	hn := 2
	if c.Thorough {
		hn = 3
	}
	c.Extra("characters", fmt.Sprintf("%q", chars))
	c.Extra("string_length", n)
	try1 := func(j *jom.JsonMap, text string, v V) {
		c.Eval(1)
		c.Case(func() string { return fmt.Sprintf("%q", text) }, func() *core.Fail {
			if w := roundTrip(j, text, v); w != "" {
				return core.Failf(text, text, "%s", w)
			}
			return nil
		})
		c.Nontrivial(1)
	}
	places := []func(s V) V{
		func(s V) V { return M{"a": s} },
		func(s V) V { return A{s} },
		func(s V) V { return M{"a": A{M{"b": s, "c": nil}, s, A{s}}, "b": M{"c": s}} },
	}
	for l := 0; l <= n; l++ {
		l := l
		nn := 1
		if l > 0 {
			nn = len(chars)
		}
		c.Parallel(nn, func(i int) {
			j := jom.New()
			var pre []int
			if l > 0 {
				pre = []int{i}
			}
			words(len(chars), l, pre, func(w []int) bool {
				s := ""
				for _, x := range w {
					s += chars[x]
				}
				for pi, p := range places {
					if pi == 2 && l > 2 && !c.Thorough {
						continue
					}
					v := p(s)
					try1(j, jsonText(v, false), v)
					if l < 3 || c.Thorough {
						try1(j, jsonText(v, true), v)
					}
					if l <= hn {
						for st := 0; st < 4; st++ {
							try1(j, hjsonText(v, st), v)
						}
					}
				}
				for _, v := range []V{M{s: 1.0}, A{M{s: M{s: A{}}}}} {
					try1(j, jsonText(v, false), v)
					if l <= hn {
						for st := 0; st < 4; st++ {
							try1(j, hjsonText(v, st), v)
						}
					}
				}
				return !c.Expired()
			})
		})
	}
	// every size
	size := 64
	if c.Thorough {
		size = 256
	}
	c.Extra("size", size)
	c.Parallel(size, func(i int) {
		n := size - i
		j := jom.New()
		str := func(x string) string { return strings.Repeat(x, n) }
		for _, v := range []V{wideObject(n), longArray(n), M{"d": deepValue(n)}, A{deepValue(n)}, M{"o": wideObject(n), "l": longArray(n), "d": A{deepValue(n)}, "z": "end"}, M{str("k"): M{str("k "): str("v")}}, M{"a": str("x\n"), "b": str(" ") + "x", "c": A{str("'"), str("\\\"")}}, A{str("é"), str("# "), str("1"), str("0") + ".5", str("\t"), str("x,")}} {
			try1(j, jsonText(v, false), v)
			try1(j, jsonText(v, true), v)
			for st := 0; st < 4; st++ {
				try1(j, hjsonText(v, st), v)
			}
		}
	})
	// sizes around those at which buffers end
	big := powers(100, 1<<17+1)
	c.Parallel(len(big), func(i int) {
		n := big[len(big)-1-i]
		j := jom.New()
		for x, p := range []string{"x", "é", "\\n", "\"", "\n", "\u2028"} {
			s := strings.Repeat(p, n)
			for y, v := range []V{M{"a": s, "b": "end"}, A{s, "end"}, M{s: "end"}} {
				if n > 5000 && (x+y)%3 != 0 {
					continue
				}
				try1(j, jsonText(v, x%2 == 0), v)
				try1(j, hjsonText(v, (x+y)%4), v)
			}
		}
		if n < 20000 {
			for _, v := range []V{wideObject(n), longArray(n)} {
				try1(j, jsonText(v, true), v)
				try1(j, hjsonText(v, n%4), v)
			}
		}
		// white space before, within and after
		for _, v := range []V{M{"a": 1.0}, A{nil}} {
			t := jsonText(v, true)
			w := strings.Repeat(" ", n)
			for _, text := range []string{w + t, t + w, t[:1] + w + t[1:], "#" + w + "\n" + t} {
				try1(j, text, v)
			}
		}
	})
	// texts which look like something else, two at a time
	like := lookalikes()
	c.Extra("lookalikes", len(like))
	c.Parallel(len(like), func(i int) {
		j := jom.New()
		for x, o := range like {
			a := like[i]
			for y, v := range []V{M{"k": a + o}, A{a, o}, M{a + o: o}, M{a: M{o: a}, "z": A{o + a}}} {
				try1(j, jsonText(v, (x+y)%2 == 0), v)
				if c.Thorough {
					try1(j, jsonText(v, (x+y)%2 == 1), v)
				}
				for st := 0; st < 4; st++ {
					if c.Thorough || (x+y)%4 == st {
						try1(j, hjsonText(v, st), v)
					}
				}
			}
		}
	})
	// numbers
	var nums []string
	for _, i := range []string{"0", "1", "9", "10", "100", "123456789", "4503599627370497", "9007199254740991", "9007199254740993", "123456789012345678", "18446744073709551615", "1000000000000000000000", "99999999999999999999999999"} {
		for _, f := range []string{"", ".0", ".5", ".1", ".000001", ".123456789012345678"} {
			for _, e := range []string{"", "e0", "E1", "e+5", "e-1", "e-7", "e20", "e21", "e22", "e100", "e-100", "e280", "e-320", "e-400"} {
				for _, s := range []string{"", "-"} {
					nums = append(nums, s+i+f+e)
				}
			}
		}
	}
	for _, f := range []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e23, 5e-324, math.Pi, 1.0 / 3, 1e6, 1e5, 123456, 1e-6, 1e-7} {
		nums = append(nums, strconv.FormatFloat(f, 'g', -1, 64), strconv.FormatFloat(-f, 'e', -1, 64))
	}
	c.Extra("numbers", len(nums))
	c.Parallel(len(nums), func(i int) {
		f, err := strconv.ParseFloat(nums[i], 64)
		if err != nil {
			return
		}
		j := jom.New()
		for _, p := range places {
			v := p(f)
			try1(j, strings.ReplaceAll(jsonText(p("NUM"), false), "\"NUM\"", nums[i]), v)
			for st := 0; st < 4; st++ {
				try1(j, strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(hjsonText(p("N\t"), st), "\"N\\u0009\"", nums[i]), "'N\\u0009'", nums[i]), "N\t", nums[i]), v)
			}
		}
	})
	// structures
	sn := 6
	if c.Thorough {
		sn = 7
	}
	g := &ref.Gen{Keys: []string{"a", "array"}, Scalars: []V{nil, true, false, 1.5, "", "x"}, MaxArr: 3}
	var vs []V
	for i := 1; i <= sn-1; i++ {
		vs = append(vs, g.Exactly(i)...)
	}
	g2 := &ref.Gen{Keys: []string{"a", "b", "array"}, Scalars: []V{nil, 2.0}, MaxArr: 4}
	for i := 1; i <= sn; i++ {
		vs = append(vs, g2.Exactly(i)...)
	}
	c.Extra("structures", len(vs))
	var used = make([]*jom.JsonMap, 64)
	for i := range used {
		used[i] = jom.New()
	}
	chunk := 512
	c.Parallel((len(vs)+chunk-1)/chunk, func(i int) {
		j := jom.New() // one object for all documents of the chunk: the previous ones must not show
		for k := i * chunk; k < (i+1)*chunk && k < len(vs); k++ {
			v := vs[k]
			switch v.(type) {
			case M, A:
			default:
				continue
			}
			try1(j, jsonText(v, false), v)
			for st := 0; st < 4; st++ {
				try1(j, hjsonText(v, st), v)
			}
		}
	})
	// token sequences: what is accepted
	toks := []string{"{", "}", "[", "]", ",", ":", "\"a\"", "a", "1", "null", "true", " ", "\n", "#", "/*", "*/", "'''", "-", "\x00"}
	tn := 5
	if c.Thorough {
		tn = 6
	}
	c.Extra("tokens", toks)
	c.Extra("tokens_length", tn)
	accept := func(s string) {
		c.Eval(1)
		c.Case(func() string { return fmt.Sprintf("%q", s) }, func() *core.Fail {
			var v V
			err := hjson.Unmarshal([]byte(s), &v)
			if json.Valid([]byte(s)) {
				v = nil
				err = json.Unmarshal([]byte(s), &v)
			}
			want := false
			if err == nil {
				switch v.(type) {
				case M, A:
					want = true
				}
			}
			j := jom.New()
			before := "{\"before\":[1]}"
			j.Unmarshal([]byte(before))
			err = j.Unmarshal([]byte(s))
			if want != (err == nil) {
				return core.Failf(s, s, "Unmarshal(%q): error %v, but the text is %s", s, err, map[bool]string{true: "an object or array", false: "no object or array"}[want])
			}
			if want {
				if w := roundTrip(j, s, v); w != "" {
					return core.Failf(s, s, "%s", w)
				}
				c.Nontrivial(1)
			}
			return nil
		})
	}
	for l := 0; l <= tn; l++ {
		l := l
		pl := l
		if pl > 2 {
			pl = 2
		}
		var pre [][]int
		words(len(toks), pl, nil, func(w []int) bool { pre = append(pre, append([]int{}, w...)); return true })
		c.Parallel(len(pre), func(i int) {
			words(len(toks), l, pre[i], func(w []int) bool {
				s := ""
				for _, x := range w {
					s += toks[x]
				}
				accept(s)
				return !c.Expired()
			})
		})
	}
	// a known one: escaped surrogates in hjson which is not JSON
	text := "{a: \"\\ud83d\\ude00\"}"
	if w := roundTrip(jom.New(), text, M{"a": "\U0001f600"}); w != "" {
		c.Violate(&core.Fail{Key: "escaped surrogates in hjson", What: w, Replay: text})
	}
	c.Sample(hjsonText(M{"a": "x y", "b": "a\nb", "c": A{1.0, "y", "'"}}, 1))
	c.Sample(hjsonText(M{"a": "x y", "b": "a\nb", "c": A{1.0, "y", "'"}}, 3))
	c.Sample(chars[len(chars)-1] + chars[3])
}
