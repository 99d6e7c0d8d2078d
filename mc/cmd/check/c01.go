package main

import (
	"fmt"
	"strings"

	"github.com/andygello555/json-dom/jom/json_map"

	"verif/core"
	"verif/ref"
)

func init() { register("C01", "exploration", c01) }

// documented: the path is written without any of the leniencies of the parser (trailing dots, surrounding white space), so
// that it has to be accepted.
func documented(s string) bool {
	t := strings.TrimRight(s, ".")
	return t == s && strings.TrimSpace(s) == s && s != "$" && s != ""
}

// checkParse compares the parser with the reference parser.
func checkParse(s string) *core.Fail {
	want, werr := ref.ParsePath(s)
	ps, err := json_map.ParseJsonPath(s)
	if err != nil {
		if werr == nil && documented(s) {
			return core.Failf("reject "+short(s), s, "path %q is rejected (%v) but consists of documented selectors: %s", short(s), err, ref.AltsString(want))
		}
		return nil
	}
	got, ok := altsOf(ps)
	if !ok {
		return core.Failf("odd "+short(s), s, "path %q is parsed to something which is no path: %v", short(s), ps)
	}
	if werr != nil {
		return core.Failf("accept "+short(s), s, "path %q is not a path but accepted as %s", short(s), short(ref.AltsString(got)))
	}
	if ref.AltsString(got) != ref.AltsString(want) {
		return core.Failf("differ "+short(s), s, "path %q is parsed as %s instead of %s", short(s), short(ref.AltsString(got)), short(ref.AltsString(want)))
	}
	return nil
}

// render writes one alternative back as text.
func render(a ref.Alt) string {
	var b strings.Builder
	b.WriteByte('$')
	firsts := 0
	for _, s := range a {
		if s.Kind == ref.First {
			firsts++
			continue
		}
		dots := ""
		if firsts > 0 {
			dots = ".." + strings.Repeat(".", firsts)
			firsts = 0
		}
		switch s.Kind {
		case ref.Str:
			if dots == "" {
				dots = "."
			}
			b.WriteString(dots + s.Name)
		case ref.Idx:
			fmt.Fprintf(&b, "%s[%d]", dots, s.I)
		case ref.Wild:
			b.WriteString(dots + "[*]")
		case ref.Filter:
			b.WriteString(dots + "[?(" + s.Name + ")]")
		case ref.Rec:
			b.WriteString(dots + ".." + s.Name)
		case ref.Slice:
			b.WriteString(dots + "[")
			if s.Start != nil {
				fmt.Fprint(&b, *s.Start)
			}
			b.WriteString(":")
			if s.End != nil {
				fmt.Fprint(&b, *s.End)
			}
			b.WriteString("]")
		}
	}
	if firsts > 0 {
		b.WriteString(".." + strings.Repeat(".", firsts))
	}
	return b.String()
}

// balanced: the filter body has properly nested brackets and closed string literals, so that its end is beyond doubt.
func balanced(body string) bool {
	var stack []byte
	for i := 0; i < len(body); i++ {
		switch c := body[i]; c {
		case '\'', '"':
			j := i + 1
			for j < len(body) && body[j] != c {
				if body[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(body) {
				return false
			}
			i = j
		case '(', '[':
			stack = append(stack, c)
		case ')', ']':
			o := byte('(')
			if c == ']' {
				o = '['
			}
			if len(stack) == 0 || stack[len(stack)-1] != o {
				return false
			}
			stack = stack[:len(stack)-1]
		case '\\':
			return false
		}
	}
	return len(stack) == 0
}

func parsePath(s string) (ps json_map.AbsolutePaths, err error) {
	err = tryErr(func() (e error) { ps, e = json_map.ParseJsonPath(s); return })
	return
}

// wreck changes everything within parsed paths.
func wreck(ps json_map.AbsolutePaths) {
	for i, p := range ps {
		for j := range p {
			if l, ok := p[j].Value.([]json_map.AbsolutePathKey); ok {
				for n := range l {
					l[n] = json_map.AbsolutePathKey{KeyType: json_map.Filter, Value: "w"}
				}
			}
			p[j] = json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "wrecked"}
		}
		// room behind it which is shared with others
		_ = append(p, json_map.AbsolutePathKey{KeyType: json_map.Wildcard})
		ps[i] = append(p, json_map.AbsolutePathKey{KeyType: json_map.StringKey, Value: "more"})
	}
	try(func() { ps.AddToAll(nil, false, json_map.AbsolutePathKey{KeyType: json_map.Wildcard}) })
}

func c01(c *core.Ctx) {
	c.Rule("every string over the listed alphabets up to the listed length, every token sequence up to the listed length, every filter body and every content of brackets up to the listed length, and tokens of every listed long length are parsed and compared with a reference parser; non-trivial: accepted by the parser")
	one := func(s string) {
		c.Eval(1)
		c.Case(func() string { return short(s) }, func() *core.Fail { return checkParse(s) })
		if _, err := ref.ParsePath(s); err == nil {
			c.Nontrivial(1)
		}
	}

	// (1) character strings
	alpha := []byte("$.[]*a_-01,:?() ")
	n := 6
	if c.Thorough {
		n = 7
	}
	c.Extra("char_alphabet", string(alpha))
	c.Extra("char_length_after_dollar", n)
	k := len(alpha)
	for l := 0; l <= 3; l++ {
		words(k, l, nil, func(w []int) bool {
			b := make([]byte, l)
			for i, x := range w {
				b[i] = alpha[x]
			}
			one(string(b))
			return !c.Expired()
		})
	}
	for l := 2; l <= n; l++ {
		l := l
		c.Parallel(k*k, func(p int) {
			b := make([]byte, l+1)
			b[0] = '$'
			words(k, l, []int{p / k, p % k}, func(w []int) bool {
				for i, x := range w {
					b[i+1] = alpha[x]
				}
				one(string(b))
				return !c.Expired()
			})
		})
	}

	// (2) token sequences
	tokens := []string{".", "..", "...", "....", ".....", "a", "b_1-c", "*", "Z9", ".key", "..key", "[0]", "[12]", "[0,1]", "[2, 1,0]", "[*]",
		"[0:1]", "[1:]", "[:2]", "[-1:]", "[:-1]", "[-1]", "[:]", "[0:-1]", "[?(@.a)]", "[?(@ > (1))]", "[?(@[0] == ')]')]", "[?('[?(')]", "[?(\"'\")]", "[?()]", "[1,]", "[007]", "[0,0,0]"}
	tl := 4
	if c.Thorough {
		tl = 5
	}
	c.Extra("tokens", tokens)
	c.Extra("token_sequence_length", tl)
	k = len(tokens)
	for l := 1; l <= tl; l++ {
		l := l
		c.Parallel(k, func(p int) {
			words(k, l, []int{p}, func(w []int) bool {
				s := "$"
				for _, x := range w {
					s += tokens[x]
				}
				one(s)
				return !c.Expired()
			})
		})
	}
	// what has been parsed belongs to the caller: it stays as it is when other paths are parsed, and changing it changes no
	// other result
	for l := 1; l <= 3; l++ {
		l := l
		c.Parallel(k, func(p int) {
			words(k, l, []int{p}, func(w []int) bool {
				s := "$"
				for _, x := range w {
					s += tokens[x]
				}
				first, err := parsePath(s)
				if err != nil {
					return !c.Expired()
				}
				c.Eval(1)
				c.Case(func() string { return "again " + s }, func() *core.Fail {
					before := fmt.Sprint(first)
					second, _ := parsePath(s)
					parsePath("$.zz[9,8][?(q)]..r[1:2].*...")
					wreck(second)
					parsePath("$.zz[9,8][?(q)]..r[1:2].*...")
					if after := fmt.Sprint(first); after != before {
						return core.Failf("again "+s, s, "what %q has been parsed to turns from %s into %s when the result of another call is changed", s, before, after)
					}
					wreck(first)
					return checkParse(s)
				})
				return !c.Expired()
			})
		})
	}
	// what is between brackets, character by character
	na := []byte("0178,:-+ xb_e.")
	nl := 5
	if c.Thorough {
		nl = 6
	}
	c.Extra("bracket_alphabet", string(na))
	c.Extra("bracket_length", nl)
	for l := 0; l <= nl; l++ {
		l := l
		c.Parallel(len(na), func(p int) {
			var pre []int
			if l > 0 {
				pre = []int{p}
			} else if p > 0 {
				return
			}
			b := make([]byte, l)
			words(len(na), l, pre, func(w []int) bool {
				for i, x := range w {
					b[i] = na[x]
				}
				one("$[" + string(b) + "]")
				if l <= 4 {
					one("$.a[" + string(b) + "].b")
					one("$.a_" + string(b))
				}
				return !c.Expired()
			})
		})
	}
	// index lists: n indices multiply the alternatives by n, up to length 12, and chains of lists
	for a := 1; a <= 12; a++ {
		for b := 0; b <= 12; b++ {
			s := "$.x[" + seq(a) + "]"
			if b > 0 {
				s += ".y[" + seq(b) + "]"
			}
			one(s)
			one(s + ".z")
			one(s + "[*][0,1]")
		}
	}
	// numbers of every length
	for l := 1; l <= 25; l++ {
		for _, d := range []string{"9", "1", "0"} {
			num := strings.Repeat(d, l)
			for _, f := range []string{"$[%s]", "$[0,%s]", "$[%s:]", "$[:%s]", "$[-%s:]", "$[:-%s]", "$[1:%s]", "$[%s,1]"} {
				one(fmt.Sprintf(f, num))
			}
		}
	}

	// (3) filter bodies
	fa := []string{"(", ")", "[", "]", "'", "\"", "\\", "@", "a", "é"}
	fl := 6
	if c.Thorough {
		fl = 7
	}
	c.Extra("filter_body_alphabet", strings.Join(fa, " "))
	c.Extra("filter_body_length", fl)
	suffixes := []struct {
		text string
		alt  ref.Alt
	}{{"", nil}, {".a", ref.Alt{{Kind: ref.Str, Name: "a"}}}, {"[0]", ref.Alt{{Kind: ref.Idx}}}, {"[?(@)]", ref.Alt{{Kind: ref.Filter, Name: "@"}}},
		{"[?(')]')]..a", ref.Alt{{Kind: ref.Filter, Name: "')]'"}, {Kind: ref.Rec, Name: "a"}}}}
	k = len(fa)
	for l := 0; l <= fl; l++ {
		l := l
		c.Parallel(k, func(p int) {
			var pre []int
			if l > 0 {
				pre = []int{p}
			} else if p > 0 {
				return
			}
			words(k, l, pre, func(w []int) bool {
				body := ""
				for _, x := range w {
					body += fa[x]
				}
				for _, sf := range suffixes {
					s := "$.x[?(" + body + ")]" + sf.text
					c.Eval(1)
					sf := sf
					c.Case(func() string { return s }, func() *core.Fail {
						ps, err := json_map.ParseJsonPath(s)
						if balanced(body) {
							want := append(ref.Alt{{Kind: ref.Str, Name: "x"}, {Kind: ref.Filter, Name: body}}, sf.alt...)
							c.Nontrivial(1)
							if err != nil {
								return core.Failf("reject "+s, s, "path %q is rejected: %v", s, err)
							}
							got, _ := altsOf(ps)
							if ref.AltsString(got) != ref.AltsString([]ref.Alt{want}) {
								return core.Failf("differ "+s, s, "path %q is parsed as %s instead of %s", s, ref.AltsString(got), want)
							}
							return nil
						}
						if err != nil {
							return nil
						}
						// where the filter ends is debatable, but nothing may get lost
						got, _ := altsOf(ps)
						if len(got) != 1 || render(got[0]) != s {
							return core.Failf("lost "+s, s, "path %q is parsed as %s: not what is written", s, ref.AltsString(got))
						}
						return nil
					})
				}
				return !c.Expired()
			})
		})
	}

	// (4) long tokens and long paths
	var lens []int
	for _, b := range []int{16, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 65536} {
		for d := -3; d <= 3; d++ {
			lens = append(lens, b+d)
		}
	}
	c.Extra("long_lengths", lens)
	c.Parallel(len(lens), func(i int) {
		l := lens[i]
		long := strings.Repeat("x", l-1) + "y"
		one("$." + long)
		one("$.." + long)
		one("$.a." + long + "[0].b")
		one("$[?(@." + long + ")]")
		one("$.a[?(@ == '" + long + "')].b[?(@.z)]")
		one("$.a[0]." + long + "." + long)
		one("$" + strings.Repeat(".", l))
		if l < 9000 {
			one("$" + strings.Repeat(".a", l/2))
			one("$" + strings.Repeat("[0]", l/3))
		}
		if l <= 3000 {
			one("$[" + strings.Repeat("1,", l/2) + "0]")
		}
	})
	c.Sample(map[string]string{"path": "$.x[2, 1,0]...a", "parsed": sampleParse("$.x[2, 1,0]...a")})
	c.Sample(map[string]string{"path": "$.x[?(')]')]..a", "parsed": sampleParse("$.x[?(')]')]..a")})
}

func seq(n int) string {
	var p []string
	for i := n - 1; i >= 0; i-- {
		p = append(p, fmt.Sprint(i))
	}
	return strings.Join(p, ",")
}

func sampleParse(s string) string {
	ps, err := json_map.ParseJsonPath(s)
	if err != nil {
		return "error: " + err.Error()
	}
	a, _ := altsOf(ps)
	return ref.AltsString(a)
}
