package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/andygello555/json-dom/jom"

	"verif/core"
	"verif/ref"
)

func init() { register("C27", "exploration", c27) }

type cliData struct {
	name, text string
	model      V // nil: cannot be read
	runs       func(m V) (V, bool)
}

type cliPair struct {
	flag  string
	pairs [][2]string // path, script
	bad   bool        // the flag is invalid
}

// cliRun runs the built tool.
func cliRun(bin, dir string, args []string) (out string, code int, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "GOMAXPROCS=2"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limitWriter{b: &o}, &limitWriter{b: &e}
	rerr := cmd.Run()
	if cmd.ProcessState == nil || ctx.Err() != nil {
		return o.String(), -1, fmt.Errorf("%v %v", rerr, ctx.Err())
	}
	return o.String(), cmd.ProcessState.ExitCode(), nil
}

// cliWant is what the library gives for one input. The documents it starts from and the marked up ones are also built by the
// model, see cliModel.
func cliWant(sub string, data string, pairs [][2]string, lang string, strip, eval bool) (s string, err error) {
	defer func() {
		// Strip panics if there is a script in an unsupported language
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	if sub == "eval" {
		out, err := jom.Eval([]byte(data), false)
		return string(out), err
	}
	j := jom.New()
	if err := j.Unmarshal([]byte(data)); err != nil {
		return "", err
	}
	if strip {
		j.Strip()
	}
	for _, p := range pairs {
		if err := j.MarkupCode(p[0], lang, p[1]); err != nil {
			return "", err
		}
	}
	if !eval {
		return j.String(), nil
	}
	b, err := j.Marshal()
	if err != nil {
		return "", err
	}
	out, err := jom.Eval(b, false)
	return string(out), err
}

// noConsole takes the records of console.log off the output (and counts them).
func noConsole(s string) (string, int) {
	n := 0
	var out []string
	for _, l := range strings.SplitAfter(s, "\n") {
		if strings.HasPrefix(l, "Print call from: ") {
			n++
			continue
		}
		if l == "\thello\n" {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, ""), n
}

func c27(c *core.Ctx) {
	c.Rule("the tool is built from /repo and run with all combinations of subcommand, inputs (one through -input or files; all pairs and triples of files), path-script pairs, language, -strip and -eval: standard output and exit status are compared with what the library gives for each input in order; -verbose and other ways of writing flags, missing and invalid flags, missing files; non-trivial: runs which are to succeed")
	work := os.Getenv("MC_WORK")
	if work == "" {
		work = os.TempDir()
	}
	dir, err := os.MkdirTemp(work, "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := buildTool(dir)
	datas := []struct{ name, text string }{
		{"empty.json", "{}"},
		{"script.json", `{"a":1,"s":"#//!js\njson.trail.x = 1"}`},
		{"array.json", `[{"s":"#//!js\njson.trail.y = 2"},3]`},
		{"plain.hjson", "a: 1 # comment\nb: [\n  x y\n  '''m\n  l'''\n]\n"},
		{"throws.json", `{"b":{"s":"#//!js\nthrow 'q'"}}`},
		{"malformed.json", `{"a":`},
		{"lang.json", `{"u":"#//!xx\n1"}`},
		{"scalar.json", "5"},
		{"console.json", `{"c":"#//!js\nconsole.log('hello'); json.trail.n = [1]"}`},
		{"deep one.json", `{"a":{"s":"#//!js\njson.trail.t = {k: null}"},"l":[[{"t":"#//!js\njson.trail.q = 'é'"}]]}`},
		{"odd.json", "{\"x\":\"\\r\\u0001 \",\"y\":1e400000}"},
		{"nothing.json", ""},
		{"odd2.json", `{"%d":"%s\n<>&","t":{"":0}}`},
	}
	for _, d := range datas {
		os.WriteFile(filepath.Join(dir, d.name), []byte(d.text), 0o644)
	}
	plainDatas := len(datas)
	// files of the same or odd names in different places
	for i, n := range []string{"folder/script.json", "folder/nested/script.json", "folder/nested/empty.json", "./folder/../folder/plain.hjson", "folder/Script.json", "SCRIPT.JSON", " script.json", "%d.json", "$.a.json", "script", ".script.json", "script.json.bak", "-script.json", "é.json", "e\u0301.json", dir + "/folder/absolute.json"} {
		p := n
		if !filepath.IsAbs(p) {
			p = filepath.Join(dir, n)
		}
		os.MkdirAll(filepath.Dir(p), 0o755)
		text := fmt.Sprintf(`{"a":"file %d","s":"#//!js\njson.trail.n = %d"}`, i, i)
		os.WriteFile(p, []byte(text), 0o644)
		datas = append(datas, struct{ name, text string }{n, text})
	}
	// the same file named in other ways
	for _, n := range []string{"./script.json", "folder/../script.json", dir + "/script.json", "./folder/script.json"} {
		for _, d := range datas {
			if d.name == strings.TrimPrefix(n, "./") || d.name == filepath.Base(n) && !strings.HasPrefix(n, "./") {
				datas = append(datas, struct{ name, text string }{n, d.text})
				break
			}
		}
	}
	js := func(kv ...string) (r [][2]string) {
		for i := 0; i < len(kv); i += 2 {
			r = append(r, [2]string{kv[i], kv[i+1]})
		}
		return r
	}
	pairs := []cliPair{
		{"$.n:json.trail.z = 9", js("$.n", "json.trail.z = 9"), false},
		{"$.n:json.trail.z = 9,$.m:json.trail.w = json.trail.a", js("$.n", "json.trail.z = 9", "$.m", "json.trail.w = json.trail.a"), false},
		{"$.m:json.trail.w = [1],$.array[0].n:json.trail.z = '%d',$.a:x", js("$.m", "json.trail.w = [1]", "$.array[0].n", "json.trail.z = '%d'", "$.a", "x"), false},
		{"$.n", js("$.n", "// No script specified"), false},
		{"$.n:", js("$.n", ""), false},
		{"$.array[0].n:json.trail.z = 9", js("$.array[0].n", "json.trail.z = 9"), false},
		{"$.nope.n:1", js("$.nope.n", "1"), false},
		{"$.n:throw 1", js("$.n", "throw 1"), false},
		{"$.n: json.trail.f = '<&\\u00e9'; ", js("$.n", " json.trail.f = '<&\\u00e9'; "), false},
		{"nope:1", nil, true},
		{"$.n:b:c", nil, true},
		{"", nil, true},
		{"$.n:1,", nil, true},
		{"$[?(:1", nil, true},
	}
	langs := []string{"", "js", "go", "xx", "JS"}
	okSep := func(out, want string) bool { return out == want+"\n" }
	_ = okSep
	type cse struct {
		args  []string
		datas []int
		sub   string
		pair  int // -1: none
		lang  string
		strip bool
		eval  bool
		fail  bool // invalid whatever the data
		verb  bool
	}
	var cases []cse
	inputArgs := func(ds []int, files bool) []string {
		if !files {
			return []string{"-input", datas[ds[0]].text}
		}
		var ns []string
		for _, d := range ds {
			ns = append(ns, datas[d].name)
		}
		return []string{"-files", strings.Join(ns, ",")}
	}
	addAll := func(ds []int, files bool, full bool) {
		noInput := !files && datas[ds[0]].text == ""
		cases = append(cases, cse{args: append([]string{"eval"}, inputArgs(ds, files)...), datas: ds, sub: "eval", pair: -1, fail: noInput})
		if len(ds) == 1 {
			cases = append(cases, cse{args: append([]string{"eval", "-verbose"}, inputArgs(ds, files)...), datas: ds, sub: "eval", pair: -1, fail: noInput, verb: true})
		}
		for pi, p := range pairs {
			for _, l := range langs {
				for fl := 0; fl < 4; fl++ {
					if !full && !(l == "" && (pi == 0 || pi == 2 || pi == 7)) {
						continue
					}
					if p.bad && (l != "" || fl > 0) {
						continue
					}
					k := cse{args: []string{"markup"}, datas: ds, sub: "markup", pair: pi, lang: "js", strip: fl&1 != 0, eval: fl&2 != 0, fail: p.bad || noInput}
					tail := append([]string{"-path-scripts", p.flag}, inputArgs(ds, files)...)
					if (pi+fl)%2 == 0 {
						// the order of flags does not matter
						k.args, tail = append(k.args, tail...), nil
					}
					if l != "" {
						k.lang = l
						k.args = append(k.args, "-language", l)
					}
					form := (pi + len(l)) % 3
					if k.strip {
						k.args = append(k.args, []string{"-strip", "--strip", "-strip=true"}[form])
					} else if form == 1 {
						k.args = append(k.args, "-strip=false")
					}
					if k.eval {
						k.args = append(k.args, []string{"-eval=true", "-eval", "--eval"}[form])
					} else if form == 2 {
						k.args = append(k.args, "-eval=false")
					}
					if pi == 1 && len(ds) == 1 && files {
						k.verb = true
						k.args = append(k.args, "-verbose")
					}
					k.args = append(k.args, tail...)
					cases = append(cases, k)
				}
			}
		}
	}
	for i := range datas {
		addAll([]int{i}, true, i < plainDatas)
		if i < plainDatas {
			addAll([]int{i}, false, true)
		}
		for j := range datas {
			if !c.Thorough && (i >= plainDatas || j >= plainDatas) {
				// files of odd names: pairs for evaluation only
				ds := []int{i, j}
				cases = append(cases, cse{args: append([]string{"eval"}, inputArgs(ds, true)...), datas: ds, sub: "eval", pair: -1})
				continue
			}
			addAll([]int{i, j}, true, c.Thorough)
			if c.Thorough && i < plainDatas && j < plainDatas {
				for k := 0; k < plainDatas; k++ {
					addAll([]int{i, j, k}, true, false)
				}
			}
		}
	}
	// triples and more of good documents: the order
	good := []int{1, 2, 3, 8, 9}
	words(len(good), 3, nil, func(w []int) bool {
		addAll([]int{good[w[0]], good[w[1]], good[w[2]]}, true, false)
		return true
	})
	cases = append(cases, cse{args: []string{"eval", "-files", "script.json,array.json,plain.hjson,deep one.json,odd2.json,empty.json,console.json,script.json"}, datas: []int{1, 2, 3, 9, 12, 0, 8, 1}, sub: "eval", pair: -1})
	// every number of files and pairs, and every length of an input
	size := 26
	if c.Thorough {
		size = 100
	}
	os.WriteFile(filepath.Join(dir, "big.json"), []byte(ref.Canon(M{"o": wideObject(size), "l": longArray(size * 10), "s": "#//!js\njson.trail.l.push('end')"})), 0o644)
	datas = append(datas, struct{ name, text string }{"big.json", ref.Canon(M{"o": wideObject(size), "l": longArray(size * 10), "s": "#//!js\njson.trail.l.push('end')"})})
	good = append(good, len(datas)-1)
	for k := 1; k <= size; k++ {
		var ds []int
		flag, pr := "", [][2]string{}
		for i := 0; i < k; i++ {
			ds = append(ds, good[(i*i+k)%len(good)])
			p := [2]string{fmt.Sprintf("$.n%d", i), fmt.Sprintf("json.trail.z%d = %d", i, k)}
			if i == k-1 {
				p = [2]string{"$." + strings.Repeat("m", k), "json.trail.y = '" + strings.Repeat("é ", k) + "'"}
			}
			pr = append(pr, p)
			flag += "," + p[0] + ":" + p[1]
		}
		pairs = append(pairs, cliPair{flag[1:], pr, false})
		cases = append(cases, cse{args: append([]string{"eval"}, inputArgs(ds, true)...), datas: ds, sub: "eval", pair: -1},
			cse{args: append([]string{"eval"}, inputArgs(append(append([]int{}, ds...), 4), true)...), datas: append(append([]int{}, ds...), 4), sub: "eval", pair: -1})
		for fl := 0; fl < 4; fl++ {
			for _, in := range [][]int{{1}, {len(datas) - 1}, {8, 3}} {
				x := cse{args: append([]string{"markup", "-path-scripts", flag[1:]}, inputArgs(in, true)...), datas: in, sub: "markup", pair: len(pairs) - 1, lang: "js", strip: fl&1 != 0, eval: fl&2 != 0}
				if x.strip {
					x.args = append(x.args, "-strip")
				}
				if x.eval {
					x.args = append(x.args, "-eval")
				}
				cases = append(cases, x)
			}
		}
	}
	// files of every form: lengths at which buffers end (as one line and as many), ends of lines, odd bytes and names
	form := func(name, text string) {
		os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644)
		datas = append(datas, struct{ name, text string }{name, text})
		ds := []int{len(datas) - 1, 1}
		cases = append(cases, cse{args: append([]string{"eval"}, inputArgs(ds[:1], true)...), datas: ds[:1], sub: "eval", pair: -1})
		for fl := 0; fl < 4; fl += 2 {
			x := cse{args: append([]string{"markup", "-path-scripts", pairs[0].flag}, inputArgs(ds, true)...), datas: ds, sub: "markup", pair: 0, lang: "js", eval: fl&2 != 0}
			if x.eval {
				x.args = append(x.args, "-eval")
			}
			cases = append(cases, x)
		}
	}
	most := 1<<17 + 1
	if c.Thorough {
		most = 1<<20 + 1
	}
	for _, n := range powers(1000, most) {
		form(fmt.Sprintf("line%d", n), `{"a":"`+strings.Repeat("x", n-10)+`"}`+"\n")
		if n%2 == 1 {
			form(fmt.Sprintf("lines%d", n), "{\"l\":["+strings.Repeat("1,\n", n/12)+"2],\"z\":\"end\"}\n")
			form(fmt.Sprintf("spaces%d", n), strings.Repeat(" ", n)+"{a: x\n}"+strings.Repeat("\n", n))
			form(fmt.Sprintf("comment%d", n), "// "+strings.Repeat("c", n)+"\n{\na: x\nb: '''\n  m\n  "+strings.Repeat("é", n/8)+"\n  '''\n}")
			form(fmt.Sprintf("script%d", n), ref.Canon(M{"s": "#//!js\n//" + strings.Repeat("c", n/2) + "\njson.trail.t = 1", "t": 0.0}))
		}
	}
	for i, e := range []string{"\n", "\r\n", "\r", "\n\n", "\n\r", "\t\n", " \n "} {
		form(fmt.Sprint("ends", i), strings.Join([]string{"{", "  a: one", "  b: two", "  c:", "  '''", "  m", "    n", "  o", "  '''", "  d: [1", "2", "]", "}", ""}, e))
		form(fmt.Sprint("json ends", i), strings.Join([]string{"{", "\"a\": \"x\",", "\"b\": [1,", "2]", "}", ""}, e))
		form(fmt.Sprint("no end", i), strings.Join([]string{"{", "a: 1", "b: x", "}"}, e))
	}
	for i, t := range lookalikes() {
		form(fmt.Sprint("odd", i), ref.Canon(M{t + "k": A{t + "v"}, "s": "#//!js\njson.trail.t = 1", "v": t + "v"}))
		if t != "" && !strings.ContainsAny(t, "/,\x00") && t != ".." && t != "." {
			form(t+"n", "{a: 1}")
			form(" "+t, "{a: "+fmt.Sprint(i)+"}")
		}
	}
	// missing and invalid
	ps := []string{"-path-scripts", "$.n:1"}
	for _, a := range [][]string{
		{}, {"nope"}, {"-input", "{}"}, {""}, {"eval"}, {"eval", "-input"}, {"eval", "-input", ""}, {"eval", "-files", ""}, {"eval", "-files"}, {"eval", "-nope", "-input", "{}"}, {"eval", "-strip", "-input", "{}"}, {"eval", "-eval", "-input", "{}"}, {"eval", "-path-scripts", "$.n:1", "-input", "{}"},
		{"markup", "-input", "{}"}, {"markup", "-files", "script.json"}, {"markup", "-input", "{}", "-path-scripts"}, append([]string{"markup"}, ps...), append([]string{"markup", "-strip=perhaps", "-input", "{}"}, ps...), append([]string{"markup", "-eval=2", "-input", "{}"}, ps...), append([]string{"markup", "-language"}, ps...), append([]string{"markup", "-input", "{}", "-language", ""}, ps...), append([]string{"markup", "-input", "{}", "-language", "jsjs"}, ps...),
		{"eval", "-files", "missing.json"}, {"eval", "-files", "script.json,missing.json"}, {"eval", "-files", "folder"}, {"eval", "-files", "script.json,"}, {"eval", "-files", ",script.json"}, {"eval", "-files", "script.json,folder,script.json"}, append([]string{"markup", "-files", "missing.json"}, ps...), append([]string{"markup", "-files", "folder"}, ps...), {"eval", "-verbose=x", "-input", "{}"}, {"EVAL", "-input", "{}"},
		{"eval", "-input", `{"s":"#//!js\nwhile (true) {}"}`}, {"markup", "-input", "{}", "-eval", "-path-scripts", "$.n:while (true) {}"},
	} {
		cases = append(cases, cse{args: a, pair: -1, fail: true})
	}
	c.Extra("runs", len(cases))
	c.Parallel(len(cases), func(i int) {
		k := cases[i]
		key := fmt.Sprintf("json-dom %q", k.args)
		c.Eval(1)
		c.Case(func() string { return key }, func() *core.Fail {
			var want []string
			fail := k.fail
			for _, d := range k.datas {
				if fail {
					break
				}
				var ps [][2]string
				if k.pair >= 0 {
					ps = pairs[k.pair].pairs
				}
				w, err := cliWant(k.sub, datas[d].text, ps, k.lang, k.strip, k.eval)
				if err != nil {
					fail = true
					break
				}
				want = append(want, w)
			}
			out, code, err := cliRun(bin, dir, k.args)
			if err != nil {
				return core.Failf(key, key, "%s: does not end by itself: %v", key, err)
			}
			if fail != (code != 0) {
				return core.Failf(key, key, "%s: exit status %d, output %q; should fail: %v", key, code, head(out, 500), fail)
			}
			text, n := noConsole(out)
			if k.verb {
				if !fail && !strings.HasSuffix(text, strings.Join(want, "\n")+"\n") {
					return core.Failf(key, key, "%s: the verbose output %q does not end in the result %q", key, head(text, 800), want)
				}
				return nil
			}
			all := ""
			for _, w := range want {
				all += w + "\n"
			}
			if !fail && text != all {
				return core.Failf(key, key, "%s: prints %q instead of %q", key, head(text, 800), head(all, 800))
			}
			if fail && !strings.HasPrefix(text, all) {
				return core.Failf(key, key, "%s: fails, but the results before that are not printed: %q instead of %q", key, head(text, 800), head(all, 800))
			}
			if !fail {
				c.Nontrivial(1)
				calls := 0
				for _, d := range k.datas {
					if datas[d].name == "console.json" && (k.sub == "eval" || k.eval && !k.strip) {
						calls++
					}
				}
				if n != calls {
					return core.Failf(key, key, "%s: %d records of console.log, expected %d: %q", key, n, calls, head(out, 500))
				}
				// the documents which are not evaluated, by the model
				if k.sub == "markup" && !k.eval && len(k.datas) == 1 {
					if f := cliModel(key, text, datas[k.datas[0]].text, pairs[k.pair].pairs, k.lang, k.strip); f != nil {
						return f
					}
				}
			}
			return nil
		})
	})
	// pairs which depend on each other: the same output every time
	for _, p := range []string{"$.a:1,$.a.b:2", "$.x:json.trail.n = (json.trail.n || 0) * 2 + 1,$.y:json.trail.n = (json.trail.n || 0) * 3 + 1,$.z:json.trail.n = (json.trail.n || 0) * 5 + 1", "$..k:1,$.a.k:2,$.k:3"} {
		outs := make([]string, 8)
		c.Parallel(len(outs), func(i int) {
			c.Eval(1)
			out, code, err := cliRun(bin, dir, []string{"markup", "-eval", "-input", `{"a":{"b":1,"k":0},"k":1}`, "-path-scripts", p})
			outs[i] = fmt.Sprint(out, code, err)
		})
		for _, o := range outs {
			if o != outs[0] && o != "" && outs[0] != "" {
				c.Violate(core.Failf("order of pairs "+p, p, "markup -path-scripts %q prints %q or %q", p, o, outs[0]))
			}
		}
	}
	c.Sample(cases[1].args)
	c.Sample(cases[len(cases)/2].args)
	c.Sample(cases[len(cases)-9].args)
}

// cliModel: the printed text is the document which the model gives.
func cliModel(key, text, data string, pairs [][2]string, lang string, strip bool) *core.Fail {
	get := func(s string) (V, bool) {
		j := jom.New()
		if j.Unmarshal([]byte(s)) != nil {
			return nil, false
		}
		return ref.Copy(*j.GetInsides()), true
	}
	m, ok := get(data)
	if !ok {
		return nil
	}
	if strip {
		m = refStrip(m, isAnyScript)
	}
	for _, p := range pairs {
		s := "#//!" + lang + "\n" + p[1]
		switch p[0] {
		case "$.array[0].n":
			m.(M)["array"].(A)[0].(M)["n"] = s
		default:
			m.(M)[p[0][2:]] = s
		}
	}
	if _, isArr := m.(M)["array"]; isArr {
		// what is outside of a root array is not printed
		m = M{"array": m.(M)["array"]}
	}
	g, ok := get(text)
	if !ok || ref.Canon(g) != ref.Canon(m) {
		return core.Failf(key, key, "%s: prints %q, which is not %s", key, head(text, 500), ref.Canon(m))
	}
	return nil
}
