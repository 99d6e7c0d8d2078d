package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/andygello555/json-dom/jom"

	"verif/core"
)

func init() { register("C34", "exploration", c34) }

// buildTool builds the tool from /repo into dir.
func buildTool(dir string) string {
	bin := filepath.Join(dir, "json-dom")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile("/repo/" + f)
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(dir, f), b, 0o644)
	}
	build := exec.Command("go", "build", "-modfile="+filepath.Join(dir, "go.mod"), "-o", bin, ".")
	build.Dir = "/repo"
	if out, err := build.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("the tool does not build: %v %s", err, out))
	}
	return bin
}

// The exit statuses of the kinds of failure.
const (
	exFlag      = 2
	exCommand   = 5
	exRequired  = 6
	exFile      = 7
	exUnmarshal = 9
	exEval      = 10
	exMarkup    = 11
)

// An input of the tool and what becomes of it: stage is the first one which fails (0: none).
type cliInput struct {
	name, text string
	missing    bool
	malformed  bool
	throws     bool // fails when its own scripts are run
	array      bool // the root is an array: it is kept under "array"
	has        map[string]bool
}

type cliMarkup struct {
	flag   string
	pairs  [][2]string
	lang   string
	reject bool   // the flag is invalid
	none   bool   // there is no flag
	badLng bool   // the language is not supported
	needs  string // property of the root object which has to be there (an object)
	throws bool   // the added script fails
}

func c34(c *core.Ctx) {
	c.Rule("the tool is built from /repo and run on all words of up to n inputs (good, malformed, failing, of an unsupported language, missing, a folder, empty names) with all combinations of subcommand, path-script pairs (good, none, invalid, nowhere to go, failing, of an unsupported language), -strip and -eval: a model of the order of the stages says which failure comes first; exit status, the results printed before it, the message of the kind and the error of the library within it are compared; non-trivial: runs which fail at a later input than the first or at a later stage than the flags")
	work := os.Getenv("MC_WORK")
	if work == "" {
		work = os.TempDir()
	}
	dir, err := os.MkdirTemp(work, "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := buildTool(dir)
	obj := map[string]bool{"o": true}
	ins := []cliInput{
		{name: "good.json", text: `{"a":1,"o":{},"s":"#//!js\njson.trail.x = 1"}`, has: obj},
		{name: "array.json", text: `[{"s":"#//!js\njson.trail.y = '%s'"},3]`, array: true},
		{name: "malformed.json", text: `{"a": %d`, malformed: true},
		{name: "throws.json", text: "{\"o\":{\"s\":\"#//!js\\nthrow new Error('q')\"},\"z\":0}", has: obj, throws: true},
		{name: "lang.json", text: `{"o":{"u":"#//!xx\n1"}}`, throws: true, has: obj},
		{name: "missing.json", missing: true},
		{name: "folder", missing: true},
		{name: "", missing: true},
		{name: "scalar.json", text: "5", malformed: true},
	}
	os.Mkdir(filepath.Join(dir, "folder"), 0o755)
	for i, in := range ins {
		if !in.missing {
			os.WriteFile(filepath.Join(dir, in.name), []byte(in.text), 0o644)
			continue
		}
		ins[i].has = nil
	}
	markups := []cliMarkup{
		{flag: "$.n:json.trail.z = 9", pairs: [][2]string{{"$.n", "json.trail.z = 9"}}},
		{flag: "$.n:json.trail.z = 9,$.o.n:json.trail.k = '%d'", pairs: [][2]string{{"$.n", "json.trail.z = 9"}, {"$.o.n", "json.trail.k = '%d'"}}, needs: "o"},
		{flag: "$.o.n:throw new Error('p')", pairs: [][2]string{{"$.o.n", "throw new Error('p')"}}, needs: "o", throws: true},
		{flag: "$.n:var", pairs: [][2]string{{"$.n", "var"}}, throws: true},
		{flag: "$.n:1", pairs: [][2]string{{"$.n", "1"}}, lang: "xx", badLng: true},
		{flag: "$.o.n:1", pairs: [][2]string{{"$.o.n", "1"}}, lang: "javascript", badLng: true},
		{flag: "$.none.n:1", pairs: [][2]string{{"$.none.n", "1"}}, needs: "none"},
		{none: true},
		{flag: "n:1", reject: true},
		{flag: "$.n:1:2", reject: true},
		{flag: "", reject: true},
		{flag: "$.n:1,", reject: true},
	}
	type run struct {
		args []string
		ins  []int
		m    *cliMarkup
		strp bool
		eval bool
		verb bool
		code int // -1: to be predicted
		text string
	}
	var runs []run
	n := 3
	if c.Thorough {
		n = 4
	}
	for k := 1; k <= n; k++ {
		words(len(ins), k, nil, func(w []int) bool {
			ds := append([]int{}, w...)
			var names []string
			for _, i := range ds {
				names = append(names, ins[i].name)
			}
			files := strings.Join(names, ",")
			runs = append(runs, run{args: []string{"eval", "-files", files}, ins: ds, code: -1})
			for mi := range markups {
				m := &markups[mi]
				for fl := 0; fl < 8; fl++ {
					// flags which are not all combined with long words
					if k == 3 && (fl > 3 || !(mi == 0 || mi == 1 || mi == 2 || mi == 4 || mi == 7)) || k == 3 && mi > 0 && fl != 2 || k == 2 && fl > 3 || k > 3 && (mi > 1 || fl != 2) || m.reject && fl > 0 {
						continue
					}
					r := run{ins: ds, m: m, strp: fl&1 != 0, eval: fl&2 != 0, verb: fl&4 != 0, code: -1, args: []string{"markup"}}
					if r.strp {
						r.args = append(r.args, "-strip")
					}
					if r.eval {
						r.args = append(r.args, "-eval")
					}
					if r.verb {
						r.args = append(r.args, "-verbose")
					}
					if m.lang != "" {
						r.args = append(r.args, "-language", m.lang)
					}
					if !m.none {
						r.args = append(r.args, "-path-scripts", m.flag)
					}
					r.args = append(r.args, "-files", files)
					runs = append(runs, r)
				}
			}
			return true
		})
	}
	// the same through -input
	for i, in := range ins {
		if in.missing {
			continue
		}
		runs = append(runs, run{args: []string{"eval", "-input", in.text}, ins: []int{i}, code: -1})
		for mi := range markups {
			m := &markups[mi]
			for fl := 0; fl < 4; fl++ {
				r := run{ins: []int{i}, m: m, strp: fl&1 != 0, eval: fl&2 != 0, code: -1, args: []string{"markup", "-input=" + in.text, fmt.Sprint("-strip=", fl&1 != 0), fmt.Sprint("-eval=", fl&2 != 0)}}
				if m.lang != "" {
					r.args = append(r.args, "--language", m.lang)
				}
				if !m.none {
					r.args = append(r.args, "--path-scripts="+m.flag)
				}
				runs = append(runs, r)
			}
		}
	}
	// commands and flags
	good := []string{"-input", "{}"}
	for _, a := range []string{"", "Eval", "evaluate", "-eval", "--help", "help", "mark", "eval ", "{}", "-input", "0"} {
		runs = append(runs, run{args: []string{a}, code: exCommand}, run{args: append([]string{a}, good...), code: exCommand}, run{args: append([]string{a, "-files", "good.json", "-path-scripts", "$.n:1"}), code: exCommand})
	}
	runs = append(runs, run{args: nil, code: exCommand})
	for _, s := range []string{"eval", "markup"} {
		ps := []string{s}
		if s == "markup" {
			ps = append(ps, "-path-scripts", "$.n:1", "-eval")
		}
		with := func(code int, text string, more ...string) {
			runs = append(runs, run{args: append(append([]string{}, ps...), more...), code: code, text: text})
		}
		with(exRequired, s)
		with(exRequired, s, "-input", "")
		with(exRequired, s, "-verbose=false")
		with(exFlag, "", "-nope")
		with(exFlag, "", "-nope", "-input", "{}")
		with(exFlag, "", "-input", "{}", "-nope=1")
		with(exFlag, "", "-input")
		with(exFlag, "", "-files")
		with(exFlag, "", "-input", "{}", "-verbose=maybe")
		with(exFile, "", "-files", "")
		with(exFile, "", "-files", ",")
		if s == "eval" {
			with(exFlag, "", "-strip", "-input", "{}")
			with(exFlag, "", "-eval", "-input", "{}")
			with(exFlag, "", "-language", "js", "-input", "{}")
			with(exFlag, "", "-path-scripts", "$.n:1", "-input", "{}")
		} else {
			with(exFlag, "", "-strip=2", "-input", "{}")
			with(exFlag, "", "-eval=", "-input", "{}")
			with(exFlag, "", "-input", "{}", "-language")
			with(exFlag, "", "-input", "{}", "-path-scripts")
			with(exFlag, "", "-input", "{}", "-path-scripts", "$.[")
		}
	}
	c.Extra("runs", len(runs))
	// one input: the status, the result or the text of the error
	one := func(r run, i int) (out string, code int, detail string) {
		in := ins[i]
		if r.m == nil {
			b, err := jom.Eval([]byte(in.text), false)
			if in.malformed || in.throws {
				return "", exEval, errText(err)
			}
			return string(b), 0, errText(err)
		}
		j := jom.New()
		err := j.Unmarshal([]byte(in.text))
		if in.malformed {
			return "", exUnmarshal, errText(err)
		}
		if r.strp && in.name == "lang.json" {
			return "", -2, "" // Strip does not take scripts of languages which are not there: not stated
		}
		if r.strp {
			j.Strip()
		}
		lang := r.m.lang
		if lang == "" {
			lang = "js"
		}
		fails := r.m.badLng || r.m.needs != "" && !in.has[r.m.needs]
		for _, p := range r.m.pairs {
			if err = j.MarkupCode(p[0], lang, p[1]); err != nil {
				break
			}
		}
		if fails {
			return "", exMarkup, errText(err)
		}
		if !r.eval {
			return j.String(), 0, ""
		}
		b, err := j.Marshal()
		if err != nil {
			return "", -2, ""
		}
		b, err = jom.Eval(b, false)
		// what is put beside the array of an array document is not part of it
		if r.m.throws && !in.array || in.throws && !r.strp {
			return "", exEval, errText(err)
		}
		return string(b), 0, errText(err)
	}
	var mu sync.Mutex
	messages := map[int]map[string]bool{}
	c.Parallel(len(runs), func(ri int) {
		r := runs[ri]
		key := fmt.Sprintf("json-dom %q", r.args)
		c.Eval(1)
		c.Case(func() string { return key }, func() *core.Fail {
			want, code, detail, results, at := "", r.code, "", 0, 0
			if code < 0 {
				code = 0
				switch {
				case r.m != nil && r.m.reject:
					code = exFlag
				default:
					for _, i := range r.ins {
						if ins[i].missing {
							code, detail = exFile, ins[i].name
							break
						}
					}
					if code != 0 {
						break
					}
					if r.m != nil && r.m.none {
						code = exRequired
						break
					}
					for at = range r.ins {
						o, k, d := one(r, r.ins[at])
						if code, detail = k, d; k != 0 {
							break
						}
						want += o + "\n"
						results++
					}
				}
			}
			if code == -2 {
				return nil
			}
			out, got, err := cliRun(bin, dir, r.args)
			if err != nil {
				return core.Failf(key, key, "%s: does not end by itself: %v", key, err)
			}
			if got != code {
				return core.Failf(key, key, "%s: exit status %d instead of %d (%s), output %q", key, got, code, detail, head(out, 500))
			}
			if code != 0 && code != exFlag && (at > 0 || code > exRequired) || code == 0 && len(r.ins) > 1 {
				c.Nontrivial(1)
			}
			if code == 0 && detail != "" {
				return core.Failf(key, key, "%s: the library gives the error %s, but the tool ends well: %q", key, detail, head(out, 500))
			}
			if r.verb {
				return nil
			}
			if !strings.HasPrefix(out, want) {
				return core.Failf(key, key, "%s: the %d results before the failure (status %d) are not printed: %q instead of %q", key, results, code, head(out, 600), head(want, 600))
			}
			rest := out[len(want):]
			if code == 0 || code == exFlag {
				if rest != "" {
					return core.Failf(key, key, "%s: prints %q on top of the results", key, head(rest, 600))
				}
				return nil
			}
			msg := rest
			if i := strings.IndexAny(rest, ":\n"); i >= 0 {
				msg = rest[:i]
			}
			if msg == "" || !strings.Contains(rest, detail) {
				return core.Failf(key, key, "%s: the message of status %d does not give the reason %q: %q", key, code, detail, head(rest, 600))
			}
			switch code {
			case exCommand:
				if !strings.Contains(rest, "\neval: ") || !strings.Contains(rest, "\nmarkup: ") {
					return core.Failf(key, key, "%s: the message does not list the subcommands: %q", key, head(rest, 600))
				}
			case exRequired:
				if !strings.Contains(rest, "\n"+r.args[0]+": ") {
					return core.Failf(key, key, "%s: the message does not describe the subcommand %s: %q", key, r.args[0], head(rest, 600))
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if messages[code] == nil {
				messages[code] = map[string]bool{}
			}
			messages[code][msg] = true
			return nil
		})
	})
	// each kind has a message of its own
	seen := map[string]int{}
	var codes []int
	for k := range messages {
		codes = append(codes, k)
	}
	sort.Ints(codes)
	for _, k := range codes {
		if len(messages[k]) != 1 {
			c.Violate(core.Failf(fmt.Sprint("messages of status ", k), fmt.Sprint(k), "failures of status %d start with different messages: %v", k, messages[k]))
		}
		for m := range messages[k] {
			if o, ok := seen[m]; ok {
				c.Violate(core.Failf(fmt.Sprint("messages of status ", k), fmt.Sprint(k), "failures of status %d and %d start with the same message %q", k, o, m))
			}
			seen[m] = k
		}
	}
	c.Extra("statuses", codes)
	c.Sample(runs[0].args)
	c.Sample(runs[len(runs)/2].args)
	c.Sample(runs[len(runs)-1].args)
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}
