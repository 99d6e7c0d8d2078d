package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"

	"verif/mcrt"
	"verif/ref"
)

// orders are the scenarios about map iteration orders.
func orders() {
	writes("C04", []string{"$.*", "$..x", "$.a.*", "$.*.x", "$..y", "$.b[0,1].*", "$.n.m", "$...", "$..x.y"}, []interface{}{"v", map[string]interface{}{"x": 1.0}})
	writes("C05", []string{"$.*", "$..x", "$.a.*", "$.*.x", "$..y", "$.b[0,1].*", "$.b[0,1]", "$..x.y"}, []interface{}{nil})
	scriptOrders()
	strips()
}

const docO = `{"a":{"x":{"y":1},"y":2},"b":[{"x":3},{"x":{"x":4}}],"x":{"a":{"x":5}}}`

func writes(prop string, paths []string, values []interface{}) {
	for _, text := range []string{docO, docA, docB} {
		for _, path := range paths {
			for _, v := range values {
				text, path, v := text, path, v
				alts, err := ref.ParsePath(path)
				if err != nil {
					panic(err)
				}
				out, _, rerr := ref.Set(alts, ref.ParseM(text), v)
				want := ref.Canon(out)
				scenarios[prop] = append(scenarios[prop], scenario{
					name: fmt.Sprintf("%s = %s in %s", path, ref.Canon(v), text[:12]), bound: [2]int{2, 4}, orders: true, norace: true,
					mk: func() run {
						j := doc(text)
						got := ""
						return run{
							body: func() {
								if err := j.JsonPathSetter(path, ref.Copy(v)); err != nil {
									got = "error"
								} else {
									got = canon(j)
								}
							},
							judge: func(*mcrt.Outcome) (string, string) {
								if rerr != nil {
									if got != "error" {
										return "no error but " + got, "error"
									}
									return "", "error"
								}
								if got != want {
									return fmt.Sprintf("the document is %s, not %s", got, want), "result"
								}
								return "", "written"
							},
						}
					},
				})
			}
		}
	}
}

// tree is a scope with scripts.
type tree struct {
	scripts []string // keys
	kids    []string // keys of objects; "key[]" is an array
	sub     []tree
}

// text gives the document; each script logs the number of itself.
func (t tree) text(next *int, before map[[2]int]bool, above []int) string {
	var parts []string
	var own []int
	for _, k := range t.scripts {
		id := *next
		*next++
		for _, o := range own {
			before[[2]int{o, id}] = true
		}
		for _, o := range above {
			before[[2]int{o, id}] = true
		}
		own = append(own, id)
		b, _ := json.Marshal(fmt.Sprintf("#//!js\nconsole.log('<<%d>>'); json.trail.r%d = json.scopePath", id, id))
		parts = append(parts, fmt.Sprintf("%q:%s", k, b))
	}
	above = append(append([]int{}, above...), own...)
	i := 0
	for _, k := range t.kids {
		if strings.HasSuffix(k, "[]") {
			var es []string
			for n := 0; n < 2; n++ {
				es = append(es, t.sub[i+n].text(next, before, above))
			}
			i += 2
			parts = append(parts, fmt.Sprintf("%q:[%s]", strings.TrimSuffix(k, "[]"), strings.Join(es, ",")))
			continue
		}
		parts = append(parts, fmt.Sprintf("%q:%s", k, t.sub[i].text(next, before, above)))
		i++
	}
	return "{" + strings.Join(parts, ",") + "}"
}

var recordRe = regexp.MustCompile(`<<(\d+)>>`)

func scriptOrders() {
	leaf := tree{scripts: []string{"#"}}
	two := tree{scripts: []string{"#a", "#b"}}
	none := tree{}
	trees := []tree{
		{scripts: []string{"#1", "#2", "#3"}},
		{scripts: []string{"#1", "#10", "#2"}},
		{scripts: []string{"#", "#Z", "#a"}},
		{scripts: []string{"#"}, kids: []string{"a", "b"}, sub: []tree{leaf, leaf}},
		{scripts: []string{"#1", "#2"}, kids: []string{"A", "z"}, sub: []tree{two, leaf}},
		{kids: []string{"a", "b"}, sub: []tree{two, two}},
		{scripts: []string{"#"}, kids: []string{"l[]"}, sub: []tree{leaf, two}},
		{kids: []string{"a"}, sub: []tree{{kids: []string{"b", "c"}, sub: []tree{two, leaf}}}},
		{scripts: []string{"#"}, kids: []string{"a", "l[]"}, sub: []tree{none, two, leaf}},
		{scripts: []string{"#"}, kids: []string{"a"}, sub: []tree{{scripts: []string{"#1", "#2"}, kids: []string{"b"}, sub: []tree{two}}}},
	}
	for i, t := range trees {
		n := 0
		before := make(map[[2]int]bool)
		text := t.text(&n, before, nil)
		want := ""
		bound := 3
		if i == 4 || i == 9 {
			bound = 2
		}
		scenarios["C15"] = append(scenarios["C15"], scenario{
			name: fmt.Sprintf("tree %d", i), bound: [2]int{bound, 6}, orders: true, norace: true,
			mk: func() run {
				var log bytes.Buffer
				got := ""
				return run{
					body: func() {
						js.ExternalConsoleLogStdout = &log
						defer func() { js.ExternalConsoleLogStdout = io.Discard }()
						out, err := jom.Eval([]byte(text), false)
						got = fmt.Sprint(string(out), err)
					},
					judge: func(*mcrt.Outcome) (string, string) {
						if want == "" {
							want = got
						}
						if got != want {
							return fmt.Sprintf("the result is %s in one execution and %s in another", want, got), "result"
						}
						at := make(map[int]int)
						records := recordRe.FindAllStringSubmatch(log.String(), -1)
						for pos, r := range records {
							id, _ := strconv.Atoi(r[1])
							if _, ok := at[id]; ok || id >= n {
								return fmt.Sprintf("script %d has run more than once", id), "record"
							}
							at[id] = pos
						}
						if len(at) != n {
							return fmt.Sprintf("%d of %d scripts have run: %s", len(at), n, text), "missing"
						}
						for p := range before {
							if at[p[0]] > at[p[1]] {
								return fmt.Sprintf("script %d runs after script %d of %s", p[0], p[1], text), "order"
							}
						}
						return "", "run"
					},
				}
			},
		})
	}
}

func strips() {
	for _, text := range []string{
		`{"#":"#//!js\n","a":{"#":"#//!js\n","b":1,"#c":"#//!js\n"},"l":[{"#":"#//!js\n","#d":2}]}`,
		`{"#":1,"a":{"#":"#//!js\n","b":{"c":"#//!js\n"}},"b":{"a":{"#":"#//!js\n"},"c":{"#x":"#//!js\n"}}}`,
	} {
		text := text
		want := ""
		for _, op := range []string{"strip", "find", "strip twice"} {
			op := op
			want := want
			scenarios["C14"] = append(scenarios["C14"], scenario{
				name: op + " " + text[len(text)-20:], bound: [2]int{3, 6}, orders: true, norace: true,
				mk: func() run {
					j := doc(text)
					got := ""
					return run{
						body: func() {
							var found interface{}
							switch op {
							case "find":
								found = j.FindScriptFields()
							case "strip twice":
								j.Strip()
								j.Strip()
							default:
								j.Strip()
							}
							got = fmt.Sprint(found, canon(j))
						},
						judge: func(*mcrt.Outcome) (string, string) {
							if want == "" {
								want = got
							}
							if got != want {
								return fmt.Sprintf("the result is %s in one execution and %s in another", want, got), "result"
							}
							return "", "same"
						},
					}
				},
			})
		}
	}
}
