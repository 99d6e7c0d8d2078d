package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"

	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/jom"

	"verif/mcrt"
	"verif/ref"
)

// same are the scenarios about everything having the same outcome each time.
func same() {
	add := func(prop, name string, bound [2]int, f func(log *bytes.Buffer) string) {
		want := ""
		scenarios[prop] = append(scenarios[prop], scenario{
			name: name, bound: bound, orders: true, norace: true, small: true,
			mk: func() run {
				var log bytes.Buffer
				got := ""
				return run{
					body: func() {
						js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = &log, &log
						defer func() { js.ExternalConsoleLogStdout, js.ExternalConsoleLogStderr = io.Discard, io.Discard }()
						got = f(&log)
					},
					judge: func(*mcrt.Outcome) (string, string) {
						if want == "" {
							want = got
						}
						if got != want {
							return fmt.Sprintf("the outcome is %s in one execution and %s in another", want, got), "outcome"
						}
						return "", "same"
					},
				}
			},
		})
	}
	script := func(s string) string {
		b, _ := json.Marshal("#//!js\nvar t = json.trail; var keys = function (o) { var s = []; for (var x in o) s.push(x); return s.join() + Object.keys(o).join() };\n" + s)
		return string(b)
	}
	data := `"o":{"q":1,"a":{"z":1,"y":2},"r":[{"n":1,"m":2}]},"l":[{"b":1,"a":2},{"c":3,"a":4}]`
	eval := func(prop, name, text string) {
		add(prop, name, [2]int{2, 3}, func(log *bytes.Buffer) string {
			out, err := jom.Eval([]byte(text), false)
			return fmt.Sprint(string(out), err, log)
		})
	}
	for _, s := range []string{
		"t.x = keys(t)", "t.x = [keys(t.o), keys(t.o.a), keys(t.o.r[0]), keys(t.l[1])]", "for (var k in t) { t.first = k; break }", "for (var k in t.o) console.log(k)",
		"t.x = JSON.stringify(t.o)", "console.log(t.o); console.error(t.l, t.o.r)", "t.x = keys(json)", "t.x = keys(console)",
		"var n = json.jsonPathSelector('$.l[0:1].a'); t.x = [keys(n), keys(n._absolutePaths[0]), keys(n._absolutePaths[0][0]), keys(n._absolutePaths[0][1].key[0])]",
		"t.x = keys(json.jsonPathSelector('$.o').getValues()[0])", "t.x = json.jsonPathSelector('$.o.*').getValues().map(keys)", "t.x = json.jsonPathSelector('$..a').getValues()",
		"json.jsonPathSelector('$.o').setValues({g: 1, f: 2, e: {d: 3, c: 4}}); t = json.trail; t.x = [keys(t), keys(t.o), keys(t.o.e)]",
		"t.x = json.jsonPathSelector(\"$.l[?(Object.keys(@)[0] === 'a')]\").getValues()", "var s = ''; for (var k in t.o) s += k; throw s", "for (var k in t.o) json.jsonPathSelector('$.no.' + k).getValues()",
		"for (var k in t.o) { delete t.o[k]; break }", "for (var k in t.l[0]) t['n' + k] = '#//!js\\nconsole.log(json.scopePath)'", "t.x = keys(this)", "var i = 0; for (var k in t) t[k] = i++",
	} {
		eval("C32", "script "+s, `{"s":`+script(s)+`,`+data+`}`)
	}
	// several of them fail or print, in objects next to each other
	thr := func(s string) string { return `{"#":` + script("console.log('runs "+s+"'); throw '"+s+"'") + `}` }
	prt := func(s string) string {
		return `{"#":` + script("console.log('"+s+"'); t.x = '"+s+"'") + `,"in":{"#":` + script("console.error('in "+s+"')") + `}}`
	}
	uns := func(s string) string { return `{"#":"#//!` + s + `\ntext"}` }
	for i, one := range []func(string) string{thr, prt, uns} {
		name := []string{"throw", "print", "unsupported"}[i]
		eval("C32", "objects "+name, `{"a":`+one("a")+`,"b":`+one("b")+`,"c":{"d":`+one("d")+`,"e":`+one("e")+`}}`)
		eval("C32", "arrays "+name, `{"a":[1,`+one("a")+`],"b":[[`+one("b")+`],`+one("c")+`],"c":{"d":`+one("d")+`}}`)
	}
	eval("C32", "mixed", `{"a":`+prt("a")+`,"b":`+thr("b")+`,"c":`+prt("c")+`,"d":`+uns("d")+`}`)
	eval("C32", "mixed without unsupported ones", `{"a":`+prt("a")+`,"b":`+thr("b")+`,"c":`+prt("c")+`,"d":`+thr("d")+`}`)
	// reads by filters which look at the order of keys, or fail
	for _, p := range []string{"$.l[?(Object.keys(@)[0] === 'a')]", "$.l[?(keys = '', (function () { for (var k in @) { keys += k } })(), keys === 'ab')]", "$.o[?(Object.keys(@)[0] === 'y')]", "$.l[*][?(nothing)]", "$.o[?(@.x.y)]", "$..a[?(no)]", "$.*[?(JSON.stringify(@)[2] === 'b')]", "$.o[?(Object.keys($.o)[0] === 'a')]"} {
		p := p
		add("C32", "read "+p, [2]int{2, 3}, func(*bytes.Buffer) string {
			return nodeText(doc(`{` + data + `}`).JsonPathSelector(p))
		})
	}
	// several paths at once, some of which or all of which fail
	for _, p := range []string{"$.l[7,0,8]", "$.l[0,1].a[0]", "$.l[0,1,0].c", "$.l[0,1].no", "$.l[1,0].*", "$.l[0,1]..a", "$.l[0,1][?(no)]", "$.o.r[0,3,0,2]", "$.l[0,1][?(throw @)]", "$.l[0,1].a.b"} {
		p := p
		add("C32", "read "+p, [2]int{2, 3}, func(*bytes.Buffer) string {
			return nodeText(doc(`{` + data + `}`).JsonPathSelector(p))
		})
	}
	for _, p := range []string{"$.l[0,7,8]", "$.l[0,1].no", "$.l[0,1].c"} {
		eval("C32", "script getValues "+p, `{"s":`+script("try { t.x = json.jsonPathSelector('"+p+"').getValues() } catch (e) { t.x = String(e) } json.jsonPathSelector('"+p+".q').getValues()")+`,`+data+`}`)
	}
	// writes, also those which fail half way
	d := `{"a":{"x":{"y":1},"z":2},"b":{"x":3},"c":{"x":{"y":4}},"d":[{"x":{"y":5}},{"x":6},{"x":{"y":7}}]}`
	for _, p := range []string{"$.*.x.y", "$.*.x", "$..x.y", "$.d[*].x.y", "$.d[2,1,0].x.y", "$.*[?(@.y)]", "$.*[?(@.x.y)].x", "$.*[0].x", "$...x", "$..x..y", "$.*.no.x", "$.d[?(@.x.y)].x.y.z", "$.*.*.y"} {
		for _, op := range []string{"set", "delete", "markup", "push", "pop"} {
			p, op := p, op
			if (op == "push" || op == "pop") && p != "$.*.x" && p != "$.*[0].x" && p != "$..x.y" {
				continue
			}
			add("C32", op+" "+p, [2]int{2, 3}, func(*bytes.Buffer) string {
				j := doc(d)
				var res interface{}
				func() {
					defer func() {
						if r := recover(); r != nil {
							res = fmt.Sprint("panics ", r)
						}
					}()
					switch op {
					case "set":
						res = j.JsonPathSetter(p, map[string]interface{}{"n": 1.0, "m": 2.0})
					case "delete":
						res = j.JsonPathSetter(p, nil)
					case "markup":
						res = j.MarkupCode(p, "js", "1")
					case "push":
						j.MustPush(p, "v", 0)
					case "pop":
						res = j.MustPop(p, 0)
					}
				}()
				return fmt.Sprint(ref.Canon(*j.GetInsides()), res)
			})
		}
	}
	// a known one: otto
	eval("C32parse", "JSON.parse in a script", `{"s":`+script("t.x = keys(JSON.parse('{\"b\":1,\"a\":2}'))")+`}`)
}
