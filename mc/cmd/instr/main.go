// Command instr rewrites Go packages so that their concurrency goes through verif/mcrt.
//
//	instr MODFILE OUT
//
// It copies the modules of json-dom, gotils and otto below OUT and rewrites their sources there. It runs in the directory of
// the module verif, MODFILE is the go.mod to use.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

const (
	jsonDom = "github.com/andygello555/json-dom"
	gotils  = "github.com/andygello555/gotils"
	otto    = "github.com/robertkrimen/otto"
)

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path, Dir string }
}

func fail(args ...interface{}) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(1)
}

func main() {
	if len(os.Args) != 3 {
		fail("usage: instr MODFILE OUT")
	}
	modfile, out := os.Args[1], os.Args[2]
	cmd := exec.Command("go", "list", "-modfile="+modfile, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module",
		jsonDom+"/jom", jsonDom+"/code/js", jsonDom+"/code/go")
	cmd.Stderr = os.Stderr
	list, err := cmd.Output()
	if err != nil {
		fail("go list:", err)
	}
	exports := make(map[string]string)
	var pkgs []*pkg
	mods := make(map[string]string)
	for dec := json.NewDecoder(bytes.NewReader(list)); ; {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fail(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && (p.Module.Path == jsonDom || p.Module.Path == gotils || p.Module.Path == otto) {
			pkgs = append(pkgs, p)
			mods[p.Module.Path] = p.Module.Dir
		}
	}
	for path, dir := range mods {
		if err := copyTree(dir, filepath.Join(out, filepath.Base(path)), path); err != nil {
			fail(err)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if exports[path] == "" {
			return nil, fmt.Errorf("no export data of %s", path)
		}
		return os.Open(exports[path])
	})
	for _, p := range pkgs {
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			fail(err)
		}
		if err := rewritePackage(fset, imp, p, filepath.Join(out, filepath.Base(p.Module.Path), rel)); err != nil {
			fail(p.ImportPath, err)
		}
	}
}

var goLine = regexp.MustCompile(`(?m)^go 1\.(\d+).*$`)

// copyTree copies the Go files of a module and makes its go.mod ask for a language version with generics.
func copyTree(from, to, path string) error {
	err := filepath.Walk(from, func(name string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, name)
		if info.IsDir() {
			if base := filepath.Base(name); rel != "." && (strings.HasPrefix(base, ".") || base == "testdata") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		if !strings.HasSuffix(name, ".go") && filepath.Base(name) != "go.mod" || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		data, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), data, 0644)
	})
	if err != nil {
		return err
	}
	mod := filepath.Join(to, "go.mod")
	data, err := os.ReadFile(mod)
	if err != nil {
		data = []byte("module " + path + "\n\ngo 1.13\n")
	}
	text := string(data)
	if m := goLine.FindStringSubmatch(text); m == nil {
		text += "\ngo 1.21\n"
	} else if len(m[1]) == 1 || m[1] < "21" {
		text = goLine.ReplaceAllString(text, "go 1.21")
	}
	return os.WriteFile(mod, []byte(text), 0644)
}

func rewritePackage(fset *token.FileSet, imp types.Importer, p *pkg, to string) error {
	var files []*ast.File
	sources := make(map[*ast.File][]byte)
	names := make(map[*ast.File]string)
	for _, name := range p.GoFiles {
		data, err := os.ReadFile(filepath.Join(p.Dir, name))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), data, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
		sources[f], names[f] = data, name
	}
	info := &types.Info{Types: make(map[ast.Expr]types.TypeAndValue), Uses: make(map[*ast.Ident]types.Object), Defs: make(map[*ast.Ident]types.Object)}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	for _, f := range files {
		r := &rewriter{fset: fset, info: info, src: sources[f], file: fset.File(f.Pos()), two: make(map[*ast.UnaryExpr]bool),
			full: p.Module.Path != otto}
		text := r.render(f, 0, len(r.src))
		if r.used {
			// on the line of the package clause so that the lines stay the same
			at := r.off(f.Name.End())
			head := r.src[:at]
			text = string(head) + "; import mcrt__ \"verif/mcrt\"" + strings.TrimPrefix(text, string(head))
		}
		if err := os.WriteFile(filepath.Join(to, names[f]), []byte(text), 0644); err != nil {
			return err
		}
	}
	return nil
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	src  []byte
	file *token.File
	two  map[*ast.UnaryExpr]bool // receives with two results
	used bool
	full bool // also the clocks and locks, not just channels and maps
	n    int
}

func (r *rewriter) off(p token.Pos) int { return r.file.Offset(p) }

type edit struct {
	from, to int
	text     string
}

// render gets the text between the offsets, which lies within the node, with all parts of it rewritten.
func (r *rewriter) render(n ast.Node, from, to int) string {
	var edits []edit
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			return false
		}
		if _, isFile := x.(*ast.File); isFile {
			return true
		}
		if r.off(x.Pos()) < from || r.off(x.End()) > to {
			// only parts which lie inside
			return r.off(x.Pos()) < to && r.off(x.End()) > from
		}
		if text, ok := r.rewrite(x); ok {
			edits = append(edits, edit{r.off(x.Pos()), r.off(x.End()), text})
			return false
		}
		return true
	})
	sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b strings.Builder
	at := from
	for _, e := range edits {
		b.Write(r.src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(r.src[at:to])
	return b.String()
}

func (r *rewriter) text(n ast.Node) string { return r.inner(n, r.off(n.Pos()), r.off(n.End())) }

// inner renders the node itself, too.
func (r *rewriter) inner(n ast.Node, from, to int) string {
	if text, ok := r.rewrite(n); ok {
		return text
	}
	return r.render(n, from, to)
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		if id, isId := e.(*ast.Ident); isId && r.info.Uses[id] != nil {
			return r.info.Uses[id].Type().Underlying()
		}
		return nil
	}
	return tv.Type.Underlying()
}

func isChan(t types.Type) bool { _, ok := t.(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := t.(*types.Map); return ok }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) markTwo(e ast.Expr) {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.two[u] = true
	}
}

var standins = map[string][2]string{
	`"sync"`:        {"sync", "verif/mcrt/msync"},
	`"time"`:        {"time", "verif/mcrt/mtime"},
	`"sync/atomic"`: {"atomic", "verif/mcrt/matomic"},
	`"context"`:     {"context", "verif/mcrt/mctx"},
}

func (r *rewriter) rewrite(n ast.Node) (string, bool) {
	switch n := n.(type) {
	case *ast.ImportSpec:
		s, ok := standins[n.Path.Value]
		if !ok || !r.full {
			return "", false
		}
		name := s[0]
		if n.Name != nil {
			name = n.Name.Name
		}
		return fmt.Sprintf("%s %q", name, s[1]), true
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			r.markTwo(n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			r.markTwo(n.Values[0])
		}
	case *ast.SendStmt:
		r.used = true
		return fmt.Sprintf("mcrt__.Send(%s)(%s)", r.text(n.Chan), r.text(n.Value)), true
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			r.used = true
			f := "Recv"
			if r.two[n] {
				f = "Recv2"
			}
			return fmt.Sprintf("mcrt__.%s(%s)", f, r.text(n.X)), true
		}
	case *ast.CallExpr:
		if sel, ok := unparen(n.Fun).(*ast.SelectorExpr); ok && len(n.Args) == 0 && sel.Sel.Name == "MapKeys" {
			if t := r.info.Types[sel.X].Type; t != nil && t.String() == "reflect.Value" {
				r.used = true
				return fmt.Sprintf("mcrt__.MapKeys(%s)", r.text(sel.X)), true
			}
		}
		if id, ok := unparen(n.Fun).(*ast.Ident); ok && len(n.Args) == 1 {
			if b, isBuiltin := r.info.Uses[id].(*types.Builtin); isBuiltin {
				switch {
				case b.Name() == "close":
					r.used = true
					return fmt.Sprintf("mcrt__.Close(%s)", r.text(n.Args[0])), true
				case b.Name() == "len" && isChan(r.under(n.Args[0])):
					r.used = true
					return fmt.Sprintf("mcrt__.Len(%s)", r.text(n.Args[0])), true
				}
			}
		}
	case *ast.GoStmt:
		return r.goStmt(n), true
	case *ast.RangeStmt:
		return r.rangeStmt(n)
	case *ast.SelectStmt:
		return r.selectStmt(n), true
	}
	return "", false
}

func (r *rewriter) goStmt(n *ast.GoStmt) string {
	r.used = true
	call := n.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && lit.Type.Results == nil {
		return fmt.Sprintf("mcrt__.Go(%s)", r.text(lit))
	}
	tv := r.info.Types[call.Fun]
	if tv.IsBuiltin() || tv.IsType() {
		return fmt.Sprintf("mcrt__.Go(func() { %s })", r.text(call))
	}
	r.n++
	names, values := []string{fmt.Sprintf("mcrtF%d", r.n)}, []string{r.text(call.Fun)}
	var args []string
	for i, a := range call.Args {
		t := r.info.Types[a]
		if t.Value != nil || t.IsNil() {
			args = append(args, r.text(a))
			continue
		}
		if _, multi := t.Type.(*types.Tuple); multi {
			args = append(args, r.text(a))
			continue
		}
		name := fmt.Sprintf("mcrtA%d_%d", r.n, i)
		names, values = append(names, name), append(values, r.text(a))
		args = append(args, name)
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	return fmt.Sprintf("{ %s := %s; mcrt__.Go(func() { %s(%s%s) }) }", strings.Join(names, ", "), strings.Join(values, ", "),
		names[0], strings.Join(args, ", "), dots)
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) (string, bool) {
	t := r.under(n.X)
	var vars []ast.Expr
	iter := "IterMap"
	switch {
	case t != nil && isMap(t):
		vars = []ast.Expr{n.Key, n.Value}
	case t != nil && isChan(t):
		vars, iter = []ast.Expr{n.Key}, "IterChan"
	default:
		return "", false
	}
	if n.Tok == token.ASSIGN {
		for i, v := range vars {
			if blank(v) {
				continue
			}
			if ix, isIndex := unparen(v).(*ast.IndexExpr); isIndex && isMap(r.under(ix.X)) {
				return "", false
			}
			want := elemType(t, i)
			if vt := r.info.Types[v].Type; vt == nil || want == nil || !types.Identical(vt, want) {
				return "", false
			}
		}
	}
	r.used = true
	r.n++
	it := fmt.Sprintf("mcrtIt%d", r.n)
	var decl, args []string
	for _, v := range vars {
		switch {
		case blank(v):
			decl, args = append(decl, "_"), append(args, "nil")
		case n.Tok == token.ASSIGN:
			decl, args = append(decl, "_"), append(args, "&("+r.text(v)+")")
		default:
			name := v.(*ast.Ident).Name
			decl, args = append(decl, name), append(args, "&"+name)
		}
	}
	return fmt.Sprintf("for %s, %s := mcrt__.%s(%s); %s.Next(%s); %s", strings.Join(decl, ", "), it, iter, r.text(n.X), it,
		strings.Join(args, ", "), r.text(n.Body)), true
}

func elemType(t types.Type, i int) types.Type {
	switch t := t.(type) {
	case *types.Map:
		if i == 0 {
			return t.Key()
		}
		return t.Elem()
	case *types.Chan:
		return t.Elem()
	}
	return nil
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) string {
	r.used = true
	if len(n.Body.List) == 0 {
		return "mcrt__.Block()"
	}
	var names, values []string
	var clauses []string
	def := false
	for _, c := range n.Body.List {
		def = def || c.(*ast.CommClause).Comm == nil
	}
	for _, c := range n.Body.List {
		clause := c.(*ast.CommClause)
		head := "default:"
		if clause.Comm != nil {
			r.n++
			name := fmt.Sprintf("mcrtC%d", r.n)
			i := len(names)
			names = append(names, name)
			head = fmt.Sprintf("case %d:", i)
			switch comm := clause.Comm.(type) {
			case *ast.SendStmt:
				values = append(values, fmt.Sprintf("mcrt__.CaseSend(%s)(%s)", r.text(comm.Chan), r.text(comm.Value)))
			case *ast.ExprStmt:
				values = append(values, fmt.Sprintf("mcrt__.CaseRecv(%s)", r.text(unparen(comm.X).(*ast.UnaryExpr).X)))
			case *ast.AssignStmt:
				values = append(values, fmt.Sprintf("mcrt__.CaseRecv(%s)", r.text(unparen(comm.Rhs[0]).(*ast.UnaryExpr).X)))
				var lhs []string
				for _, l := range comm.Lhs {
					lhs = append(lhs, r.text(l))
				}
				get := "Get"
				if len(lhs) == 2 {
					get = "Get2"
				}
				head += fmt.Sprintf(" %s %s %s.%s();", strings.Join(lhs, ", "), comm.Tok, name, get)
			}
		}
		body := ""
		if len(clause.Body) > 0 {
			body = r.render(clause, r.off(clause.Colon)+1, r.off(clause.End()))
		}
		clauses = append(clauses, head+body)
	}
	if !def {
		// a switch without default is no terminating statement
		last := clauses[len(clauses)-1]
		clauses[len(clauses)-1] = "default:" + last[strings.IndexByte(last, ':')+1:]
	}
	init := ""
	if len(names) > 0 {
		init = fmt.Sprintf("%s := %s; ", strings.Join(names, ", "), strings.Join(values, ", "))
	}
	args := ""
	for _, name := range names {
		args += ", " + name
	}
	return fmt.Sprintf("switch %smcrt__.Select(%v%s) {\n%s\n}", init, def, args, strings.Join(clauses, "\n"))
}
