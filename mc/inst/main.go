// Command inst copies a Go module and rewrites its concurrency operations to calls of vsched,
// vsync and vatomic. Channel types, values and the order of evaluation stay as they are.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const base = "verif.local/mc/"

func main() {
	src := flag.String("src", "", "module to copy")
	dst := flag.String("dst", "", "where to")
	flag.Parse()
	if err := run(*src, *dst); err != nil {
		fmt.Fprintln(os.Stderr, "inst:", err)
		os.Exit(1)
	}
}

type pkg struct {
	path  string
	dir   string
	files []*ast.File
	names []string
	types *types.Package
	info  *types.Info
	bad   bool // the types are incomplete
	busy  bool
}

type module struct {
	path string
	fset *token.FileSet
	pkgs map[string]*pkg
	std  types.Importer
}

func run(src, dst string) error {
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return err
	}
	m := &module{fset: token.NewFileSet(), pkgs: map[string]*pkg{}}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			m.path = strings.Trim(f[1], `"`)
		}
	}
	m.std = importer.ForCompiler(m.fset, "source", nil)
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		if b, err := os.ReadFile(filepath.Join(src, f)); err == nil {
			if err := os.WriteFile(filepath.Join(dst, f), b, 0o644); err != nil {
				return err
			}
		}
	}
	err = filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if n := fi.Name(); rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
			return filepath.SkipDir
		}
		if rel != "." {
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		bp, err := build.ImportDir(p, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				return nil
			}
			if _, ok := err.(*build.MultiplePackageError); !ok {
				return nil
			}
		}
		k := &pkg{path: m.path, dir: p}
		if rel != "." {
			k.path = m.path + "/" + filepath.ToSlash(rel)
		}
		for _, f := range bp.GoFiles {
			a, err := parser.ParseFile(m.fset, filepath.Join(p, f), nil, parser.ParseComments)
			if err != nil {
				return err
			}
			k.files = append(k.files, a)
			k.names = append(k.names, f)
		}
		if len(k.files) > 0 {
			m.pkgs[k.path] = k
		}
		return nil
	})
	if err != nil {
		return err
	}
	for _, k := range m.pkgs {
		m.check(k)
	}
	for _, k := range m.pkgs {
		rel, _ := filepath.Rel(src, k.dir)
		d := filepath.Join(dst, rel)
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
		cold := k.cold()
		for i, f := range k.files {
			w := &rewriter{info: k.info, fset: m.fset}
			changed := w.file(f)
			if cold.addTo(i, f) {
				changed = true
			}
			var out []byte
			if !changed {
				if out, err = os.ReadFile(filepath.Join(k.dir, k.names[i])); err != nil {
					return err
				}
			} else {
				f.Comments = nil
				var b bytes.Buffer
				if err := format.Node(&b, m.fset, f); err != nil {
					return fmt.Errorf("%s: %v", k.names[i], err)
				}
				out = b.Bytes()
			}
			if err := os.WriteFile(filepath.Join(d, k.names[i]), out, 0o644); err != nil {
				return err
			}
		}
		if len(cold.steps) > 0 {
			if err := os.WriteFile(filepath.Join(d, "zz_vs_cold_.go"), cold.source(k.name()), 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

// Import implements types.Importer.
func (m *module) Import(path string) (*types.Package, error) {
	if k, ok := m.pkgs[path]; ok {
		m.check(k)
		if k.types == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return k.types, nil
	}
	return m.std.Import(path)
}

// check type-checks a package as far as possible: types only refine the rewriting.
func (m *module) check(k *pkg) {
	if k.types != nil || k.busy {
		return
	}
	k.busy = true
	k.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: m, Error: func(error) { k.bad = true }}
	k.types, _ = conf.Check(k.path, m.fset, k.files, k.info)
	k.busy = false
}

type rewriter struct {
	info    *types.Info
	fset    *token.FileSet
	used    bool // vsched is called
	changed bool
	n       int
	sched   bool // names of package time or runtime may have become unused
	skip    map[ast.Node]bool
}

func (w *rewriter) file(f *ast.File) bool {
	w.skip = map[ast.Node]bool{}
	keep := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		switch p {
		case "sync":
			w.reimport(im, name, "sync", "vsync")
		case "sync/atomic":
			w.reimport(im, name, "atomic", "vatomic")
		case "time":
			if name == "" {
				name = "time"
			}
			keep[name] = "time"
		case "runtime":
			if name == "" {
				name = "runtime"
			}
			keep[name] = "runtime"
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				w.block(d.Body, keep)
			}
		case *ast.GenDecl:
			w.exprs(d, keep)
		}
	}
	if w.used {
		im := &ast.ImportSpec{Name: ast.NewIdent("vsched_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "vsched")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{im}}}, f.Decls...)
		if w.sched {
			for n, p := range keep {
				what := "Now"
				if p == "runtime" {
					what = "GC"
				}
				f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent(what)}}}}})
			}
		}
	}
	return w.changed || w.used
}

func (w *rewriter) reimport(im *ast.ImportSpec, name, def, to string) {
	if name == "" {
		im.Name = ast.NewIdent(def)
	}
	im.Path.Value = strconv.Quote(base + to)
	im.EndPos = 0
	w.changed = true
}

func (w *rewriter) fn(name string) ast.Expr {
	w.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent(name)}
}

func (w *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: w.fn(name), Args: args}
}

func (w *rewriter) tmp() *ast.Ident {
	w.n++
	return ast.NewIdent("vs_" + strconv.Itoa(w.n))
}

func (w *rewriter) isChan(e ast.Expr) bool {
	t := w.info.TypeOf(e)
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Underlying().(*types.Interface); ok {
			all := i.NumEmbeddeds() > 0
			for j := 0; j < i.NumEmbeddeds(); j++ {
				u, ok := i.EmbeddedType(j).(*types.Union)
				if !ok {
					all = false
					break
				}
				for x := 0; x < u.Len(); x++ {
					if _, ok := u.Term(x).Type().Underlying().(*types.Chan); !ok {
						all = false
					}
				}
			}
			return all
		}
	}
	return false
}

func (w *rewriter) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	o := w.info.Uses[id]
	if o == nil {
		return true
	}
	_, ok = o.(*types.Builtin)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// recv is the channel of a receive expression, or nil.
func recv(e ast.Expr) ast.Expr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X
	}
	return nil
}

func (w *rewriter) block(b *ast.BlockStmt, keep map[string]string) {
	if b != nil {
		b.List = w.stmts(b.List, keep)
	}
}

func (w *rewriter) stmts(l []ast.Stmt, keep map[string]string) []ast.Stmt {
	for i := range l {
		l[i] = w.stmt(l[i], keep)
	}
	return l
}

// exprs rewrites the expressions below n (function literals included).
func (w *rewriter) exprs(n ast.Node, keep map[string]string) {
	if n == nil {
		return
	}
	replace(n, func(e ast.Expr) ast.Expr { return w.expr(e, keep) })
}

func (w *rewriter) ex(e ast.Expr, keep map[string]string) ast.Expr {
	if e == nil {
		return nil
	}
	p := &ast.ParenExpr{X: e}
	w.exprs(p, keep)
	return p.X
}

// expr rewrites one expression whose operands have been rewritten already.
func (w *rewriter) expr(e ast.Expr, keep map[string]string) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			if w.skip[x] {
				return w.call("Recv2", x.X)
			}
			return w.call("Recv", x.X)
		}
	case *ast.CallExpr:
		if len(x.Args) == 1 && w.builtin(x.Fun, "close") {
			x.Fun = w.fn("Close")
			return x
		}
		if len(x.Args) == 1 && w.builtin(x.Fun, "len") && w.isChan(x.Args[0]) {
			x.Fun = w.fn("Len")
			return x
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if o := w.info.Uses[id]; o != nil {
				if pn, ok := o.(*types.PkgName); ok {
					if pn.Imported().Path() == "time" && x.Sel.Name == "Sleep" {
						w.sched = true
						return w.fn("Sleep")
					}
					if pn.Imported().Path() == "runtime" && x.Sel.Name == "Gosched" {
						w.sched = true
						return w.fn("Gosched")
					}
					if pn.Imported().Path() == "runtime" && (x.Sel.Name == "NumCPU" || x.Sel.Name == "GOMAXPROCS") {
						w.sched = true
						return w.fn(x.Sel.Name)
					}
				}
			}
		}
	case *ast.FuncLit:
		w.block(x.Body, keep)
	}
	return e
}

func (w *rewriter) mark2(l []ast.Expr, n int) {
	if n == 2 && len(l) == 1 {
		if u, ok := unparen(l[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			w.skip[u] = true
		}
	}
}

func (w *rewriter) stmt(s ast.Stmt, keep map[string]string) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		w.block(x, keep)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return w.sel(sel, x.Label, keep)
		}
		if r, ok := x.Stmt.(*ast.RangeStmt); ok && w.isChan(r.X) {
			x.Stmt = w.rangeChan(r, keep)
			return x
		}
		x.Stmt = w.stmt(x.Stmt, keep)
	case *ast.IfStmt:
		x.Init = w.stmt(x.Init, keep)
		x.Cond = w.ex(x.Cond, keep)
		w.block(x.Body, keep)
		x.Else = w.stmt(x.Else, keep)
	case *ast.ForStmt:
		x.Init = w.stmt(x.Init, keep)
		x.Cond = w.ex(x.Cond, keep)
		x.Post = w.stmt(x.Post, keep)
		w.block(x.Body, keep)
	case *ast.RangeStmt:
		if w.isChan(x.X) {
			return w.rangeChan(x, keep)
		}
		x.X = w.ex(x.X, keep)
		x.Key = w.ex(x.Key, keep)
		x.Value = w.ex(x.Value, keep)
		w.block(x.Body, keep)
	case *ast.SwitchStmt:
		x.Init = w.stmt(x.Init, keep)
		x.Tag = w.ex(x.Tag, keep)
		w.block(x.Body, keep)
	case *ast.TypeSwitchStmt:
		x.Init = w.stmt(x.Init, keep)
		x.Assign = w.stmt(x.Assign, keep)
		w.block(x.Body, keep)
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = w.ex(x.List[i], keep)
		}
		x.Body = w.stmts(x.Body, keep)
	case *ast.SelectStmt:
		return w.sel(x, nil, keep)
	case *ast.GoStmt:
		return w.goStmt(x, keep)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: w.call("SendTo", w.ex(x.Chan, keep)), Args: []ast.Expr{w.ex(x.Value, keep)}}}
	case *ast.AssignStmt:
		w.mark2(x.Rhs, len(x.Lhs))
		for i := range x.Lhs {
			x.Lhs[i] = w.ex(x.Lhs[i], keep)
		}
		for i := range x.Rhs {
			x.Rhs[i] = w.ex(x.Rhs[i], keep)
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					w.mark2(v.Values, len(v.Names))
				}
			}
		}
		w.exprs(x, keep)
	case *ast.ExprStmt:
		x.X = w.ex(x.X, keep)
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = w.ex(x.Results[i], keep)
		}
	case *ast.DeferStmt:
		w.exprs(x, keep)
	case *ast.IncDecStmt:
		x.X = w.ex(x.X, keep)
	}
	return s
}

func define(l []ast.Expr, r ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
}

// rangeChan: for v := range c  =>  for vs := c; ; { v, ok := Recv2(vs); if !ok { break }; ... }
func (w *rewriter) rangeChan(x *ast.RangeStmt, keep map[string]string) ast.Stmt {
	c, ok := w.tmp(), w.tmp()
	f := &ast.ForStmt{Init: define([]ast.Expr{c}, w.ex(x.X, keep)), Body: &ast.BlockStmt{}}
	rc := w.call("Recv2", c)
	stop := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	w.block(x.Body, keep)
	var body []ast.Stmt
	switch {
	case x.Key == nil || isBlank(x.Key):
		body = append(body, define([]ast.Expr{ast.NewIdent("_"), ok}, rc), stop)
	case x.Tok == token.DEFINE:
		body = append(body, define([]ast.Expr{x.Key, ok}, rc), stop)
	default:
		v := w.tmp()
		body = append(body, define([]ast.Expr{v, ok}, rc), stop, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
	}
	f.Body.List = append(body, &ast.BlockStmt{List: x.Body.List})
	return f
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// sel turns a select into a block that evaluates its operands and switches on the outcome.
func (w *rewriter) sel(x *ast.SelectStmt, label *ast.Ident, keep map[string]string) ast.Stmt {
	out := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	def := false
	args := []ast.Expr{nil}
	no := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		body := w.stmts(cc.Body, keep)
		if cc.Comm == nil {
			def = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		}
		t := w.tmp()
		var pre []ast.Stmt
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			out.List = append(out.List, define([]ast.Expr{t}, &ast.CallExpr{Fun: w.call("SendCase", w.ex(s.Chan, keep)), Args: []ast.Expr{w.ex(s.Value, keep)}}))
		case *ast.ExprStmt:
			out.List = append(out.List, define([]ast.Expr{t}, w.call("RecvCase", w.ex(recv(s.X), keep))))
		case *ast.AssignStmt:
			out.List = append(out.List, define([]ast.Expr{t}, w.call("RecvCase", w.ex(recv(s.Rhs[0]), keep))))
			a := &ast.AssignStmt{Tok: s.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: t, Sel: ast.NewIdent("V")}}}
			for _, l := range s.Lhs {
				a.Lhs = append(a.Lhs, w.ex(l, keep))
			}
			if len(s.Lhs) == 2 {
				a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: t, Sel: ast.NewIdent("OK")})
			}
			pre = append(pre, a)
		}
		args = append(args, t)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(no)}}, Body: append(pre, body...)})
		no++
	}
	if len(sw.Body.List) == 0 {
		out.List = append(out.List, &ast.ExprStmt{X: w.call("Block")},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}})
		return out
	}
	if def {
		args[0] = ast.NewIdent("true")
	} else {
		args[0] = ast.NewIdent("false")
		// a switch without default is not a terminating statement
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	sw.Tag = w.call("Select", args...)
	if label != nil {
		out.List = append(out.List, &ast.LabeledStmt{Label: label, Stmt: sw})
	} else {
		out.List = append(out.List, sw)
	}
	return out
}

// goStmt evaluates the function value and its arguments, then starts the goroutine.
func (w *rewriter) goStmt(x *ast.GoStmt, keep map[string]string) ast.Stmt {
	out := &ast.BlockStmt{}
	c := x.Call
	fixed := w.inline(c.Fun)
	consts := make([]bool, len(c.Args))
	for i, a := range c.Args {
		if tv, ok := w.info.Types[a]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			consts[i] = true
		}
		if w.inline(a) {
			consts[i] = true
		}
	}
	w.exprs(c, keep)
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: w.call("Go", lit)}
	}
	if !fixed {
		t := w.tmp()
		out.List = append(out.List, define([]ast.Expr{t}, c.Fun))
		c.Fun = t
	}
	for i := range c.Args {
		if !consts[i] {
			t := w.tmp()
			out.List = append(out.List, define([]ast.Expr{t}, c.Args[i]))
			c.Args[i] = t
		}
	}
	f := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	out.List = append(out.List, &ast.ExprStmt{X: w.call("Go", f)})
	return out
}

// inline says whether e is a declared function, builtin, type or function literal, which needs no evaluation.
func (w *rewriter) inline(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.FuncLit:
		return true
	case *ast.Ident:
		switch w.info.Uses[x].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
			return true
		}
	case *ast.IndexExpr:
		return w.inline(x.X)
	case *ast.IndexListExpr:
		return w.inline(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := w.info.Uses[id].(*types.PkgName); ok {
				switch w.info.Uses[x.Sel].(type) {
				case *types.Func, *types.TypeName:
					return true
				}
			}
		}
	}
	return false
}
