package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// cold is how the package-level variables of a package get back the values they had when the
// program started: every execution of the explorer begins there, so that what the code
// remembers globally (caches, registries, pools) is explored empty as well as filled.
type cold struct {
	steps []string                  // calls, in order
	inits []string                  // the renamed init functions
	decls map[int][]func() ast.Decl // built after the rewriting
}

func (k *pkg) name() string { return k.files[0].Name.Name }

// cold must be called before the files are rewritten.
func (k *pkg) cold() *cold {
	c := &cold{decls: map[int][]func() ast.Decl{}}
	if k.bad || k.types == nil {
		return c
	}
	var zero, run []string
	assigned := map[ast.Expr]string{}
	for i, f := range k.files {
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` || im.Path.Value == `"embed"` {
				return &cold{}
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					n := fmt.Sprintf("vsInit_%d", len(c.inits))
					d.Name = ast.NewIdent(n)
					c.inits = append(c.inits, n)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					v := s.(*ast.ValueSpec)
					if len(v.Values) == 0 {
						for _, n := range v.Names {
							if n.Name != "_" {
								zero = append(zero, "vsched_.Zero(&"+n.Name+")")
							}
						}
						continue
					}
					set := func(l []ast.Expr, j int) {
						name := fmt.Sprintf("vsSet_%d", len(assigned))
						assigned[v.Values[j]] = name
						c.decls[i] = append(c.decls[i], func() ast.Decl {
							return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}},
								Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: []ast.Expr{v.Values[j]}}}}}
						})
					}
					if len(v.Values) == len(v.Names) {
						for j, n := range v.Names {
							if n.Name != "_" && !isError(k.info.Defs[n]) {
								set([]ast.Expr{ast.NewIdent(n.Name)}, j)
							}
						}
						continue
					}
					var l []ast.Expr
					for _, n := range v.Names {
						l = append(l, ast.NewIdent(n.Name))
					}
					set(l, 0)
				}
			}
		}
	}
	for _, i := range k.info.InitOrder {
		if n, ok := assigned[i.Rhs]; ok {
			run = append(run, n+"()")
		}
	}
	if len(zero)+len(run) == 0 && len(c.inits) == 0 {
		return c
	}
	c.steps = append(zero, run...)
	for _, n := range c.inits {
		c.steps = append(c.steps, n+"()")
	}
	return c
}

// isError says whether o is a sentinel error, whose identity others may have kept.
func isError(o types.Object) bool {
	return o != nil && types.Identical(o.Type(), types.Universe.Lookup("error").Type())
}

// addTo adds the assignments of file i; it must be called after the file has been rewritten.
func (c *cold) addTo(i int, f *ast.File) bool {
	for _, d := range c.decls[i] {
		f.Decls = append(f.Decls, d())
	}
	return len(c.decls[i]) > 0 || len(c.inits) > 0
}

func (c *cold) source(name string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport vsched_ %q\n\nfunc init() {\n", name, base+"vsched")
	for _, n := range c.inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	fmt.Fprintf(&b, "\tvsched_.OnCold(func() {\n\t\t%s\n\t})\n}\n", strings.Join(c.steps, "\n\t\t"))
	return b.Bytes()
}
