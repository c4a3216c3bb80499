package main

import (
	"go/ast"
	"reflect"
)

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

// replace applies f bottom-up to every expression below n. It does not enter the statements
// of function literals; f is given the literal itself.
func replace(n ast.Node, f func(ast.Expr) ast.Expr) { walk(reflect.ValueOf(n), f) }

func walk(v reflect.Value, f func(ast.Expr) ast.Expr) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == exprType && v.CanSet() {
			e := v.Interface().(ast.Expr)
			if _, ok := e.(*ast.FuncLit); !ok {
				walk(reflect.ValueOf(e), f)
			}
			v.Set(reflect.ValueOf(f(e)))
			return
		}
		walk(v.Elem(), f)
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.FuncType:
			return
		}
		walk(v.Elem(), f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), f)
		}
	}
}
