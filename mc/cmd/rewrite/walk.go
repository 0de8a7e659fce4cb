package main

import (
	"go/ast"
	"reflect"
)

var (
	exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// rewriteExprs replaces the expressions directly below n, whatever its kind.
func rewriteExprs(n ast.Node, f func(ast.Expr) ast.Expr) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		fl := v.Field(i)
		if fl.CanSet() {
			rewriteField(fl, f)
		}
	}
}

func rewriteField(v reflect.Value, f func(ast.Expr) ast.Expr) {
	switch {
	case v.Type() == exprType:
		if !v.IsNil() {
			if x := f(v.Interface().(ast.Expr)); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		}
	case v.Kind() == reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			rewriteField(v.Index(i), f)
		}
	case v.Type().Implements(nodeType):
		if (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) && v.IsNil() {
			return
		}
		n, ok := v.Interface().(ast.Node)
		if !ok {
			return
		}
		if x, ok := n.(ast.Expr); ok {
			y := f(x)
			if y != nil && reflect.TypeOf(y).AssignableTo(v.Type()) {
				v.Set(reflect.ValueOf(y))
			}
			return
		}
		if _, ok := n.(ast.Stmt); ok {
			return
		}
		rewriteExprs(n, f)
	}
}
