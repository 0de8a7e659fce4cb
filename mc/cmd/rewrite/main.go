// Command rewrite prepares the library for the controlled scheduler: it copies
// every source file of the library with thread starts, channel operations,
// map iterations and the packages sync, sync/atomic, time and net replaced by
// their counterparts in verifmc/vrt, and writes an overlay file for go build.
//
// usage: rewrite REPO OUTDIR OVERLAY.json
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"net":         "verifmc/vrt/vnet",
	"time":        "verifmc/vrt/vtime",
	"sync":        "verifmc/vrt/vsync",
	"sync/atomic": "verifmc/vrt/vatomic",
}

type pkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles                       []string
	DepOnly                       bool
}

func main() {
	repo, out, overlay := os.Args[1], os.Args[2], os.Args[3]
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,DepOnly", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	check(err)
	exports := map[string]string{}
	var own []*pkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			check(err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			own = append(own, p)
		}
	}
	replace := map[string]string{}
	old := oldLanguage(repo)
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range own {
		var files []*ast.File
		for _, name := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, parser.SkipObjectResolution)
			check(err)
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, files, info)
		for i, f := range files {
			r := &rewriter{info: info, fset: fset, points: p.Name == "socket", listeners: p.Name == "embertree"}
			r.file(f)
			var buf bytes.Buffer
			check(format.Node(&buf, fset, f))
			src := buf.Bytes()
			if old {
				// the counterparts need type parameters; loop variables stay shared
				src = append([]byte("//go:build go1.21\n\n"), src...)
			}
			dst := filepath.Join(out, p.Name+"_"+p.GoFiles[i])
			check(os.WriteFile(dst, src, 0o644))
			abs, err := filepath.Abs(filepath.Join(p.Dir, p.GoFiles[i]))
			check(err)
			replace[abs] = dst
		}
	}
	b, err = json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(overlay, b, 0o644))
}

// oldLanguage tells if the module asks for a Go version before 1.21.
func oldLanguage(repo string) bool {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	check(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
			v := strings.Split(f[1], ".")
			minor := 0
			if len(v) > 1 {
				minor, _ = strconv.Atoi(v[1])
			}
			return v[0] == "1" && minor < 21
		}
	}
	return true
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(2)
	}
}

type rewriter struct {
	info      *types.Info
	fset      *token.FileSet
	points    bool // a scheduling point before every statement of functions about shared things
	listeners bool // the same, but only in functions about listeners
	used      bool
	n         int
}

const vrtName = "vrtpkg"

func (r *rewriter) vrt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(vrtName), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vrt(name), Args: args}
}

func (r *rewriter) fresh(base string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vrt%s%d", base, r.n))
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type.Underlying()
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil && o.Type() != nil {
			return o.Type().Underlying()
		}
		if o := r.info.Defs[id]; o != nil && o.Type() != nil {
			return o.Type().Underlying()
		}
	}
	return nil
}

func (r *rewriter) file(f *ast.File) {
	// comments would end up in odd places; none has a meaning here
	f.Comments = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Body != nil {
				r.fn(d.Body, r.mentions(d))
			}
		case *ast.GenDecl:
			r.exprsIn(d)
		}
	}
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if to := shims[path]; to != "" {
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
			if s.Name == nil {
				s.Name = ast.NewIdent(filepath.Base(path))
			}
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent(vrtName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifmc/vrt"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

// shared tells if values of a type have to do with threads: locks, channels,
// connections, timers and structures that hold such.
func shared(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	threads := func(t types.Type) bool {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			return true
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			_, ok := shims[n.Obj().Pkg().Path()]
			return ok
		}
		return false
	}
	if t == nil {
		return false
	}
	if threads(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() != "socket" {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if threads(s.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (r *rewriter) mentions(d *ast.FuncDecl) bool {
	if r.points {
		found := false
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
				found = true
			case *ast.Ident:
				if o := r.info.Uses[n]; o != nil && shared(o.Type()) {
					found = true
				}
				if o := r.info.Defs[n]; o != nil && shared(o.Type()) {
					found = true
				}
			}
			return !found
		})
		return found
	}
	if !r.listeners {
		return false
	}
	found := false
	ast.Inspect(d, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.Contains(id.Name, "istener") {
			found = true
		}
		return true
	})
	return found
}

func (r *rewriter) fn(body *ast.BlockStmt, points bool) {
	body.List = r.stmts(body.List, points)
}

// exprsIn rewrites expressions of a node that holds no statements but in
// function literals.
func (r *rewriter) exprsIn(n ast.Node) {
	rewriteExprs(n, func(e ast.Expr) ast.Expr { return r.expr(e, r.points) })
}

func (r *rewriter) stmts(list []ast.Stmt, points bool) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		if points {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.EmptyStmt, *ast.DeclStmt, *ast.BranchStmt:
			default:
				out = append(out, &ast.ExprStmt{X: r.call("Point")})
			}
		}
		out = append(out, r.stmt(s, points)...)
	}
	return out
}

func (r *rewriter) block(b *ast.BlockStmt, points bool) {
	if b != nil {
		b.List = r.stmts(b.List, points)
	}
}

// e rewrites an expression in place.
func (r *rewriter) e(x *ast.Expr, points bool) {
	if *x != nil {
		*x = r.expr(*x, points)
	}
}

func (r *rewriter) one(s ast.Stmt, points bool) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s, points)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (r *rewriter) stmt(s ast.Stmt, points bool) []ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s, points)
	case *ast.LabeledStmt:
		l := r.stmt(s.Stmt, points)
		s.Stmt = l[len(l)-1]
		return append(l[:len(l)-1:len(l)-1], s)
	case *ast.IfStmt:
		s.Init = r.one(s.Init, points)
		r.e(&s.Cond, points)
		r.block(s.Body, points)
		s.Else = r.one(s.Else, points)
	case *ast.ForStmt:
		s.Init = r.one(s.Init, points)
		r.e(&s.Cond, points)
		s.Post = r.one(s.Post, points)
		r.block(s.Body, points)
	case *ast.SwitchStmt:
		s.Init = r.one(s.Init, points)
		r.e(&s.Tag, points)
		r.clauses(s.Body, points)
	case *ast.TypeSwitchStmt:
		s.Init = r.one(s.Init, points)
		s.Assign = r.one(s.Assign, points)
		r.clauses(s.Body, points)
	case *ast.RangeStmt:
		return r.rangeStmt(s, points)
	case *ast.SelectStmt:
		return []ast.Stmt{r.selectStmt(s, points)}
	case *ast.SendStmt:
		r.e(&s.Chan, points)
		r.e(&s.Value, points)
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("Send", s.Chan), Args: []ast.Expr{s.Value}}}}
	case *ast.GoStmt:
		return r.goStmt(s, points)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call, points).(*ast.CallExpr)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.e(&u.X, points)
				s.Rhs[0] = r.call("Recv2", u.X)
				for i := range s.Lhs {
					r.e(&s.Lhs[i], points)
				}
				return []ast.Stmt{s}
			}
		}
		var notes []ast.Stmt
		for i := range s.Lhs {
			if x, ok := unparen(s.Lhs[i]).(*ast.IndexExpr); ok && s.Tok != token.DEFINE {
				if m, ok := r.typeOf(x.X).(*types.Map); ok && pure(x.Index) {
					switch m.Key().Underlying().(type) {
					case *types.Pointer, *types.Interface, *types.Chan:
						notes = append(notes, &ast.ExprStmt{X: r.call("Note", x.Index)})
					}
				}
			}
		}
		for i := range s.Lhs {
			r.e(&s.Lhs[i], points)
		}
		for i := range s.Rhs {
			r.e(&s.Rhs[i], points)
		}
		return append(notes, s)
	default:
		rewriteExprs(s, func(e ast.Expr) ast.Expr { return r.expr(e, points) })
	}
	return []ast.Stmt{s}
}

func pure(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	}
	return false
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) clauses(b *ast.BlockStmt, points bool) {
	for _, s := range b.List {
		c := s.(*ast.CaseClause)
		for i := range c.List {
			r.e(&c.List[i], points)
		}
		c.Body = r.stmts(c.Body, points)
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt, points bool) []ast.Stmt {
	// the function value and its arguments are evaluated by the caller
	var pre []ast.Stmt
	c := s.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok {
		r.fn(lit.Body, points)
	} else {
		r.e(&c.Fun, points)
		if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
			if _, isPkg := r.info.Uses[first(sel.X)].(*types.PkgName); !isPkg && !pure(sel.X) {
				v := r.fresh("F")
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Fun}})
				c.Fun = v
			}
		}
	}
	for i := range c.Args {
		r.e(&c.Args[i], points)
		if tv, ok := r.info.Types[c.Args[i]]; ok && (tv.IsNil() || tv.Value != nil || tv.IsType()) {
			continue
		}
		if _, ok := c.Args[i].(*ast.BasicLit); ok {
			continue
		}
		if id, ok := c.Args[i].(*ast.Ident); ok && id.Name == "nil" {
			continue
		}
		v := r.fresh("A")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Args[i]}})
		c.Args[i] = v
	}
	f := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: r.call("Go", f)})}}
}

func first(e ast.Expr) *ast.Ident {
	if id, ok := e.(*ast.Ident); ok {
		return id
	}
	return nil
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt, points bool) []ast.Stmt {
	t := r.typeOf(s.X)
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	switch t.(type) {
	case *types.Map:
		r.e(&s.X, points)
		r.block(s.Body, points)
		e := r.fresh("E")
		ok := r.fresh("Ok")
		var pre []ast.Stmt
		blank := func(x ast.Expr) bool {
			id, is := x.(*ast.Ident)
			return x == nil || is && id.Name == "_"
		}
		var v ast.Expr = ast.NewIdent("_")
		if !blank(s.Value) {
			v = s.Value
		}
		load := &ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("Load")}}
		if s.Tok == token.ASSIGN && !blank(s.Value) {
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}})
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{load}})
		} else {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{load}})
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !blank(s.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: e, Sel: ast.NewIdent("K")}}})
		}
		s.Body.List = append(pre, s.Body.List...)
		s.X = r.call("Entries", s.X)
		s.Key, s.Value, s.Tok = ast.NewIdent("_"), e, token.DEFINE
		return []ast.Stmt{s}
	case *types.Chan:
		r.e(&s.X, points)
		r.block(s.Body, points)
		ch := r.fresh("C")
		ok := r.fresh("Ok")
		var v ast.Expr = ast.NewIdent("_")
		if s.Key != nil {
			v = s.Key
		}
		var pre []ast.Stmt
		tok := token.DEFINE
		if s.Tok == token.ASSIGN {
			tok = token.ASSIGN
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}})
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: tok, Rhs: []ast.Expr{r.call("Recv2", ch)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		f := &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, s.Body.List...)}}
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}}, f}
	}
	r.e(&s.X, points)
	if s.Key != nil && s.Tok == token.ASSIGN {
		r.e(&s.Key, points)
		r.e(&s.Value, points)
	}
	r.block(s.Body, points)
	return []ast.Stmt{s}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, points bool) ast.Stmt {
	idx, res := r.fresh("I"), r.fresh("R")
	args := []ast.Expr{ast.NewIdent("true")}
	body := &ast.BlockStmt{}
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		stmts := r.stmts(cc.Body, points)
		pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{res}}}
		if cc.Comm == nil {
			args[0] = ast.NewIdent("false")
			body.List = append(body.List, &ast.CaseClause{Body: append(pre, stmts...)})
			continue
		}
		recv := func(e ast.Expr) ast.Expr {
			u := unparen(e).(*ast.UnaryExpr)
			r.e(&u.X, points)
			args = append(args, r.call("RecvOp", u.X))
			return u.X
		}
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			r.e(&x.Chan, points)
			r.e(&x.Value, points)
			args = append(args, &ast.CallExpr{Fun: r.call("SendOp", x.Chan), Args: []ast.Expr{x.Value}})
		case *ast.ExprStmt:
			recv(x.X)
		case *ast.AssignStmt:
			ch := recv(x.Rhs[0])
			name := "As1"
			if len(x.Lhs) == 2 {
				name = "As"
			}
			pre = append(pre, &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: []ast.Expr{r.call(name, ch, res)}})
		}
		body.List = append(body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append(pre, stmts...)})
		n++
	}
	return &ast.SwitchStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{idx, res}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Select", args...)}},
		Tag:  idx,
		Body: body,
	}
}

// expr rewrites an expression and what is in it.
func (r *rewriter) expr(e ast.Expr, points bool) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.fn(x.Body, points)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv", r.expr(x.X, points))
		}
	case *ast.CallExpr:
		if id, ok := unparen(x.Fun).(*ast.Ident); ok && len(x.Args) == 1 {
			if _, builtin := r.info.Uses[id].(*types.Builtin); builtin {
				if _, ch := r.typeOf(x.Args[0]).(*types.Chan); ch {
					switch id.Name {
					case "close":
						return r.call("Close", r.expr(x.Args[0], points))
					case "len":
						return r.call("Len", r.expr(x.Args[0], points))
					}
				}
			}
		}
	}
	rewriteExprs(e, func(c ast.Expr) ast.Expr { return r.expr(c, points) })
	return e
}
