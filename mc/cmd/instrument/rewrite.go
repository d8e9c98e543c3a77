package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"sync":        "vmc/shim/sync",
	"sync/atomic": "vmc/shim/atomic",
	"time":        "vmc/shim/time",
	"context":     "vmc/shim/context",
	"crypto/rand": "vmc/shim/rand",
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	instr map[string]bool
	quiet bool
	file  string
	errs  []string
	n     int
	useRT bool
}

func (r *rw) err(n ast.Node, f string, a ...interface{}) {
	p := r.fset.Position(n.Pos())
	r.errs = append(r.errs, fmt.Sprintf("%s:%d: %s", filepath.Base(p.Filename), p.Line, fmt.Sprintf(f, a...)))
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *rw) rt(n string) ast.Expr {
	r.useRT = true
	return &ast.SelectorExpr{X: id("vmcrt"), Sel: id(n)}
}

func (r *rw) tmp(p string) string { r.n++; return fmt.Sprintf("_vmc%s%d", p, r.n) }

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func method(x ast.Expr, m string, a ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: x, Sel: id(m)}, a...)
}
func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func num(i int) ast.Expr    { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (r *rw) doFile(f *ast.File) {
	for _, is := range f.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		s, ok := shims[p]
		if !ok {
			continue
		}
		if r.quiet {
			if p == "crypto/rand" {
				continue
			}
			if p == "sync" {
				s = "vmc/shim/qsync"
			}
		}
		is.Path.Value = strconv.Quote(s)
	}
	for _, d := range f.Decls {
		r.decl(d)
	}
	if r.useRT {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
			&ast.ImportSpec{Name: id("vmcrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vmc/rt"`}}}}}, f.Decls...)
	}
	// imports whose only use was rewritten away stay used
	for _, is := range f.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		if p == "net" && (is.Name == nil) {
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
				&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Type: &ast.SelectorExpr{X: id("net"), Sel: id("Addr")}}}})
		}
	}
}

func (r *rw) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.GenDecl:
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				if _, ok := s.Type.(*ast.ChanType); ok && !s.Assign.IsValid() {
					s.Assign = s.Type.Pos() // a defined channel type becomes an alias
				}
				s.Type = r.typ(s.Type)
			case *ast.ValueSpec:
				r.valueSpec(s)
			}
		}
	case *ast.FuncDecl:
		if d.Recv != nil {
			r.fields(d.Recv)
		}
		r.funcType(d.Type)
		if d.Body != nil {
			r.block(d.Body)
		}
	}
}

func (r *rw) valueSpec(s *ast.ValueSpec) {
	if s.Type != nil {
		s.Type = r.typ(s.Type)
	}
	if len(s.Names) == 2 && len(s.Values) == 1 {
		s.Values[0] = r.commaOk(s.Values[0])
		return
	}
	for i := range s.Values {
		s.Values[i] = r.expr(s.Values[i])
	}
}

func (r *rw) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.typ(f.Type)
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}

// typ rewrites a type expression.
func (r *rw) typ(e ast.Expr) ast.Expr {
	switch t := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.rt("Chan"), Index: r.typ(t.Value)}}
	case *ast.StarExpr:
		t.X = r.typ(t.X)
	case *ast.ParenExpr:
		t.X = r.typ(t.X)
	case *ast.ArrayType:
		t.Elt = r.typ(t.Elt)
	case *ast.MapType:
		t.Key, t.Value = r.typ(t.Key), r.typ(t.Value)
	case *ast.Ellipsis:
		t.Elt = r.typ(t.Elt)
	case *ast.FuncType:
		r.funcType(t)
	case *ast.StructType:
		r.fields(t.Fields)
	case *ast.InterfaceType:
		r.fields(t.Methods)
	case *ast.IndexExpr:
		t.X, t.Index = r.typ(t.X), r.typ(t.Index)
	case *ast.SelectorExpr:
		return r.netSel(t)
	}
	return e
}

// netSel redirects real network dialing.
func (r *rw) netSel(t *ast.SelectorExpr) ast.Expr {
	if x, ok := t.X.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[x].(*types.PkgName); ok && pn.Imported().Path() == "net" && t.Sel.Name == "Dialer" {
			return r.rt("NetDialer")
		}
	}
	return t
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *rw) typeOf(e ast.Expr) types.Type { return r.info.TypeOf(e) }

// builtin reports the builtin a call's function denotes.
func (r *rw) builtin(e ast.Expr) string {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if i, ok := e.(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// commaOk rewrites the right side of a two-valued assignment.
func (r *rw) commaOk(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return method(r.expr(u.X), "Recv2")
	}
	return r.expr(e)
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// isType reports whether e denotes a type.
func (r *rw) isType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.IsType()
}

// expr rewrites an expression in value (read) context.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if r.isType(e) {
		return r.typ(e)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return method(r.expr(x.X), "Recv")
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				x.X = r.expr(x.X)
			} else {
				x.X = r.place(x.X)
			}
		default:
			x.X = r.expr(x.X)
		}
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.CallExpr:
		return r.call(x)
	case *ast.SelectorExpr:
		return r.selector(x, accRead)
	case *ast.IndexExpr:
		if isMap(r.typeOf(x.X)) {
			x.Index = r.expr(x.Index)
			x.X = r.mapAcc(x.X, "RdMap")
			return x
		}
		if _, ok := r.typeOf(x.X).Underlying().(*types.Array); ok {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		if !r.isType(x.Index) {
			x.Index = r.expr(x.Index)
		}
	case *ast.SliceExpr:
		if _, ok := r.typeOf(x.X).Underlying().(*types.Array); ok {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
	case *ast.CompositeLit:
		t := r.typeOf(x)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
		_, isStruct := deref(t).Underlying().(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
	}
	return e
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type accMode int

const (
	accRead accMode = iota
	accWrite
	accPlace
)

// place rewrites e where its address (not its value) is used.
func (r *rw) place(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.place(x.X)
		return x
	case *ast.SelectorExpr:
		return r.selector(x, accPlace)
	case *ast.IndexExpr:
		if isMap(r.typeOf(x.X)) {
			return r.expr(e)
		}
		if _, ok := r.typeOf(x.X).Underlying().(*types.Array); ok {
			x.X = r.place(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	case *ast.Ident:
		return x
	}
	return r.expr(e)
}

// lhs rewrites an assignment target.
func (r *rw) lhs(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lhs(x.X)
		return x
	case *ast.SelectorExpr:
		return r.selector(x, accWrite)
	case *ast.IndexExpr:
		if isMap(r.typeOf(x.X)) {
			x.Index = r.expr(x.Index)
			x.X = r.mapAcc(x.X, "WrMap")
			return x
		}
		return r.place(e)
	case *ast.Ident:
		return x
	}
	return r.expr(e)
}

func (r *rw) label(e ast.Expr) string {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		return r.label(x.X) + "." + x.Sel.Name
	case *ast.Ident:
		if t := r.typeOf(x); t != nil {
			if n, ok := deref(t).(*types.Named); ok {
				return n.Obj().Name()
			}
		}
		return x.Name
	case *ast.CallExpr:
		return r.label(x.Fun) + "()"
	case *ast.StarExpr:
		return r.label(x.X)
	case *ast.IndexExpr:
		return r.label(x.X) + "[]"
	}
	return "expr"
}

// fieldLabel names a field by its declaring struct type.
func (r *rw) fieldLabel(owner types.Type, name string) string {
	if n, ok := deref(owner).(*types.Named); ok {
		return n.Obj().Name() + "." + name
	}
	return name
}

func (r *rw) mapAcc(m ast.Expr, fn string) ast.Expr {
	if r.quiet {
		return r.expr(m)
	}
	lbl := r.label(m)
	return call(r.rt(fn), r.expr(m), str("map "+lbl))
}

func syncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

// selector rewrites x.f, making embedded fields explicit.
func (r *rw) selector(x *ast.SelectorExpr, mode accMode) ast.Expr {
	sel := r.info.Selections[x]
	if sel == nil { // qualified identifier
		return r.netSel(x)
	}
	if sel.Kind() == types.MethodExpr {
		return x
	}
	if r.quiet {
		if mode == accPlace {
			x.X = r.place(x.X)
		} else if !r.isType(x.X) {
			x.X = r.expr(x.X)
		}
		return r.nativeField(x, sel)
	}
	// walk the path of fields
	cur := x.X
	curT := r.typeOf(x.X)
	addressable := r.info.Types[x.X].Addressable()
	idx := sel.Index()
	type step struct {
		f     *types.Var
		owner types.Type
	}
	var steps []step
	t := curT
	n := len(idx)
	if sel.Kind() == types.MethodVal {
		n--
	}
	for _, i := range idx[:n] {
		st, ok := deref(t).Underlying().(*types.Struct)
		if !ok {
			break
		}
		f := st.Field(i)
		if !f.Exported() && f.Pkg() != r.pkg { // cannot be named here
			if len(steps) == 0 || true {
				steps = nil
			}
			if mode == accPlace {
				x.X = r.place(x.X)
			} else {
				x.X = r.expr(x.X)
			}
			return x
		}
		steps = append(steps, step{f, t})
		t = f.Type()
	}
	if len(steps) == 0 { // plain method on x.X
		fn := sel.Obj().(*types.Func)
		ptrRecv := false
		if rv := fn.Type().(*types.Signature).Recv(); rv != nil && isPtr(rv.Type()) {
			ptrRecv = true
		}
		if ptrRecv && !isPtr(curT) {
			x.X = r.place(x.X)
			return x
		}
		if k := headerMethod(curT, fn.Name()); k != "" {
			lbl := r.label(x.X)
			x.X = call(r.rt(k), r.expr(x.X), str("map "+lbl))
			return x
		}
		x.X = r.expr(x.X)
		return x
	}
	// base: place if a value struct, read if a pointer
	if isPtr(curT) {
		cur = r.expr(cur)
		addressable = true
	} else {
		cur = r.place(cur)
	}
	for i, s := range steps {
		last := i == len(steps)-1
		acc := &ast.SelectorExpr{X: cur, Sel: id(s.f.Name())}
		ft := s.f.Type()
		m := accPlace
		if last && sel.Kind() == types.FieldVal {
			m = mode
		} else if isPtr(ft) || types.IsInterface(ft) {
			m = accRead
		} else if last { // receiver of a method on a value field
			fn := sel.Obj().(*types.Func)
			if rv := fn.Type().(*types.Signature).Recv(); rv != nil && !isPtr(rv.Type()) {
				m = accRead
			}
		}
		if syncType(ft) {
			m = accPlace
		}
		if m == accPlace || !addressable {
			cur = acc
		} else {
			f := "Rd"
			if m == accWrite {
				f = "Wr"
			}
			cur = &ast.ParenExpr{X: &ast.StarExpr{X: call(r.rt(f), &ast.UnaryExpr{Op: token.AND, X: acc}, str(r.fieldLabel(s.owner, s.f.Name())))}}
		}
		if isPtr(ft) {
			addressable = true
		}
		if isPtr(ft) || !types.IsInterface(ft) {
			// value struct keeps the addressability of its container
		}
	}
	if sel.Kind() == types.FieldVal {
		return r.nativeExpr(cur, sel)
	}
	fn := sel.Obj().(*types.Func)
	last := steps[len(steps)-1].f.Type()
	if k := headerMethod(last, fn.Name()); k != "" {
		cur = call(r.rt(k), cur, str("map "+steps[len(steps)-1].f.Name()))
	}
	return &ast.SelectorExpr{X: cur, Sel: id(x.Sel.Name)}
}

// headerMethod classifies methods of std map types.
func headerMethod(t types.Type, m string) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isMap(t) {
		return ""
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "net/http.Header", "net/url.Values", "net/textproto.MIMEHeader":
		switch m {
		case "Set", "Add", "Del":
			return "WrMap"
		}
		return "RdMap"
	}
	return ""
}

func (r *rw) nativeField(x ast.Expr, sel *types.Selection) ast.Expr { return r.nativeExpr(x, sel) }

// nativeExpr wraps channels stored in fields of uninstrumented types.
func (r *rw) nativeExpr(x ast.Expr, sel *types.Selection) ast.Expr {
	v, ok := sel.Obj().(*types.Var)
	if !ok || !isChan(v.Type()) || v.Pkg() == nil || r.ours(v.Pkg().Path()) {
		return x
	}
	return call(r.rt("Native"), x)
}

func (r *rw) ours(path string) bool {
	if r.instr[path] {
		return true
	}
	switch path {
	case "time", "sync", "sync/atomic":
		return true
	}
	return false
}

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	if r.isType(x.Fun) { // conversion
		x.Fun = r.typ(x.Fun)
		r.exprs(x.Args)
		if st, ok := x.Fun.(*ast.StarExpr); ok {
			x.Fun = &ast.ParenExpr{X: st}
		}
		return x
	}
	switch r.builtin(x.Fun) {
	case "make":
		t := r.typeOf(x.Args[0])
		if ct, ok := x.Args[0].(*ast.ChanType); ok {
			f := "MakeChan"
			if r.quiet {
				f = "MakeChanQ"
			}
			args := append([]ast.Expr{}, x.Args[1:]...)
			r.exprs(args)
			for i := range args {
				args[i] = call(id("int"), args[i])
			}
			return call(&ast.IndexExpr{X: r.rt(f), Index: r.typ(ct.Value)}, args...)
		} else if isChan(t) {
			// an alias or a defined channel type: rt makes it by reflection on the alias
			args := append([]ast.Expr{}, x.Args[1:]...)
			r.exprs(args)
			return call(r.rt("MakeLike"), append([]ast.Expr{call(&ast.ParenExpr{X: r.typ(x.Args[0])}, id("nil"))}, args...)...)
		}
		x.Args[0] = r.typ(x.Args[0])
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = r.expr(x.Args[i])
		}
		return x
	case "new":
		x.Args[0] = r.typ(x.Args[0])
		return x
	case "close":
		return method(r.expr(x.Args[0]), "Close")
	case "len", "cap":
		if isChan(r.typeOf(x.Args[0])) {
			m := "Len"
			if r.builtin(x.Fun) == "cap" {
				m = "Cap"
			}
			return method(r.expr(x.Args[0]), m)
		}
		if isMap(r.typeOf(x.Args[0])) {
			x.Args[0] = r.mapAcc(x.Args[0], "RdMap")
			return x
		}
		r.exprs(x.Args)
		return x
	case "delete":
		x.Args[1] = r.expr(x.Args[1])
		x.Args[0] = r.mapAcc(x.Args[0], "WrMap")
		return x
	case "":
	default:
		r.exprs(x.Args)
		return x
	}
	native := false
	if t := r.typeOf(x); t != nil && isChan(t) {
		var obj types.Object
		switch f := unparen(x.Fun).(type) {
		case *ast.SelectorExpr:
			obj = r.info.Uses[f.Sel]
		case *ast.Ident:
			obj = r.info.Uses[f]
		}
		if fn, ok := obj.(*types.Func); ok && fn.Pkg() != nil && !r.ours(fn.Pkg().Path()) {
			native = true
		}
	}
	if r.pkgFunc(x.Fun) == "runtime.Gosched" {
		return call(r.rt("Yield"))
	}
	x.Fun = r.expr(x.Fun)
	r.exprs(x.Args)
	if native {
		return call(r.rt("Native"), x)
	}
	return x
}

func (r *rw) pkgFunc(e ast.Expr) string {
	if s, ok := unparen(e).(*ast.SelectorExpr); ok {
		if x, ok := s.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[x].(*types.PkgName); ok {
				return pn.Imported().Path() + "." + s.Sel.Name
			}
		}
	}
	return ""
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: method(r.expr(x.Chan), "Send", r.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = r.lhs(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			x.Rhs[0] = r.commaOk(x.Rhs[0])
		} else {
			r.exprs(x.Rhs)
		}
		if x.Tok != token.DEFINE {
			for i := range x.Lhs {
				x.Lhs[i] = r.lhs(x.Lhs[i])
			}
		}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		if c, ok := r.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		x.Else = r.stmt(x.Else)
	case *ast.CaseClause:
		r.exprs(x.List)
		x.Body = r.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.stmt(x.Init)
		x.Tag = r.expr(x.Tag)
		r.block(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.stmt(x.Init)
		x.Assign = r.stmt(x.Assign)
		r.block(x.Body)
	case *ast.ForStmt:
		x.Init = r.stmt(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.stmt(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.LabeledStmt:
		x.Stmt = r.stmt(x.Stmt)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.DeclStmt:
		r.decl(x.Decl)
	}
	return s
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.expr(fl)
		return &ast.ExprStmt{X: call(r.rt("Go"), fl)}
	}
	blk := &ast.BlockStmt{}
	var args []ast.Expr
	bi := r.builtin(c.Fun)
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, r.expr(a))
			continue
		}
		// a conversion to the parameter type is implied; keep the static type of the argument
		n := r.tmp("a")
		_ = i
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		args = append(args, id(n))
	}
	var nc *ast.CallExpr
	if bi != "" {
		nc = &ast.CallExpr{Fun: c.Fun, Args: args}
		if bi == "close" {
			nc = method(args[0], "Close")
		}
	} else {
		f := r.tmp("f")
		blk.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(f)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}}}, blk.List...)
		nc = &ast.CallExpr{Fun: id(f), Args: args, Ellipsis: c.Ellipsis}
		if c.Ellipsis.IsValid() {
			nc.Ellipsis = 1
		}
	}
	blk.List = append(blk.List, &ast.ExprStmt{X: call(r.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return blk
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || ok && i.Name == "_"
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(x.X)
	switch {
	case isChan(t):
		v, ok := r.tmp("v"), r.tmp("ok")
		c := r.expr(x.X)
		r.block(x.Body)
		ct := r.tmp("c")
		pre := &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{method(id(ct), "Recv2")}}
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		head := []ast.Stmt{pre, brk}
		if !isBlank(x.Key) {
			l := x.Key
			if x.Tok != token.DEFINE {
				l = r.lhs(l)
			}
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{id(v)}})
		} else {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
		}
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(ct)}, Tok: token.DEFINE, Rhs: []ast.Expr{c}},
			Body: &ast.BlockStmt{List: append(head, x.Body)}}
	case isMap(t) && !r.quiet:
		lbl := "map " + r.label(x.X)
		m := r.expr(x.X)
		r.block(x.Body)
		mt, kt := r.tmp("m"), r.tmp("k")
		var head []ast.Stmt
		ok := r.tmp("ok")
		vt := r.tmp("v")
		head = append(head,
			&ast.AssignStmt{Lhs: []ast.Expr{id(vt), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(mt), Index: id(kt)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vt)}})
		set := func(l ast.Expr, v string) {
			if isBlank(l) {
				return
			}
			if x.Tok != token.DEFINE {
				l = r.lhs(l)
			}
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{id(v)}})
		}
		set(x.Key, kt)
		set(x.Value, vt)
		body := &ast.BlockStmt{List: append(head, x.Body)}
		// the map is evaluated once: for m, ks := X, Keys(m) ...
		it := r.tmp("i")
		ks := r.tmp("ks")
		idx := &ast.AssignStmt{Lhs: []ast.Expr{id(kt)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(ks), Index: id(it)}}}
		body.List = append([]ast.Stmt{idx}, body.List...)
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(mt), id(ks), id(it)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.rt("KeysOf"), m, str(lbl))}},
			Cond: &ast.BinaryExpr{X: id(it), Op: token.LSS, Y: call(id("len"), id(ks))},
			Post: &ast.IncDecStmt{X: id(it), Tok: token.INC},
			Body: body}
	}
	x.X = r.expr(x.X)
	if x.Tok != token.DEFINE {
		if x.Key != nil {
			x.Key = r.lhs(x.Key)
		}
		if x.Value != nil {
			x.Value = r.lhs(x.Value)
		}
	}
	r.block(x.Body)
	return x
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(r.rt("BlockForever"))}}}}
	}
	var lhs, rhs []ast.Expr
	args := []ast.Expr{id("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	i := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		cl := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDefault = true
			cl.Body = r.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, cl)
			continue
		}
		n := r.tmp("s")
		lhs = append(lhs, id(n))
		cl.List = []ast.Expr{num(i)}
		i++
		var first ast.Stmt
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, method(r.expr(s.Chan), "SendCase", r.expr(s.Value)))
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			rhs = append(rhs, method(r.expr(u.X), "RecvCase"))
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			rhs = append(rhs, method(r.expr(u.X), "RecvCase"))
			m := "V"
			if len(s.Lhs) == 2 {
				m = "V2"
			}
			if s.Tok != token.DEFINE {
				for j := range s.Lhs {
					s.Lhs[j] = r.lhs(s.Lhs[j])
				}
			}
			s.Rhs[0] = method(id(n), m)
			first = s
		}
		args = append(args, id(n))
		body := r.stmts(cc.Body)
		if first != nil {
			body = append([]ast.Stmt{first}, body...)
		}
		cl.Body = body
		sw.Body.List = append(sw.Body.List, cl)
	}
	if hasDefault {
		args[0] = id("true")
	} else {
		// keep the statement terminating: the last case catches everything
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = call(r.rt("Select"), args...)
	return sw
}

var _ = strings.Contains
