package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// rewriter replaces the concurrency constructs of one package by calls of mcrt.
type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	zz      string // import path of the checker's packages
	perIter bool   // range variables are per iteration (go >= 1.22)
	rename  func(string) string
	mutated map[types.Object]bool

	n        int
	used     bool
	inits    int
	resets   []string
	topExprs map[ast.Expr]ast.Expr
}

func (r *rewriter) tmp() *ast.Ident { r.n++; return ast.NewIdent(fmt.Sprintf("zz%d", r.n)) }

func (r *rewriter) mc(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzmcrt"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func lit(i int) ast.Expr {
	if i < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: lit(-i)}
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}
}
func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}
func assign(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs}
}
func ids(xs ...*ast.Ident) []ast.Expr {
	var out []ast.Expr
	for _, x := range xs {
		out = append(out, ast.NewIdent(x.Name))
	}
	return out
}
func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.isBuiltin(p.X, name)
	}
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) file(f *ast.File) {
	r.used = false
	for _, s := range f.Imports {
		p := unq(s.Path.Value)
		for _, x := range shimmed {
			if p == x {
				last := p[strings.LastIndex(p, "/")+1:]
				s.Path.Value = strconv.Quote(r.zz + "/shim/" + last)
			}
		}
		if q := r.rename(p); q != p {
			if s.Name == nil {
				if o, ok := r.info.Implicits[s]; ok {
					s.Name = ast.NewIdent(o.(*types.PkgName).Name())
				}
			}
			s.Path.Value = strconv.Quote(q)
		}
		s.EndPos = token.NoPos
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				r.inits++
				d.Name = ast.NewIdent(fmt.Sprintf("zzinit%d", r.inits))
			}
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			r.genDecl(d)
		}
	}
	// functions that give the variables declared in this file their initial values
	var extra []ast.Decl
	in := func(n ast.Node) bool { return n.Pos() >= f.FileStart && n.Pos() < f.FileEnd }
	for i, init := range r.info.InitOrder {
		if !in(init.Rhs) {
			continue
		}
		need := false
		var lhs []ast.Expr
		for _, v := range init.Lhs {
			if v.Name() == "_" {
				lhs = append(lhs, ast.NewIdent("_"))
				continue
			}
			lhs = append(lhs, ast.NewIdent(v.Name()))
			need = need || r.mutated[v]
		}
		if !need {
			continue
		}
		name := fmt.Sprintf("zzreset%d", i)
		rhs := r.rewritten(init.Rhs)
		extra = append(extra, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{assign(lhs, rhs)}}})
		r.resets = append(r.resets, fmt.Sprintf("%06d %s()", i, name))
	}
	f.Decls = append(f.Decls, extra...)
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzmcrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.zz + "/mcrt")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

// rewritten returns the expression that replaced e at package level.
func (r *rewriter) rewritten(e ast.Expr) ast.Expr {
	if x, ok := r.topExprs[e]; ok {
		return x
	}
	return e
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if x, ok := r.recvOperand(s.Values[0]); ok {
					s.Values[0] = call(r.mc("Recv2"), r.expr(x))
					continue
				}
			}
			for i := range s.Values {
				old := s.Values[i]
				s.Values[i] = r.expr(old)
				r.topExprs[old] = s.Values[i]
			}
		case *ast.TypeSpec:
			s.Type = r.expr(s.Type)
		}
	}
}

func (r *rewriter) recvOperand(e ast.Expr) (ast.Expr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// expr rewrites e and returns what replaces it.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = r.expr(e.X), r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(r.mc("Recv"), r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		return r.call(e)
	}
	return e
}

func (r *rewriter) call(e *ast.CallExpr) ast.Expr {
	switch {
	case r.isBuiltin(e.Fun, "close"):
		return call(r.mc("Close"), r.expr(e.Args[0]))
	case r.isBuiltin(e.Fun, "len"):
		if c, ok := under(r.typeOf(e.Args[0])).(*types.Chan); ok {
			f := "Len"
			if c.Dir() == types.SendOnly {
				f = "LenSend"
			}
			return call(r.mc(f), r.expr(e.Args[0]))
		}
	case r.isBuiltin(e.Fun, "make"):
		if _, ok := under(r.typeOf(e.Args[0])).(*types.Slice); ok {
			for i := 1; i < len(e.Args); i++ {
				tv := r.info.Types[e.Args[i]]
				e.Args[i] = r.expr(e.Args[i])
				if tv.Value == nil && (i == len(e.Args)-1) {
					e.Args[i] = call(r.mc("MakeLen"), e.Args[i])
				}
			}
			return e
		}
	}
	if sel, ok := e.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Gosched" {
		if o := r.info.Uses[sel.Sel]; o != nil && o.Pkg() != nil && o.Pkg().Path() == "runtime" {
			// keep the import in use
			return call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.ExprStmt{X: call(r.mc("Yield"))}, &ast.ExprStmt{X: e}}}})
		}
	}
	e.Fun = r.expr(e.Fun)
	r.exprs(e.Args)
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s, nil))
	}
	return out
}

func (r *rewriter) tick() ast.Stmt { return &ast.ExprStmt{X: call(r.mc("Tick"))} }

func prepend(b *ast.BlockStmt, s ...ast.Stmt) { b.List = append(append([]ast.Stmt{}, s...), b.List...) }

func labelled(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

// stmt rewrites s; label is the label s carries, which the result must carry on its loop or switch.
func (r *rewriter) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt:
			return r.stmt(s.Stmt, s.Label)
		}
		s.Stmt = r.stmt(s.Stmt, nil)
		return s
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.mc("Send"), r.expr(s.Chan)), r.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if x, ok := r.recvOperand(s.Rhs[0]); ok {
				r.exprs(s.Lhs)
				s.Rhs[0] = call(r.mc("Recv2"), r.expr(x))
				return s
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		if r.isBuiltin(s.Call.Fun, "close") {
			// the channel is evaluated now
			s.Call = call(r.mc("Close"), r.expr(s.Call.Args[0]))
			return s
		}
		if c, ok := r.call(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		s.Init, s.Cond = r.stmt(s.Init, nil), r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else, nil)
	case *ast.SwitchStmt:
		s.Init, s.Tag = r.stmt(s.Init, nil), r.expr(s.Tag)
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init, s.Assign = r.stmt(s.Init, nil), r.stmt(s.Assign, nil)
		r.clauses(s.Body)
	case *ast.ForStmt:
		s.Init, s.Cond, s.Post = r.stmt(s.Init, nil), r.expr(s.Cond), r.stmt(s.Post, nil)
		r.block(s.Body)
		prepend(s.Body, r.tick())
		return labelled(label, s)
	case *ast.RangeStmt:
		return r.rangeStmt(s, label)
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	}
	return s
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		x := r.expr(e)
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			return x
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			return x
		}
		t := r.tmp()
		pre = append(pre, define(ids(t), x))
		return ast.NewIdent(t.Name)
	}
	isBI := false
	for _, b := range []string{"close", "panic", "print", "println", "delete", "copy", "recover"} {
		isBI = isBI || r.isBuiltin(c.Fun, b)
	}
	var body ast.Stmt
	switch f := c.Fun.(type) {
	case *ast.FuncLit:
		fn := r.expr(f)
		for i := range c.Args {
			c.Args[i] = hoist(c.Args[i])
		}
		if len(c.Args) == 0 && (f.Type.Results == nil || len(f.Type.Results.List) == 0) {
			return &ast.ExprStmt{X: call(r.mc("Go"), fn)}
		}
		t := r.tmp()
		pre = append(pre, define(ids(t), fn))
		c.Fun = ast.NewIdent(t.Name)
	default:
		if !isBI {
			static := false
			switch f := c.Fun.(type) {
			case *ast.Ident:
				_, static = r.info.Uses[f].(*types.Func)
			case *ast.SelectorExpr:
				if r.info.Selections[f] == nil {
					_, static = r.info.Uses[f.Sel].(*types.Func)
				}
			case *ast.IndexExpr, *ast.IndexListExpr:
				static = true
			}
			if !static {
				fn := r.expr(c.Fun)
				t := r.tmp()
				pre = append(pre, define(ids(t), fn))
				c.Fun = ast.NewIdent(t.Name)
			}
		}
		for i := range c.Args {
			c.Args[i] = hoist(c.Args[i])
		}
	}
	var ce ast.Expr = c
	if isBI && r.isBuiltin(c.Fun, "close") {
		ce = call(r.mc("Close"), c.Args[0])
	}
	body = &ast.ExprStmt{X: ce}
	g := &ast.ExprStmt{X: call(r.mc("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}})}
	return &ast.BlockStmt{List: append(pre, g)}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	t := under(r.typeOf(s.X))
	if p, ok := t.(*types.Pointer); ok {
		t = under(p.Elem())
	}
	key, val, tok := s.Key, s.Value, s.Tok
	x := r.expr(s.X)
	r.block(s.Body)
	switch t.(type) {
	case *types.Chan:
		c, v, ok := r.tmp(), r.tmp(), r.tmp()
		outer := []ast.Stmt{define(ids(c), x)}
		body := []ast.Stmt{r.tick(), define(ids(v, ok), call(r.mc("Recv2"), ids(c)[0])),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ids(ok)[0]}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
		if isBlank(key) {
			body = append(body, assign([]ast.Expr{ast.NewIdent("_")}, ids(v)[0]))
		} else if tok == token.DEFINE && r.perIter {
			body = append(body, define([]ast.Expr{key}, ids(v)[0]))
		} else {
			if tok == token.DEFINE {
				outer = append(outer, define([]ast.Expr{key}, call(r.mc("ZeroElem"), ids(c)[0])))
			} else {
				key = r.expr(key)
			}
			body = append(body, assign([]ast.Expr{key}, ids(v)[0]))
		}
		body = append(body, s.Body)
		return &ast.BlockStmt{List: append(outer, labelled(label, &ast.ForStmt{Body: &ast.BlockStmt{List: body}}))}
	case *types.Map:
		m, k := r.tmp(), r.tmp()
		outer := []ast.Stmt{define(ids(m), x)}
		v, ok := r.tmp(), r.tmp()
		get := &ast.IndexExpr{X: ids(m)[0], Index: ids(k)[0]}
		body := []ast.Stmt{define(ids(v, ok), get),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ids(ok)[0]}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			assign([]ast.Expr{ast.NewIdent("_")}, ids(v)[0])}
		for i, lhs := range []ast.Expr{key, val} {
			if isBlank(lhs) {
				continue
			}
			src := ids(k, v)[i]
			if tok == token.DEFINE && r.perIter {
				body = append(body, define([]ast.Expr{lhs}, src))
				continue
			}
			if tok == token.DEFINE {
				f := [...]string{"ZeroKey", "ZeroVal"}[i]
				outer = append(outer, define([]ast.Expr{lhs}, call(r.mc(f), ids(m)[0])))
			} else {
				lhs = r.expr(lhs)
			}
			body = append(body, assign([]ast.Expr{lhs}, src))
		}
		body = append(body, s.Body)
		loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ids(k)[0], Tok: token.DEFINE, X: call(r.mc("MapKeys"), ids(m)[0]), Body: &ast.BlockStmt{List: body}}
		return &ast.BlockStmt{List: append(outer, labelled(label, loop))}
	}
	s.X = x
	if tok != token.DEFINE {
		s.Key, s.Value = r.expr(s.Key), r.expr(s.Value)
	}
	if _, ok := t.(*types.Signature); ok {
		prepend(s.Body, r.tick())
	}
	return labelled(label, s)
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	var cases []ast.Expr
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		out := &ast.CaseClause{}
		switch comm := cc.Comm.(type) {
		case nil:
			hasDefault = true
			out.List = []ast.Expr{lit(-1)}
		case *ast.SendStmt:
			t := r.tmp()
			pre = append(pre, define(ids(t), call(call(r.mc("SendCase"), r.expr(comm.Chan)), r.expr(comm.Value))))
			cases = append(cases, ids(t)[0])
			out.List = []ast.Expr{lit(n)}
			n++
		case *ast.ExprStmt:
			x, _ := r.recvOperand(comm.X)
			t := r.tmp()
			pre = append(pre, define(ids(t), call(r.mc("RecvCase"), r.expr(x))))
			cases = append(cases, ids(t)[0])
			out.List = []ast.Expr{lit(n)}
			n++
		case *ast.AssignStmt:
			x, _ := r.recvOperand(comm.Rhs[0])
			t := r.tmp()
			pre = append(pre, define(ids(t), call(r.mc("RecvCase"), r.expr(x))))
			cases = append(cases, ids(t)[0])
			out.List = []ast.Expr{lit(n)}
			n++
			f := "Val"
			if len(comm.Lhs) == 2 {
				f = "Val2"
			}
			if comm.Tok != token.DEFINE {
				r.exprs(comm.Lhs)
			}
			out.Body = append(out.Body, &ast.AssignStmt{Lhs: comm.Lhs, Tok: comm.Tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: ids(t)[0], Sel: ast.NewIdent(f)})}})
		}
		out.Body = append(out.Body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, out)
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"mcrt: select"`})}}})
	d := "false"
	if hasDefault {
		d = "true"
	}
	sw.Tag = call(r.mc("Select"), append([]ast.Expr{ast.NewIdent(d)}, cases...)...)
	return &ast.BlockStmt{List: append(pre, labelled(label, sw))}
}

// ---- package variables ----

// findMutated marks the package variables that the program may change.
func findMutated(files []*ast.File, info *types.Info, mutated map[types.Object]bool) {
	obj := func(e ast.Expr) types.Object {
		var id *ast.Ident
		switch e := e.(type) {
		case *ast.Ident:
			id = e
		case *ast.SelectorExpr:
			id = e.Sel
		default:
			return nil
		}
		v, ok := info.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
			return nil
		}
		return v
	}
	var root func(e ast.Expr) types.Object
	root = func(e ast.Expr) types.Object {
		if o := obj(e); o != nil {
			return o
		}
		switch e := e.(type) {
		case *ast.ParenExpr:
			return root(e.X)
		case *ast.SelectorExpr:
			return root(e.X)
		case *ast.IndexExpr:
			return root(e.X)
		case *ast.SliceExpr:
			return root(e.X)
		case *ast.StarExpr:
			return root(e.X)
		}
		return nil
	}
	mark := func(e ast.Expr) {
		if o := root(e); o != nil {
			mutated[o] = true
		}
	}
	for _, f := range files {
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			var parent ast.Node
			if len(stack) > 0 {
				parent = stack[len(stack)-1]
			}
			stack = append(stack, n)
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					mark(n.Key)
					mark(n.Value)
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.SliceExpr:
				mark(n.X)
			case *ast.SelectorExpr:
				if sel := info.Selections[n]; sel != nil && sel.Kind() == types.MethodVal {
					if sig := sel.Obj().Type().(*types.Signature); sig.Recv() != nil {
						if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
							mark(n.X)
						}
					}
				}
			}
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			o := obj(e)
			if o == nil {
				return true
			}
			if sel, ok := parent.(*ast.SelectorExpr); ok && sel.Sel == n {
				return true // counted as the selector itself
			}
			switch u := o.Type().Underlying().(type) {
			case *types.Basic, *types.Struct, *types.Array:
				if st, ok := u.(*types.Struct); ok && hasRef(st) {
					if _, ok := parent.(*ast.SelectorExpr); !ok {
						mutated[o] = true
					}
				}
			case *types.Map, *types.Slice:
				switch p := parent.(type) {
				case *ast.IndexExpr:
					if p.X != n {
						mutated[o] = true
					}
				case *ast.RangeStmt:
				case *ast.CallExpr:
					if id, ok := p.Fun.(*ast.Ident); !ok || (id.Name != "len" && id.Name != "cap") {
						mutated[o] = true
					}
				default:
					mutated[o] = true
				}
			case *types.Interface:
				if o.Type().String() != "error" {
					mutated[o] = true
				}
			default:
				mutated[o] = true
			}
			return true
		})
	}
}

func hasRef(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer, *types.Chan, *types.Signature:
			return true
		case *types.Struct:
			if hasRef(u) {
				return true
			}
		}
	}
	return false
}

func (r *rewriter) resetSource(name string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport zzmcrt %q\n\nvar _ = zzmcrt.Active\n\n", name, r.zz+"/mcrt")
	if r.inits > 0 {
		b.WriteString("func init() {\n")
		for i := 1; i <= r.inits; i++ {
			fmt.Fprintf(&b, "\tzzinit%d()\n", i)
		}
		b.WriteString("}\n\n")
	}
	b.WriteString("// ZZReset restores the initial values of the package variables.\nfunc ZZReset() {\n")
	withInit := map[types.Object]bool{}
	for _, i := range r.info.InitOrder {
		for _, v := range i.Lhs {
			withInit[v] = true
		}
	}
	sc := r.pkg.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && r.mutated[v] && !withInit[v] {
			fmt.Fprintf(&b, "\tzzmcrt.Zero(&%s)\n", n)
		}
	}
	for i := range r.resets {
		for j := i + 1; j < len(r.resets); j++ {
			if r.resets[j] < r.resets[i] {
				r.resets[i], r.resets[j] = r.resets[j], r.resets[i]
			}
		}
	}
	for _, x := range r.resets {
		fmt.Fprintf(&b, "\t%s\n", x[7:])
	}
	for i := 1; i <= r.inits; i++ {
		fmt.Fprintf(&b, "\tzzinit%d()\n", i)
	}
	b.WriteString("}\n")
	return b.String()
}
