package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"hash/fnv"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type rewriter struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	src      []byte
	file     *ast.File
	path     string
	table    map[string]repl
	imports  map[string]bool // sim packages used
	useReal  map[string]int  // remaining uses of each imported package (by import path)
	captured map[types.Object]bool
	n        int
	base     token.Pos
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rewriter) raw(a, b token.Pos) string { return string(r.src[r.off(a):r.off(b)]) }

func (r *rewriter) sim(pkg string) string {
	r.imports[pkg] = true
	return "__" + pkg
}

func (r *rewriter) rt() string { return r.sim("simrt") }

func (r *rewriter) fresh(p string) string {
	r.n++
	return fmt.Sprintf("__%s%d", p, r.n)
}

func (r *rewriter) y(p token.Pos) string {
	pos := r.fset.Position(p)
	h := fnv.New32a()
	fmt.Fprintf(h, "%s/%s:%d:%d", r.pkg.Path(), filepath.Base(pos.Filename), pos.Line, pos.Column)
	return fmt.Sprintf("%s.Y(%d)", r.rt(), h.Sum32())
}

func (r *rewriter) rewrite() string {
	// captured variables
	ast.Inspect(r.file, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(fl, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() {
						if v.Pos() < fl.Pos() || v.Pos() > fl.End() {
							r.captured[v] = true
						}
					}
				}
				return true
			})
		}
		return true
	})
	// everything but the import declarations is rendered first
	type piece struct {
		n    ast.Node
		text string
	}
	var pieces []piece
	for _, d := range r.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			pieces = append(pieces, piece{d, ""})
			continue
		}
		pieces = append(pieces, piece{d, r.node(d)})
	}
	var b strings.Builder
	tf := r.fset.File(r.file.Pos())
	start := token.Pos(tf.Base())
	b.WriteString(string(r.src[:r.off(r.file.Name.End())]))
	var simp []string
	for k := range r.imports {
		simp = append(simp, k)
	}
	sort.Strings(simp)
	for _, k := range simp {
		fmt.Fprintf(&b, "; import __%s %q", k, simBase+k)
	}
	_ = start
	last := r.file.Name.End()
	for _, p := range pieces {
		b.WriteString(r.raw(last, p.n.Pos()))
		if g, ok := p.n.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			b.WriteString(r.importDecl(g))
		} else {
			b.WriteString(p.text)
		}
		last = p.n.End()
	}
	b.WriteString(string(r.src[r.off(last):]))
	return b.String()
}

func (r *rewriter) importDecl(g *ast.GenDecl) string {
	var b strings.Builder
	last := g.Pos()
	for _, s := range g.Specs {
		is := s.(*ast.ImportSpec)
		path, _ := strconv.Unquote(is.Path.Value)
		b.WriteString(r.raw(last, is.Pos()))
		named := is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".")
		if !named && r.useReal["gone:"+path] > 0 && r.useReal["kept:"+path] == 0 {
			b.WriteString("_ " + is.Path.Value)
		} else {
			b.WriteString(r.raw(is.Pos(), is.End()))
		}
		last = is.End()
	}
	b.WriteString(r.raw(last, g.End()))
	return b.String()
}

// children returns the direct children of n in source order.
func children(n ast.Node) []ast.Node {
	var cs []ast.Node
	if fd, ok := n.(*ast.FuncDecl); ok {
		if fd.Recv != nil {
			cs = append(cs, fd.Recv)
		}
		cs = append(cs, fd.Name)
		if fd.Type.TypeParams != nil {
			cs = append(cs, fd.Type.TypeParams)
		}
		if fd.Type.Params != nil {
			cs = append(cs, fd.Type.Params)
		}
		if fd.Type.Results != nil {
			cs = append(cs, fd.Type.Results)
		}
		if fd.Body != nil {
			cs = append(cs, fd.Body)
		}
		return cs
	}
	first := true
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		switch m.(type) {
		case *ast.CommentGroup, *ast.Comment:
			return false
		}
		cs = append(cs, m)
		return false
	})
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].Pos() < cs[j].Pos() })
	return cs
}

// splice renders n from its source text, replacing direct children by their rendering.
func (r *rewriter) splice(n ast.Node, f func(ast.Node) string) string {
	var b strings.Builder
	last := n.Pos()
	if fd, ok := n.(*ast.FuncDecl); ok {
		last = fd.Pos()
		if fd.Doc != nil {
			last = fd.Type.Func
			b.WriteString(r.raw(fd.Pos(), last))
		}
	}
	for _, c := range children(n) {
		if c.Pos() < last || !c.Pos().IsValid() || c.Pos() == c.End() && c.Pos() == last {
			continue
		}
		b.WriteString(r.raw(last, c.Pos()))
		b.WriteString(f(c))
		last = c.End()
	}
	end := n.End()
	if r.off(end) > len(r.src) {
		end = last
	}
	if last < end {
		b.WriteString(r.raw(last, end))
	}
	return b.String()
}

func (r *rewriter) node(n ast.Node) string {
	switch x := n.(type) {
	case *ast.Ident:
		return r.ident(x)
	case *ast.SelectorExpr:
		return r.selector(x)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.rt() + ".Recv(" + r.node(x.X) + ")"
		}
	case *ast.CallExpr:
		return r.call(x)
	case *ast.IndexExpr:
		return r.index(x, false)
	case *ast.BlockStmt:
		return r.block(x, "")
	case *ast.CaseClause, *ast.CommClause:
		return r.clause(n)
	case *ast.SendStmt:
		return r.rt() + ".Snd(" + r.node(x.Chan) + ")(" + r.node(x.Value) + ")"
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.ForStmt:
		return r.splice(x, func(c ast.Node) string {
			if c == ast.Node(x.Body) {
				return r.block(x.Body, r.y(x.Body.Pos())+"; ")
			}
			return r.node(c)
		})
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.IncDecStmt:
		return r.splice(x, func(c ast.Node) string { return r.lhs(c.(ast.Expr)) })
	case *ast.ValueSpec:
		if len(x.Values) == 1 && len(x.Names) == 2 {
			if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return r.splice(x, func(c ast.Node) string {
					if c == ast.Node(x.Values[0]) {
						return r.rt() + ".Recv2(" + r.node(u.X) + ")"
					}
					return r.node(c)
				})
			}
		}
	case *ast.KeyValueExpr:
		// the key of a struct literal is a field name
		return r.splice(x, func(c ast.Node) string {
			if id, ok := c.(*ast.Ident); ok && c == ast.Node(x.Key) {
				if v, ok := r.info.Uses[id].(*types.Var); ok && v.IsField() {
					return id.Name
				}
			}
			return r.node(c)
		})
	}
	return r.splice(n, r.node)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) ident(id *ast.Ident) string { return id.Name }

func (r *rewriter) selector(x *ast.SelectorExpr) string {
	if id, ok := x.X.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			path := pn.Imported().Path()
			if rp, ok := r.table[path+"."+x.Sel.Name]; ok {
				r.useReal["gone:"+path]++
				return r.sim(rp.pkg) + "." + rp.name
			}
			r.useReal["kept:"+path]++
			return r.raw(x.Pos(), x.End())
		}
	}
	return r.splice(x, func(c ast.Node) string {
		if c == ast.Node(x.Sel) {
			return x.Sel.Name
		}
		return r.node(c)
	})
}

func (r *rewriter) isBuiltin(f ast.Expr, name string) bool {
	id, ok := unparen(f).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) call(x *ast.CallExpr) string {
	if r.isBuiltin(x.Fun, "close") && len(x.Args) == 1 {
		return r.rt() + ".Close(" + r.node(x.Args[0]) + ")"
	}
	if (r.isBuiltin(x.Fun, "delete") || r.isBuiltin(x.Fun, "clear")) && len(x.Args) > 0 && r.isMap(x.Args[0]) {
		return r.splice(x, func(c ast.Node) string {
			if c == ast.Node(x.Args[0]) {
				return r.rt() + ".MW(" + r.node(c) + ")"
			}
			return r.node(c)
		})
	}
	return r.splice(x, r.node)
}

func (r *rewriter) index(x *ast.IndexExpr, write bool) string {
	if !r.isMap(x.X) {
		return r.splice(x, r.node)
	}
	f := ".MR("
	if write {
		f = ".MW("
	}
	return r.splice(x, func(c ast.Node) string {
		if c == ast.Node(x.X) {
			return r.rt() + f + r.node(c) + ")"
		}
		return r.node(c)
	})
}

func (r *rewriter) lhs(e ast.Expr) string {
	if ix, ok := unparen(e).(*ast.IndexExpr); ok {
		return r.index(ix, true)
	}
	return r.node(e)
}

func (r *rewriter) block(x *ast.BlockStmt, prefix string) string {
	var b strings.Builder
	b.WriteString("{")
	if prefix != "" {
		b.WriteString(" " + prefix)
	}
	last := x.Lbrace + 1
	r.list(&b, &last, x.List)
	if x.Rbrace.IsValid() {
		b.WriteString(r.raw(last, x.Rbrace))
	}
	b.WriteString("}")
	return b.String()
}

func (r *rewriter) list(b *strings.Builder, last *token.Pos, l []ast.Stmt) {
	for _, s := range l {
		if es, ok := s.(*ast.EmptyStmt); ok && es.Implicit {
			continue
		}
		b.WriteString(r.raw(*last, s.Pos()))
		b.WriteString(r.stmt(s))
		*last = s.End()
	}
}

func (r *rewriter) clause(n ast.Node) string {
	var b strings.Builder
	switch x := n.(type) {
	case *ast.CaseClause:
		last := x.Pos()
		for _, e := range x.List {
			b.WriteString(r.raw(last, e.Pos()))
			b.WriteString(r.node(e))
			last = e.End()
		}
		b.WriteString(r.raw(last, x.Colon+1))
		last = x.Colon + 1
		r.list(&b, &last, x.Body)
		b.WriteString(r.raw(last, x.End()))
	default:
		panic("clause")
	}
	return b.String()
}

// stmt renders a statement of a statement list.
func (r *rewriter) stmt(s ast.Stmt) string {
	switch x := s.(type) {
	case *ast.CaseClause, *ast.CommClause:
		return r.node(s)
	case *ast.EmptyStmt:
		return r.raw(x.Pos(), x.End())
	case *ast.LabeledStmt:
		inner := r.node(x.Stmt)
		return r.y(s.Pos()) + "; " + x.Label.Name + ":" + r.raw(x.Colon+1, x.Stmt.Pos()) + inner
	}
	var body string
	switch x := s.(type) {
	case *ast.AssignStmt:
		body = r.splitAssign(x)
	case *ast.IncDecStmt:
		if r.shared(x.X) && !hasCall(x.X) {
			v := r.fresh("v")
			op := "+"
			if x.Tok == token.DEC {
				op = "-"
			}
			body = fmt.Sprintf("{ %s := %s; %s; %s = %s %s 1 }", v, r.node(x.X), r.y(x.TokPos), r.lhs(x.X), v, op)
		}
	}
	if body == "" {
		body = r.node(s)
	}
	return r.y(s.Pos()) + "; " + body
}

// shared reports whether an assignable expression may be visible to another task.
func (r *rewriter) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return false
		}
		o := r.info.Uses[x]
		v, ok := o.(*types.Var)
		if !ok {
			return false
		}
		return v.Parent() == r.pkg.Scope() || r.captured[v]
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

func hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// storable reports whether `t := e; lhs = t` means the same as `lhs = e`.
func (r *rewriter) storable(lhs, e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil || tv.Value != nil || tv.IsNil() {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Kind() == types.Bool {
		// comparisons are untyped bool converted on assignment
		lt, ok := r.info.Types[lhs]
		return ok && types.Identical(lt.Type, tv.Type)
	}
	if tv.IsVoid() || tv.IsType() || tv.IsBuiltin() {
		return false
	}
	return true
}

func (r *rewriter) splitAssign(x *ast.AssignStmt) string {
	if x.Tok == token.DEFINE {
		return ""
	}
	anyShared := false
	for _, l := range x.Lhs {
		if hasCall(l) {
			return ""
		}
		if r.shared(l) {
			anyShared = true
		}
	}
	if !anyShared {
		return ""
	}
	if x.Tok != token.ASSIGN {
		// op-assign
		op := strings.TrimSuffix(x.Tok.String(), "=")
		u := r.fresh("v")
		if hasCall(x.Rhs[0]) {
			if !r.storable(x.Lhs[0], x.Rhs[0]) {
				return ""
			}
			v := r.fresh("v")
			return fmt.Sprintf("{ %s := %s; %s; %s := %s; %s; %s = %s %s %s }", v, r.node(x.Rhs[0]), r.y(x.TokPos), u, r.node(x.Lhs[0]), r.y(x.TokPos), r.lhs(x.Lhs[0]), u, op, v)
		}
		return fmt.Sprintf("{ %s := %s; %s; %s = %s %s (%s) }", u, r.node(x.Lhs[0]), r.y(x.TokPos), r.lhs(x.Lhs[0]), u, op, r.node(x.Rhs[0]))
	}
	if len(x.Lhs) == len(x.Rhs) {
		var pre, post []string
		for i := range x.Lhs {
			id, blank := unparen(x.Lhs[i]).(*ast.Ident)
			if blank && id.Name == "_" {
				return ""
			}
			if !r.storable(x.Lhs[i], x.Rhs[i]) {
				if len(x.Lhs) > 1 {
					return ""
				}
				// a constant: a single store
				return ""
			}
			v := r.fresh("v")
			pre = append(pre, fmt.Sprintf("%s := %s", v, r.node(x.Rhs[i])))
			post = append(post, fmt.Sprintf("%s; %s = %s", r.y(x.Lhs[i].Pos()), r.lhs(x.Lhs[i]), v))
		}
		if len(x.Lhs) > 1 {
			// index operands on the left are evaluated before any store: only split plain names and fields
			for _, l := range x.Lhs {
				if _, ok := unparen(l).(*ast.IndexExpr); ok {
					return ""
				}
				if _, ok := unparen(l).(*ast.StarExpr); ok {
					return ""
				}
			}
		}
		return "{ " + strings.Join(pre, "; ") + "; " + strings.Join(post, "; ") + " }"
	}
	// tuple assignment
	if tv, ok := r.info.Types[x.Rhs[0]]; !ok || tv.Type == nil {
		return ""
	}
	for _, l := range x.Lhs {
		switch unparen(l).(type) {
		case *ast.IndexExpr, *ast.StarExpr:
			return ""
		}
	}
	var vs, post []string
	for _, l := range x.Lhs {
		if id, ok := unparen(l).(*ast.Ident); ok && id.Name == "_" {
			vs = append(vs, "_")
			continue
		}
		v := r.fresh("v")
		vs = append(vs, v)
		post = append(post, fmt.Sprintf("%s; %s = %s", r.y(l.Pos()), r.lhs(l), v))
	}
	return fmt.Sprintf("{ %s := %s; %s }", strings.Join(vs, ", "), r.rhs2(x), strings.Join(post, "; "))
}

func (r *rewriter) rhs2(x *ast.AssignStmt) string {
	if len(x.Rhs) == 1 && len(x.Lhs) == 2 {
		if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return r.rt() + ".Recv2(" + r.node(u.X) + ")"
		}
	}
	return r.node(x.Rhs[0])
}

func (r *rewriter) assign(x *ast.AssignStmt) string {
	isL := map[ast.Node]bool{}
	for _, l := range x.Lhs {
		isL[l] = true
	}
	return r.splice(x, func(c ast.Node) string {
		if isL[c] {
			if x.Tok == token.DEFINE {
				return r.raw(c.Pos(), c.End())
			}
			return r.lhs(c.(ast.Expr))
		}
		if len(x.Rhs) == 1 && c == ast.Node(x.Rhs[0]) {
			return r.rhs2(x)
		}
		return r.node(c)
	})
}

func (r *rewriter) goStmt(x *ast.GoStmt) string {
	c := x.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return r.rt() + ".Go(" + r.node(fl) + ")"
		}
	}
	inline := false
	if len(c.Args) == 1 {
		if tv, ok := r.info.Types[c.Args[0]]; ok {
			if _, ok := tv.Type.(*types.Tuple); ok {
				inline = true
			}
		}
	}
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			inline = true
		}
	}
	if inline {
		return r.rt() + ".Go(func() { " + r.node(c) + " })"
	}
	var b strings.Builder
	b.WriteString("{ ")
	fun := r.node(c.Fun)
	if !r.isFunc(c.Fun) {
		f := r.fresh("f")
		b.WriteString(f + " := " + fun + "; ")
		fun = f
	}
	var args []string
	for _, a := range c.Args {
		tv := r.info.Types[a]
		t := r.node(a)
		untyped := false
		if bt, ok := tv.Type.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
			untyped = true
		}
		if tv.Value != nil || tv.IsNil() || untyped {
			args = append(args, t)
			continue
		}
		v := r.fresh("a")
		b.WriteString(v + " := " + t + "; ")
		args = append(args, v)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	b.WriteString(r.rt() + ".Go(func() { " + fun + "(" + strings.Join(args, ", ") + ell + ") }) }")
	return b.String()
}

// isFunc reports whether e names a declared function (not a method value or variable).
func (r *rewriter) isFunc(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		_, ok := r.info.Uses[x].(*types.Func)
		return ok
	case *ast.SelectorExpr:
		if _, sel := r.info.Selections[x]; sel {
			return false
		}
		_, ok := r.info.Uses[x.Sel].(*types.Func)
		return ok
	case *ast.IndexExpr:
		return r.isFunc(x.X)
	}
	return false
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) string {
	var names, ctors []string
	hasDefault := "false"
	var b strings.Builder
	last := x.Body.Lbrace + 1
	idx := 0
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		b.WriteString(r.raw(last, cc.Pos()))
		pre := ""
		label := ""
		if cc.Comm == nil {
			hasDefault = "true"
			label = "case -1:"
		} else {
			name := r.fresh("c")
			label = fmt.Sprintf("case %d:", idx)
			idx++
			names = append(names, name)
			recv := func(e ast.Expr) string {
				u := unparen(e).(*ast.UnaryExpr)
				return r.rt() + ".RecvCase(" + r.node(u.X) + ")"
			}
			switch c := cc.Comm.(type) {
			case *ast.SendStmt:
				ctors = append(ctors, r.rt()+".SendCaseOf("+r.node(c.Chan)+")("+r.node(c.Value)+")")
			case *ast.ExprStmt:
				ctors = append(ctors, recv(c.X))
			case *ast.AssignStmt:
				ctors = append(ctors, recv(c.Rhs[0]))
				var l []string
				for _, e := range c.Lhs {
					if c.Tok == token.DEFINE {
						l = append(l, r.raw(e.Pos(), e.End()))
					} else {
						l = append(l, r.lhs(e))
					}
				}
				vals := name + ".V"
				if len(c.Lhs) == 2 {
					vals += ", " + name + ".OK"
				}
				tok := c.Tok.String()
				all := true
				for _, e := range l {
					if e != "_" {
						all = false
					}
				}
				if all {
					tok = "="
				}
				pre = " " + strings.Join(l, ", ") + " " + tok + " " + vals + ";"
			default:
				panic("select comm")
			}
		}
		b.WriteString(label + pre)
		// keep line structure of the clause header
		hdr := r.raw(cc.Pos(), cc.Colon+1)
		b.WriteString(strings.Repeat("\n", strings.Count(hdr, "\n")))
		last = cc.Colon + 1
		r.list(&b, &last, cc.Body)
		b.WriteString(r.raw(last, cc.End()))
		last = cc.End()
	}
	b.WriteString(r.raw(last, x.Body.Rbrace))
	b.WriteString("\n default: panic(\"simrt: unreachable\") }")
	hdr := "switch "
	if len(names) > 0 {
		hdr += strings.Join(names, ", ") + " := " + strings.Join(ctors, ", ") + "; "
	}
	hdr += r.rt() + ".Select(" + hasDefault
	for _, n := range names {
		hdr += ", " + n
	}
	hdr += ") {"
	return hdr + b.String()
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) string {
	y := r.y(x.Body.Pos()) + "; "
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	tok := " " + x.Tok.String() + " "
	if r.isMap(x.X) {
		e := r.fresh("e")
		pre := y
		ok := r.fresh("k")
		if !blank(x.Value) {
			v := r.fresh("v")
			pre += fmt.Sprintf("%s, %s := %s.Live(); if !%s { continue }; ", v, ok, e, ok)
			if x.Tok == token.DEFINE {
				pre += r.raw(x.Value.Pos(), x.Value.End()) + tok + v + "; "
			} else {
				pre += r.lhs(x.Value) + tok + v + "; "
			}
		} else {
			pre += fmt.Sprintf("if _, %s := %s.Live(); !%s { continue }; ", ok, e, ok)
		}
		if !blank(x.Key) {
			if x.Tok == token.DEFINE {
				pre += r.raw(x.Key.Pos(), x.Key.End()) + tok + e + ".Key; "
			} else {
				pre += r.lhs(x.Key) + tok + e + ".Key; "
			}
		}
		return fmt.Sprintf("for _, %s := range %s.MapRange(%s) ", e, r.rt(), r.node(x.X)) + r.block(x.Body, pre)
	}
	if r.isChan(x.X) {
		c, v, ok := r.fresh("c"), r.fresh("v"), r.fresh("k")
		pre := ""
		if blank(x.Key) {
			pre = fmt.Sprintf("_, %s := %s.Recv2(%s); if !%s { break }; ", ok, r.rt(), c, ok)
		} else {
			pre = fmt.Sprintf("%s, %s := %s.Recv2(%s); if !%s { break }; ", v, ok, r.rt(), c, ok)
			if x.Tok == token.DEFINE {
				pre += r.raw(x.Key.Pos(), x.Key.End()) + tok + v + "; "
			} else {
				pre += r.lhs(x.Key) + tok + v + "; "
			}
		}
		return fmt.Sprintf("for %s := %s; ; ", c, r.node(x.X)) + r.block(x.Body, pre)
	}
	return r.splice(x, func(c ast.Node) string {
		if c == ast.Node(x.Body) {
			return r.block(x.Body, y)
		}
		return r.node(c)
	})
}
