package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

func (f *fx) blockStmts(list []ast.Stmt) {
	for i, s := range list {
		f.stmt(s)
		if f.ret != nil && len(f.loops) == 0 && i+1 < len(list) && mayReturn(s) {
			if alwaysReturns(s) {
				return
			}
			f.ret.used = true
			f.emit("if br(Ghost(!" + f.ret.flag + ")) {")
			f.indent++
			f.blockStmts(list[i+1:])
			f.indent--
			f.emit("}")
			return
		}
	}
}

func mayReturn(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			found = true
		}
		return !found
	})
	return found
}

func alwaysReturns(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return len(s.List) > 0 && alwaysReturns(s.List[len(s.List)-1])
	case *ast.IfStmt:
		return s.Else != nil && alwaysReturns(s.Body) && alwaysReturns(s.Else)
	}
	return false
}

func hasBreak(body *ast.BlockStmt) bool {
	found := false
	var walk func(n ast.Node, inner bool)
	walk = func(n ast.Node, inner bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == n {
				return true
			}
			switch y := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				walk(x, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(x, true)
				return false
			case *ast.BranchStmt:
				if y.Tok == token.BREAK && (!inner || y.Label != nil) {
					found = true
				}
				if y.Tok == token.CONTINUE && y.Label != nil {
					found = true
				}
			}
			return true
		})
	}
	walk(body, false)
	return found
}

func (f *fx) declare(id *ast.Ident, val string) {
	if id.Name == "_" {
		return
	}
	obj := f.pkg.Info.Defs[id]
	if obj == nil {
		bail("%s: declaration of %s", f.pos(id), id.Name)
	}
	f.declareObj(obj, val)
}

func (f *fx) declareObj(obj types.Object, val string) {
	n := f.varName(obj)
	if f.locals != nil {
		ty := "int"
		if !f.addr[obj] {
			ty = f.g.ty(obj.Type())
		}
		mark := ""
		if f.pkg.changes(obj) {
			mark = " *"
		}
		*f.locals = append(*f.locals, n+" "+ty+mark)
		if f.own != nil {
			f.own[n] = ty + mark
		}
	}
	if f.addr[obj] {
		r := f.alloc(obj.Type(), val)
		f.emit(fmt.Sprintf("let ghost %s: int = %s;", n, r))
		return
	}
	f.emit(fmt.Sprintf("let ghost mut %s: %s = %s;", n, f.g.ty(obj.Type()), val))
}

// assign stores val in an assignable expression.
func (f *fx) assign(l ast.Expr, val string) {
	switch l := ast.Unparen(l).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		obj := f.pkg.Info.Uses[l]
		if obj == nil {
			obj = f.pkg.Info.Defs[l]
		}
		v, ok := obj.(*types.Var)
		if !ok {
			bail("%s: assignment", f.pos(l))
		}
		if s, ok := f.subst[obj]; ok {
			bail("%s: assignment to %s (bound to %s)", f.pos(l), l.Name, s)
		}
		if v.Parent() == v.Pkg().Scope() {
			if n, ok := f.names[v]; ok && f.isInit {
				f.proof(n + " = " + val + ";")
				return
			}
			bail("%s: assignment to global %s", f.pos(l), l.Name)
		}
		if f.addr[obj] {
			f.heapSet(v.Type(), f.varName(obj), val)
			return
		}
		f.proof(f.varName(obj) + " = " + val + ";")
		return
	case *ast.SelectorExpr:
		sel := f.pkg.Info.Selections[l]
		if sel == nil || sel.Kind() != types.FieldVal {
			bail("%s: assignment to selector", f.pos(l))
		}
		if r := f.elemOf(l.X); r != nil {
			f.assignField(r, f.typeOf(r), sel.Index(), val, l)
			f.elemStored(l.X)
			return
		}
		f.assignField(l.X, f.typeOf(l.X), sel.Index(), val, l)
		return
	case *ast.IndexExpr:
		x := f.expr(l.X)
		switch t := f.typeOf(l.X).Underlying().(type) {
		case *types.Map:
			k := f.exprTo(l.Index, t.Key())
			f.oblig("!"+x+".nil", "assignment to entry in nil map", l)
			f.ownedWrite(l.X, l)
			f.assign(l.X, fmt.Sprintf("GMap { nil: false, m: %s.m.insert(%s, %s) }", x, k, val))
			return
		case *types.Slice:
			i := f.expr(l.Index)
			f.oblig(fmt.Sprintf("0 <= %s < %s.len()", i, x), "index out of range", l)
			f.ownedWrite(l.X, l)
			if isByte(t.Elem()) {
				val = "(" + val + " as u8)"
			}
			f.assign(l.X, fmt.Sprintf("%s.update(%s, %s)", x, i, val))
			return
		case *types.Array:
			i := f.expr(l.Index)
			if t.Len() == 2 {
				bail("%s: assignment to an element of a pair", f.pos(l))
			}
			f.oblig(fmt.Sprintf("0 <= %s < %d", i, t.Len()), "index out of range", l)
			if isByte(t.Elem()) {
				val = "(" + val + " as u8)"
			}
			f.assign(l.X, fmt.Sprintf("%s.update(%s, %s)", x, i, val))
			return
		}
		bail("%s: index assignment", f.pos(l))
	case *ast.StarExpr:
		if r := f.elemOf(l.X); r != nil {
			f.assign(r, val)
			f.elemStored(l.X)
			return
		}
		p := f.expr(l.X)
		f.deref(l, p)
		pt, _ := isPtr(f.typeOf(l.X))
		f.heapSet(pt.Elem(), p, val)
		return
	}
	bail("%s: assignment to %T", f.pos(l), l)
}

func (f *fx) assignField(x ast.Expr, t types.Type, path []int, val string, n ast.Node) {
	// walk to the last pointer on the path, then update functionally
	if p, ok := isPtr(t); ok {
		ref := f.expr(x)
		f.oblig(ref+" != 0", "nil pointer dereference", n)
		cur := f.heapGet(p.Elem(), ref)
		f.updatePath(cur, p.Elem(), path, val, n, func(v string) { f.heapSet(p.Elem(), ref, v) })
		return
	}
	cur := f.expr(x)
	f.updatePath(cur, t, path, val, n, func(v string) { f.assign(x, v) })
}

func (f *fx) updatePath(cur string, t types.Type, path []int, val string, n ast.Node, store func(string)) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		bail("%s: field assignment", f.pos(n))
	}
	fd := st.Field(path[0])
	set := func(v string) {
		store(fmt.Sprintf("%s { %s: %s, ..%s }", f.g.ty(t), fd.Name(), v, cur))
	}
	if len(path) == 1 {
		set(val)
		return
	}
	sub := cur + "." + fd.Name()
	ft := fd.Type()
	if p, ok := isPtr(ft); ok {
		f.oblig(sub+" != 0", "nil pointer dereference", n)
		f.updatePath(f.heapGet(p.Elem(), sub), p.Elem(), path[1:], val, n, func(v string) { f.heapSet(p.Elem(), sub, v) })
		return
	}
	f.updatePath(sub, ft, path[1:], val, n, set)
}

func (f *fx) stmt(s ast.Stmt) {
	f.at = f.pos(s)
	switch s := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		f.emit("{")
		f.indent++
		f.blockStmts(s.List)
		f.indent--
		f.emit("}")
	case *ast.ExprStmt:
		if c, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
			f.call(c)
			return
		}
		f.expr(s.X)
	case *ast.DeclStmt:
		f.declStmt(s)
	case *ast.AssignStmt:
		f.assignStmt(s)
	case *ast.IncDecStmt:
		x := f.expr(s.X)
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		v := "(" + x + " " + op + " 1)"
		if w := wrapKind(f.typeOf(s.X)); w != "" {
			v = w + v
		}
		f.assign(s.X, v)
	case *ast.IfStmt:
		f.ifStmt(s)
	case *ast.ForStmt:
		f.forStmt(s)
	case *ast.RangeStmt:
		f.rangeStmt(s)
	case *ast.SwitchStmt:
		f.switchStmt(s)
	case *ast.TypeSwitchStmt:
		f.typeSwitch(s)
	case *ast.ReturnStmt:
		f.returnStmt(s)
	case *ast.BranchStmt:
		f.branch(s)
	case *ast.LabeledStmt:
		bail("%s: label", f.pos(s))
	case *ast.DeferStmt:
		fl, ok := s.Call.Fun.(*ast.FuncLit)
		if !ok || len(s.Call.Args) != 0 || len(f.loops) > 0 || f.ret != nil {
			bail("%s: defer", f.pos(s))
		}
		f.defers = append(f.defers, fl)
	default:
		bail("%s: statement %T is outside the subset", f.pos(s), s)
	}
}

func (f *fx) declStmt(s *ast.DeclStmt) {
	gd := s.Decl.(*ast.GenDecl)
	for _, sp := range gd.Specs {
		switch sp := sp.(type) {
		case *ast.ValueSpec:
			if gd.Tok == token.CONST {
				continue
			}
			if len(sp.Values) == 0 {
				for _, n := range sp.Names {
					if n.Name == "_" {
						continue
					}
					f.declare(n, f.g.zero(f.pkg.Info.Defs[n].Type()))
				}
				continue
			}
			var lhs []ast.Expr
			for _, n := range sp.Names {
				lhs = append(lhs, n)
			}
			vals := f.rhsValues(lhs, sp.Values)
			for i, n := range sp.Names {
				f.declare(n, vals[i])
			}
		case *ast.TypeSpec:
		default:
			bail("%s: declaration", f.pos(s))
		}
	}
}

func (f *fx) assignStmt(s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.XOR_ASSIGN: token.XOR}[s.Tok]
		if op == token.ILLEGAL {
			bail("%s: assignment operator %s", f.pos(s), s.Tok)
		}
		be := &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: s.Rhs[0], OpPos: s.TokPos}
		f.pkg.Info.Types[be] = types.TypeAndValue{Type: f.typeOf(s.Lhs[0])}
		v := f.expr(be)
		f.assign(s.Lhs[0], v)
		return
	}
	if f.elemPtrDef(s) || f.localFuncDef(s) {
		return
	}
	f.checkAppend(s)
	vals := f.rhsValues(s.Lhs, s.Rhs)
	if len(s.Lhs) > 1 && s.Tok == token.ASSIGN && len(s.Rhs) > 1 {
		for i := range vals {
			vals[i] = f.snapshot(vals[i], f.g.ty(f.typeOf(s.Lhs[i])))
		}
		// operands of index expressions and pointer indirections on the left
		// are evaluated first: they must not depend on the assigned values
		for i := range s.Lhs {
			for j := 0; j < i; j++ {
				if dependsOn(f.pkg, s.Lhs[i], s.Lhs[j]) {
					bail("%s: left-hand sides depend on each other", f.pos(s))
				}
			}
		}
	} else if len(s.Lhs) > 1 {
		for i := range vals {
			var t types.Type
			if id, ok := s.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
				continue
			} else if id, ok := s.Lhs[i].(*ast.Ident); ok && f.pkg.Info.Defs[id] != nil {
				t = f.pkg.Info.Defs[id].Type()
			} else {
				t = f.typeOf(s.Lhs[i])
			}
			vals[i] = f.snapshot(vals[i], f.g.ty(t))
		}
	}
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok && s.Tok == token.DEFINE {
			if id.Name == "_" {
				continue
			}
			if f.pkg.Info.Defs[id] != nil {
				f.declare(id, vals[i])
				continue
			}
		}
		f.assign(l, vals[i])
	}
}

// dependsOn reports whether the operands of l read the variable assigned by k.
func dependsOn(pkg *Pkg, l, k ast.Expr) bool {
	id, ok := ast.Unparen(k).(*ast.Ident)
	if !ok {
		return false
	}
	obj := pkg.Info.Uses[id]
	if _, ok := ast.Unparen(l).(*ast.Ident); ok {
		return false
	}
	dep := false
	ast.Inspect(l, func(n ast.Node) bool {
		if x, ok := n.(*ast.Ident); ok && pkg.Info.Uses[x] == obj && obj != nil {
			dep = true
		}
		return true
	})
	return dep
}

func (f *fx) ifStmt(s *ast.IfStmt) {
	if s.Init != nil {
		f.emit("{")
		f.indent++
		f.stmt(s.Init)
	}
	c := f.expr(s.Cond)
	f.emit("if br(Ghost(" + c + ")) {")
	f.indent++
	f.blockStmts(s.Body.List)
	f.indent--
	switch e := s.Else.(type) {
	case nil:
	case *ast.BlockStmt:
		f.emit("} else {")
		f.indent++
		f.blockStmts(e.List)
		f.indent--
	default:
		f.emit("} else {")
		f.indent++
		f.stmt(e)
		f.indent--
	}
	f.emit("}")
	if s.Init != nil {
		f.indent--
		f.emit("}")
	}
}

func (f *fx) switchStmt(s *ast.SwitchStmt) {
	f.emit("{")
	f.indent++
	if s.Init != nil {
		f.stmt(s.Init)
	}
	tag := ""
	if s.Tag != nil {
		tag = f.snapshot(f.expr(s.Tag), f.g.ty(f.typeOf(s.Tag)))
	}
	var def *ast.CaseClause
	depth := 0
	for _, x := range s.Body.List {
		cl := x.(*ast.CaseClause)
		if hasBreak(&ast.BlockStmt{List: cl.Body}) {
			bail("%s: break in a switch", f.pos(s))
		}
		if cl.List == nil {
			def = cl
			continue
		}
		var alts []string
		n := len(f.pc)
		for _, e := range cl.List {
			v := f.expr(e)
			if s.Tag != nil {
				op := "=="
				if b, ok := f.typeOf(s.Tag).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					op = "=~="
				}
				v = "(" + tag + " " + op + " " + v + ")"
			}
			alts = append(alts, v)
			f.pc = append(f.pc, "!("+v+")")
		}
		f.pc = f.pc[:n]
		f.emit("if br(Ghost(" + strings.Join(alts, " || ") + ")) {")
		f.indent++
		f.blockStmts(cl.Body)
		f.indent--
		f.emit("} else {")
		f.indent++
		depth++
	}
	if def != nil {
		f.blockStmts(def.Body)
	}
	for ; depth > 0; depth-- {
		f.indent--
		f.emit("}")
	}
	f.indent--
	f.emit("}")
}

func (f *fx) typeSwitch(s *ast.TypeSwitchStmt) {
	f.emit("{")
	f.indent++
	if s.Init != nil {
		f.stmt(s.Init)
	}
	var ta *ast.TypeAssertExpr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		ta = a.X.(*ast.TypeAssertExpr)
	case *ast.AssignStmt:
		ta = a.Rhs[0].(*ast.TypeAssertExpr)
	}
	it := f.typeOf(ta.X)
	x := f.snapshot(f.expr(ta.X), f.g.ty(it))
	var def *ast.CaseClause
	depth := 0
	for _, c := range s.Body.List {
		cl := c.(*ast.CaseClause)
		if cl.List == nil {
			def = cl
			continue
		}
		var alts []string
		payload := ""
		for _, e := range cl.List {
			if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
				alts = append(alts, "("+x+" is Nil)")
				continue
			}
			ok, v := f.typeTest(x, it, f.typeOf(e), e)
			alts = append(alts, ok)
			payload = v
		}
		f.emit("if br(Ghost(" + strings.Join(alts, " || ") + ")) {")
		f.indent++
		if obj := f.pkg.Info.Implicits[cl]; obj != nil {
			if len(cl.List) != 1 {
				payload = x
			}
			f.declareObj(obj, payload)
		}
		f.blockStmts(cl.Body)
		f.indent--
		f.emit("} else {")
		f.indent++
		depth++
	}
	if def != nil {
		if obj := f.pkg.Info.Implicits[def]; obj != nil {
			f.declareObj(obj, x)
		}
		f.blockStmts(def.Body)
	}
	for ; depth > 0; depth-- {
		f.indent--
		f.emit("}")
	}
	f.indent--
	f.emit("}")
}

func (f *fx) returnStmt(s *ast.ReturnStmt) {
	var vals []string
	n := f.sig.Results().Len()
	f.checkReturn(s)
	switch {
	case len(s.Results) == 0 && n > 0:
		for _, o := range f.named {
			vals = append(vals, f.varName(o))
		}
	case len(s.Results) == 1 && n > 1:
		vals = f.call(ast.Unparen(s.Results[0]).(*ast.CallExpr))
	default:
		for i, r := range s.Results {
			v := f.exprTo(r, f.sig.Results().At(i).Type())
			if i+1 < n && f.needsStmtAny(s.Results[i+1:]) {
				v = f.snapshot(v, f.g.ty(f.sig.Results().At(i).Type()))
			}
			vals = append(vals, v)
		}
	}
	f.doReturn(vals, s)
}

func (f *fx) doReturn(vals []string, n ast.Node) {
	if f.ret != nil {
		for i := range vals {
			vals[i] = f.snapshot(vals[i], f.g.ty(f.sig.Results().At(i).Type()))
		}
		for i, v := range vals {
			f.proof(f.ret.results[i] + " = " + v + ";")
		}
		f.ret.used = true
		f.proof(f.ret.flag + " = true;")
		if len(f.loops) > 0 {
			l := f.loops[len(f.loops)-1]
			f.proof(l.brk + " = true;")
			f.emit("break;")
		}
		return
	}
	if len(f.defers) > 0 {
		for i := range vals {
			vals[i] = f.snapshot(vals[i], f.g.ty(f.sig.Results().At(i).Type()))
		}
		for i, v := range vals {
			f.proof(f.varName(f.named[i]) + " = " + v + ";")
		}
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.sub(f.pkg)
			d.ret = &retCtx{flag: f.tmp()}
			d.loops = nil
			d.sig = f.typeOf(f.defers[i]).(*types.Signature)
			d.defers = nil
			f.emit("let ghost mut " + d.ret.flag + ": bool = false;")
			f.emit("{")
			f.indent++
			d.indent = f.indent
			d.blockStmts(f.defers[i].Body.List)
			f.indent--
			f.emit("}")
		}
		vals = nil
		for _, o := range f.named {
			vals = append(vals, f.varName(o))
		}
	}
	f.emitReturn(vals, n)
}

func (f *fx) emitReturn(vals []string, n ast.Node) {
	if f.c.Return != "" && !f.g.noHooks[f.key] {
		f.emit("{")
		f.indent++
		for i, v := range vals {
			f.emit(fmt.Sprintf("let ghost r%d: %s = %s;", i, f.g.ty(f.sig.Results().At(i).Type()), v))
			vals[i] = fmt.Sprintf("r%d", i)
		}
		f.hook(f.c.Return)
	}
	if f.isInit {
		for i, nme := range f.retNames {
			_ = i
			vals = append(vals, nme)
		}
	}
	var gs []string
	if len(f.c.Mods) > 0 {
		gs = append(gs, "Ghost(h)")
	} else {
		f.g.obls[f.key]++
		f.emitI("proof { assert(h == h0); }", &LineInfo{Fn: f.key, Kind: "frame", Src: f.pos(n), Desc: "nothing but the listed objects is modified or allocated"})
	}
	for _, v := range vals {
		gs = append(gs, "Ghost("+f.flat(v)+")")
	}
	li := &LineInfo{Fn: f.key, Kind: "return", Src: f.pos(n), Desc: "postcondition at this return"}
	switch len(gs) {
	case 0:
		f.emitI("return Ghost(());", li)
	case 1:
		f.emitI("return "+gs[0]+";", li)
	default:
		f.emitI("return ("+strings.Join(gs, ", ")+");", li)
	}
	if f.c.Return != "" && !f.g.noHooks[f.key] {
		f.indent--
		f.emit("}")
	}
}

func (f *fx) branch(s *ast.BranchStmt) {
	if s.Label != nil || len(f.loops) == 0 {
		bail("%s: branch", f.pos(s))
	}
	l := f.loops[len(f.loops)-1]
	switch s.Tok {
	case token.BREAK:
		f.proof(l.brk + " = true;")
		f.emit("break;")
	case token.CONTINUE:
		l.onNext()
		f.emit("continue;")
	default:
		bail("%s: branch", f.pos(s))
	}
}

var aliasRE = regexp.MustCompile(`\b([kis]|acc)[0-9]+\b`)

// rename rewrites the identifiers of a hook: loop index aliases and locals
// which were renamed in the current source.
func (f *fx) rename(text string) string {
	if len(f.aliasK) > 0 {
		text = aliasRE.ReplaceAllStringFunc(text, func(m string) string {
			if r, ok := f.aliasK[m]; ok {
				return r
			}
			return m
		})
	}
	rn, gone := f.g.renames[f.key], f.g.gone[f.key]
	if len(rn) > 0 || len(gone) > 0 || f.own != nil || len(f.aliasV) > 0 {
		text = localRE.ReplaceAllStringFunc(text, func(m string) string {
			if r, ok := f.ownName(m); ok {
				return r
			}
			if r, ok := f.aliasV[m]; ok {
				return r
			}
			if r, ok := rn[m]; ok {
				if r2, ok := f.aliasV[r]; ok {
					return r2
				}
				return r
			}
			if f.element != "" && gone[m] {
				return f.element
			}
			return m
		})
	}
	return text
}

// ownName finds the local variable of an inlined function which stands for
// a variable of the function it was taken from: the only one of its type
// which that function did not have.
func (f *fx) ownName(m string) (string, bool) {
	base := f.g.base[f.key]
	ty, ok := base[m]
	if f.own == nil || !ok {
		return "", false
	}
	one := func(fits func(n, t string) bool) (string, bool) {
		r := ""
		for n, t := range f.own {
			if fits(n, t) {
				if r != "" {
					return "", false
				}
				r = n
			}
		}
		return r, r != ""
	}
	if t, ok := f.own[m]; ok {
		// a variable which does not change cannot stand for one which does
		if w := ty + " *"; t == ty && f.g.baseChanged[f.key][m] {
			return one(func(_, t string) bool { return t == w })
		}
		return "", false
	}
	for n, a := range f.ownArg {
		if _, old := base[n]; a == m && !old && strings.TrimSuffix(f.own[n], " *") == ty {
			return n, true
		}
	}
	return one(func(n, t string) bool {
		_, old := base[n]
		_, other := base[f.ownArg[n]] // stands for another variable
		return strings.TrimSuffix(t, " *") == ty && !old && !other
	})
}

var h1RE = regexp.MustCompile(`\bh1\b`)

var localRE = regexp.MustCompile(`\bv_[A-Za-z0-9_]+\b`)

// loopHeader emits `while` with its annotations.
func (f *fx) loopHeader(n int, cond string, autoInv []string, autoDec string, brk string, hasBrk bool, exits []string) {
	ls := f.loopSpec(n)
	if ls == nil || f.g.noHooks[f.key] {
		ls = &LoopSpec{}
	}
	f.emit("while br(Ghost(" + cond + "))")
	f.indent++
	li := func(kind string, c Clause) *LineInfo {
		f.g.obls[f.key] += 2
		return &LineInfo{Fn: f.key, Kind: kind, Tags: c.Tags, Src: c.Src, Desc: "loop invariant: " + c.Text}
	}
	if hasBrk {
		f.emit("invariant_except_break !" + brk + ",")
		if f.ret != nil {
			f.emit("!" + f.ret.flag + ",")
		}
		for _, c := range ls.InvNB {
			f.emitI(f.rename(c.Text)+",", li("inv", c))
		}
	} else {
		ls = &LoopSpec{Inv: append(append([]Clause{}, ls.InvNB...), ls.Inv...), Ens: ls.Ens, Dec: ls.Dec}
	}
	known := *ls
	known.Inv = nil
	for _, c := range ls.Inv {
		if f.inScope(f.rename(c.Text)) {
			known.Inv = append(known.Inv, c)
		}
	}
	ls = &known
	var fr []Clause
	if len(f.c.Mods) > 0 {
		fr = f.g.frame(f.c.Mods)
	}
	if len(f.c.Keep) > 0 && !f.g.noHooks[f.key] {
		autoInv = append(autoInv, "0 < h0.next")
		fr = append(append(append([]Clause{}, f.c.Requires...), f.c.Keep...), fr...)
	}
	inv := len(autoInv)+len(ls.Inv)+len(fr) > 0
	if inv {
		f.emit("invariant")
		for _, s := range autoInv {
			f.g.obls[f.key] += 2
			f.emitI(s+",", &LineInfo{Fn: f.key, Kind: "inv", Desc: "loop index invariant"})
		}
		a := f.g.out.Len()
		for _, c := range fr {
			c.Text = h1RE.ReplaceAllString(c.Text, "h")
			f.emitI(c.Text+",", li("inv", c))
		}
		f.frames[n] = [2]int{a, f.g.out.Len()}
		for _, c := range ls.Inv {
			f.emitI(f.rename(c.Text)+",", li("inv", c))
		}
	}
	if hasBrk {
		f.emit("ensures (" + brk + " || !(" + cond + ")),")
		if f.ret != nil {
			f.emit("(" + f.ret.flag + " ==> " + brk + "),")
		}
		for _, c := range ls.Ens {
			f.emitI(f.rename(c.Text)+",", li("ens", c))
		}
	}
	dec := autoDec
	if ls.Dec != "" {
		dec = f.rename(ls.Dec)
	}
	if dec == "" {
		dec = "0int"
	}
	if f.g.eff {
		f.indent--
		f.emit("{")
		return
	}
	f.g.obls[f.key]++
	f.emitI("decreases "+dec+",", &LineInfo{Fn: f.key, Kind: "dec", Desc: "termination of the loop"})
	f.indent--
	f.emit("{")
}

// inScope reports whether the local variables which text names exist in the
// function being translated. A clause about another one is left out: it says
// something about code which is not there.
func (f *fx) inScope(text string) bool {
	s := f.g.out.String()
	if i := strings.LastIndex(s, "\nfn "); i >= 0 {
		s = s[i:]
	}
	for _, v := range localRE.FindAllString(text, -1) {
		if !strings.Contains(s, v+":") && !strings.Contains(s, v+" =") && !regexp.MustCompile(`\|[^|]*\b`+v+`\b[^|]*:`).MatchString(text) {
			return false
		}
	}
	return true
}

var heapWriteRE = regexp.MustCompile(`\bh = `)

// dropFrame removes the frame invariants of a loop which does not write to
// the heap: what the loop does not assign is unchanged anyway.
func (f *fx) dropFrame(n int) {
	r, ok := f.frames[n]
	if !ok || len(f.c.Keep) > 0 && !f.g.noHooks[f.key] {
		return
	}
	s := f.g.out.String()
	if heapWriteRE.MatchString(s[r[1]:]) {
		return
	}
	blank := []byte(s[r[0]:r[1]])
	for i := range blank {
		if blank[i] != '\n' {
			blank[i] = ' '
		}
	}
	f.g.obls[f.key] -= 2 * strings.Count(s[r[0]:r[1]], "\n")
	f.g.out.Reset()
	f.g.out.WriteString(s[:r[0]])
	f.g.out.Write(blank)
	f.g.out.WriteString(s[r[1]:])
}

func (f *fx) loopHook(n int, name string) {
	if ls := f.loopSpec(n); ls != nil && ls.Hooks[name] != "" {
		f.hook(ls.Hooks[name])
	}
}

// loopSpec gives the specification of loop n: the one for code which has the
// local variable it names, if any.
func (f *fx) loopSpec(n int) *LoopSpec {
	ls := f.c.Loops[n]
	if ls != nil && f.locals != nil {
		for _, a := range ls.Alts {
			if a.With == "range" && f.ranges[n] {
				return a
			}
			for _, l := range *f.locals {
				if strings.HasPrefix(l, a.With+" ") {
					return a
				}
			}
		}
	}
	return ls
}

func (f *fx) forStmt(s *ast.ForStmt) {
	f.emit("{")
	f.indent++
	defer func() {
		f.indent--
		f.emit("}")
	}()
	if s.Init != nil {
		f.stmt(s.Init)
	}
	*f.loopN++
	n := *f.loopN
	if a, ok := s.Init.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
		if id, ok := a.Lhs[0].(*ast.Ident); ok && id.Name != "_" && !f.addr[f.pkg.Info.Defs[id]] {
			f.aliasK[fmt.Sprintf("k%d", n)] = f.varName(f.pkg.Info.Defs[id])
		}
	}
	var autoInv []string
	decodeN := ""
	if v, xs := f.decodes(s, n); xs != nil {
		decodeN = fmt.Sprintf("k%d", n)
		sn, in := fmt.Sprintf("s%d", n), ""
		if v != nil {
			in = f.varName(v)
		} else {
			in = fmt.Sprintf("(%s.len() - %s.len())", sn, f.expr(xs))
		}
		delete(f.aliasK, decodeN)
		f.aliasK[fmt.Sprintf("i%d", n)] = in
		x := f.expr(xs)
		f.emit(fmt.Sprintf("let ghost %s: Seq<u8> = %s;", sn, x))
		f.emit(fmt.Sprintf("let ghost mut %s: int = 0;", decodeN))
		f.emit(fmt.Sprintf("proof { lemma_at_start(%s); }", sn))
		autoInv = append(autoInv, fmt.Sprintf("at_rune(%s, %s, %s)", sn, in, decodeN))
		if v != nil {
			autoInv = append(autoInv, fmt.Sprintf("%s == %s", x, sn))
		} else {
			autoInv = append(autoInv, fmt.Sprintf("%s =~= %s.skip(%s)", x, sn, in))
			f.emit(fmt.Sprintf("proof { assert(%s.skip(0) =~= %s); }", sn, sn))
		}
	} else if idx, xs := f.countsOver(s); idx != "" {
		kn, sn := fmt.Sprintf("k%d", n), fmt.Sprintf("s%d", n)
		if f.aliasK[kn] == "" {
			f.aliasK[kn] = idx
		}
		if f.aliasK[kn] == idx && f.loopMentions(n, sn) {
			x := f.expr(xs)
			f.emit(fmt.Sprintf("let ghost %s: %s = %s;", sn, f.g.ty(f.typeOf(xs)), x))
			autoInv = append(autoInv, fmt.Sprintf("0 <= %s <= %s.len()", idx, sn))
			if _, whole := elementWrites(xs, s.Body); !whole {
				autoInv = append(autoInv, fmt.Sprintf("%s.len() == %s.len()", x, sn))
			}
			defer func(old string) { f.element = old }(f.element)
			f.element = fmt.Sprintf("%s[%s]", sn, idx)
		}
	}
	brk := fmt.Sprintf("brk%d", n)
	stmtCond := s.Cond != nil && f.needsStmt(s.Cond)
	hasBrk := hasBreak(s.Body) || stmtCond || s.Cond == nil || (f.ret != nil && mayReturn(s.Body))
	if hasBrk {
		f.emit("let ghost mut " + brk + ": bool = false;")
	}
	f.loopHook(n, "before")
	cond := "true"
	if s.Cond != nil && !stmtCond {
		cond = f.expr(s.Cond)
	}
	f.loopHeader(n, cond, autoInv, f.autoDec(s), brk, hasBrk, nil)
	f.indent++
	f.emit("proof { assert(" + cond + "); }")
	if decodeN != "" {
		f.emit(fmt.Sprintf("proof { lemma_at_step(s%d, %s, %s); }", n, f.aliasK[fmt.Sprintf("i%d", n)], decodeN))
	}
	next := func() {
		f.loopHook(n, "bottom")
		if decodeN != "" {
			f.proof(decodeN + " = " + decodeN + " + 1;")
		}
		if s.Post != nil {
			f.stmt(s.Post)
		}
		if s.Cond != nil && !stmtCond {
			f.expr(s.Cond) // its run-time checks
		}
	}
	f.loops = append(f.loops, &loopCtx{n: n, brk: brk, onNext: next})
	if stmtCond {
		c := f.expr(s.Cond)
		f.emit("if br(Ghost(!(" + c + "))) { proof { " + brk + " = true; } break; }")
	}
	list := s.Body.List
	if v := definesOnly(list); v != "" && f.loopMentions(n, "v_"+v) {
		f.blockStmts(list[:1])
		list = list[1:]
	}
	f.loopHook(n, "top")
	f.blockStmts(list)
	if !terminates(s.Body) {
		next()
	}
	f.loops = f.loops[:len(f.loops)-1]
	f.indent--
	f.emit("}")
	if decodeN != "" && !hasBrk {
		f.emit(fmt.Sprintf("proof { lemma_at_end(s%d, %s, %s); }", n, f.aliasK[fmt.Sprintf("i%d", n)], decodeN))
	}
	f.afterLoop(n, s.Body, hasBrk)
}

// definesOnly gives the variable of a body which begins with v := x[i].
func definesOnly(list []ast.Stmt) string {
	if len(list) == 0 {
		return ""
	}
	a, ok := list[0].(*ast.AssignStmt)
	if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
		return ""
	}
	id, ok := a.Lhs[0].(*ast.Ident)
	if _, idx := a.Rhs[0].(*ast.IndexExpr); !ok || !idx {
		return ""
	}
	return id.Name
}

// loopMentions reports whether the specification of loop n mentions a name.
func (f *fx) loopMentions(n int, name string) bool {
	ls := f.loopSpec(n)
	if ls == nil {
		return false
	}
	re := regexp.MustCompile(`\b` + name + `\b`)
	for _, cs := range [][]Clause{ls.Inv, ls.InvNB, ls.Ens} {
		for _, c := range cs {
			if re.MatchString(f.rename(c.Text)) {
				return true
			}
		}
	}
	for _, h := range ls.Hooks {
		if re.MatchString(f.rename(h)) {
			return true
		}
	}
	return re.MatchString(ls.Dec)
}

// countsOver recognises a loop which counts a variable up to the length of a
// slice: it gives the variable and the slice.
func (f *fx) countsOver(s *ast.ForStmt) (string, ast.Expr) {
	var find func(e ast.Expr) (*ast.Ident, ast.Expr)
	find = func(e ast.Expr) (*ast.Ident, ast.Expr) {
		be, ok := ast.Unparen(e).(*ast.BinaryExpr)
		if !ok {
			return nil, nil
		}
		switch be.Op {
		case token.LAND:
			if id, x := find(be.X); id != nil {
				return id, x
			}
			return find(be.Y)
		case token.LSS, token.NEQ:
			id, ok := ast.Unparen(be.X).(*ast.Ident)
			c, ok2 := ast.Unparen(be.Y).(*ast.CallExpr)
			if !ok || !ok2 || len(c.Args) != 1 {
				return nil, nil
			}
			if b, ok := f.pkg.Info.Uses[callIdent(c)].(*types.Builtin); !ok || b.Name() != "len" {
				return nil, nil
			}
			if _, ok := f.typeOf(c.Args[0]).Underlying().(*types.Slice); !ok || f.needsStmt(c.Args[0]) {
				return nil, nil
			}
			return id, c.Args[0]
		}
		return nil, nil
	}
	if s.Cond == nil {
		return "", nil
	}
	id, x := find(s.Cond)
	if id == nil {
		return "", nil
	}
	obj := f.pkg.Info.Uses[id]
	if v, ok := obj.(*types.Var); !ok || v.Parent() == v.Pkg().Scope() || f.addr[obj] {
		return "", nil
	}
	return f.varName(obj), x
}

func callIdent(c *ast.CallExpr) *ast.Ident {
	id, _ := ast.Unparen(c.Fun).(*ast.Ident)
	return id
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.BREAK || s.Tok == token.CONTINUE
	}
	return false
}

func (f *fx) afterLoop(n int, body *ast.BlockStmt, hasBrk bool) {
	f.dropFrame(n)
	f.loopHook(n, "after")
	if f.ret != nil && mayReturn(body) && len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		f.emit("if br(Ghost(" + f.ret.flag + ")) { proof { " + l.brk + " = true; } break; }")
	}
}

// autoDec derives the obvious termination measure of a counting loop.
func (f *fx) autoDec(s *ast.ForStmt) string {
	return f.measureOf(s.Cond)
}

func (f *fx) measureOf(cond ast.Expr) string {
	if cond == nil {
		return ""
	}
	be, ok := ast.Unparen(cond).(*ast.BinaryExpr)
	if !ok {
		return ""
	}
	if be.Op == token.LAND {
		// the loop goes on only while both conditions hold
		if m := f.measureOf(be.X); m != "" {
			return m
		}
		return f.measureOf(be.Y)
	}
	if f.needsStmt(be) {
		return ""
	}
	pure := func(e ast.Expr) (r string) {
		f2 := f.sub(f.pkg)
		f2.spec, f2.noObl = true, true // the condition itself has its obligations
		defer func() {
			if x := recover(); x != nil {
				r = ""
			}
		}()
		return f2.expr(e)
	}
	x, y := pure(be.X), pure(be.Y)
	if x == "" || y == "" {
		return ""
	}
	m := ""
	switch be.Op {
	case token.LSS:
		m = y + " - " + x
	case token.LEQ:
		m = y + " - " + x + " + 1"
	case token.GTR:
		m = x + " - " + y
	case token.GEQ:
		m = x + " - " + y + " + 1"
	case token.NEQ:
		if b, ok := f.typeOf(be.X).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return "(if " + x + " <= " + y + " { " + y + " - " + x + " } else { " + x + " - " + y + " })"
		}
	}
	if m == "" {
		return ""
	}
	return "(if " + m + " > 0 { " + m + " } else { 0 })"
}

func exprText(fset *token.FileSet, e ast.Expr) string {
	return types.ExprString(e)
}

// elementWrites reports whether body writes elements of x, and whether it
// assigns x as a whole.
func elementWrites(x ast.Expr, body *ast.BlockStmt) (elem, whole bool) {
	txt := types.ExprString(ast.Unparen(x))
	ast.Inspect(body, func(n ast.Node) bool {
		check := func(l ast.Expr) {
			l = ast.Unparen(l)
			if types.ExprString(l) == txt {
				whole = true
			}
			for {
				switch y := l.(type) {
				case *ast.IndexExpr:
					if types.ExprString(ast.Unparen(y.X)) == txt {
						elem = true
					}
					l = ast.Unparen(y.X)
					continue
				case *ast.SelectorExpr:
					l = ast.Unparen(y.X)
					continue
				case *ast.ParenExpr:
					l = y.X
					continue
				}
				break
			}
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				check(l)
			}
		case *ast.IncDecStmt:
			check(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				check(n.X)
			}
		}
		return true
	})
	return
}

// runesOf gives the string of a conversion []rune(s).
func (f *fx) runesOf(e ast.Expr) ast.Expr {
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil
	}
	tv, ok := f.pkg.Info.Types[c.Fun]
	if !ok || !tv.IsType() {
		return nil
	}
	sl, ok := tv.Type.Underlying().(*types.Slice)
	if !ok || isByte(sl.Elem()) {
		return nil
	}
	if b, ok := f.typeOf(c.Args[0]).Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return nil
	}
	return c.Args[0]
}

// decodes recognises a loop for i := 0; i < len(s); {...} whose contract is
// about a loop over the runes of the string s.
func (f *fx) decodes(s *ast.ForStmt, n int) (*types.Var, ast.Expr) {
	kn := fmt.Sprintf("k%d", n)
	if old, ok := f.aliasK[kn]; ok {
		delete(f.aliasK, kn)
		defer func() { f.aliasK[kn] = old }()
	}
	if s.Cond == nil || !(f.loopMentions(n, fmt.Sprintf("k%d", n)) || f.loopMentions(n, fmt.Sprintf("i%d", n))) {
		return nil, nil
	}
	be, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr)
	if !ok {
		return nil, nil
	}
	local := func(e ast.Expr) *types.Var {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return nil
		}
		v, ok := f.pkg.Info.Uses[id].(*types.Var)
		if !ok || v.Parent() == v.Pkg().Scope() || f.addr[v] {
			return nil
		}
		return v
	}
	isString := func(e ast.Expr) bool {
		b, ok := f.typeOf(e).Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0 && !f.needsStmt(e)
	}
	lenOf := func(e ast.Expr) ast.Expr {
		c, ok := ast.Unparen(e).(*ast.CallExpr)
		if !ok || len(c.Args) != 1 || callIdent(c) == nil {
			return nil
		}
		if b, ok := f.pkg.Info.Uses[callIdent(c)].(*types.Builtin); !ok || b.Name() != "len" || !isString(c.Args[0]) {
			return nil
		}
		return c.Args[0]
	}
	constant := func(e ast.Expr, v string) bool {
		tv := f.pkg.Info.Types[e]
		return tv.Value != nil && tv.Value.ExactString() == v
	}
	switch be.Op {
	case token.LSS, token.NEQ:
		if x := lenOf(be.Y); x != nil && local(be.X) != nil {
			return local(be.X), x
		}
	}
	// the string itself is consumed
	switch {
	case (be.Op == token.GTR || be.Op == token.NEQ) && constant(be.Y, "0"):
		if x := lenOf(be.X); x != nil && local(x) != nil {
			return nil, x
		}
	case be.Op == token.NEQ && constant(be.Y, `""`):
		if local(be.X) != nil && isString(be.X) {
			return nil, be.X
		}
	}
	return nil, nil
}

func (f *fx) rangeStmt(s *ast.RangeStmt) {
	t := f.typeOf(s.X)
	f.emit("{")
	f.indent++
	defer func() {
		f.indent--
		f.emit("}")
	}()
	*f.loopN++
	n := *f.loopN
	f.ranges[n] = true
	sn, kn, in := fmt.Sprintf("s%d", n), fmt.Sprintf("k%d", n), fmt.Sprintf("i%d", n)
	if v := f.appendedIn(s); v != nil && f.loopMentions(n, fmt.Sprintf("acc%d", n)) {
		f.aliasK[fmt.Sprintf("acc%d", n)] = f.varName(v)
	}
	over := s.X
	if x := f.runesOf(s.X); x != nil && f.loopMentions(n, in) {
		// the contract is about a loop over the runes of the string itself
		over, t = x, f.typeOf(x)
	}
	xs := f.expr(over)
	brk := fmt.Sprintf("brk%d", n)
	hasBrk := hasBreak(s.Body) || (f.ret != nil && mayReturn(s.Body))
	if hasBrk {
		f.emit("let ghost mut " + brk + ": bool = false;")
	}
	// the contract may name the index as a loop which counts does
	idx := kn
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && over == s.X {
		idx = in
	}
	head := map[string]string{}
	if _, isMap := t.Underlying().(*types.Map); !isMap {
		if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" && s.Tok == token.DEFINE {
			head["v_"+id.Name] = idx
		} else {
			for v := range f.g.gone[f.key] {
				if f.loopMentions(n, v) && f.g.base[f.key][v] == "int" {
					head[v] = idx
				}
			}
			if len(head) > 1 {
				head = map[string]string{}
			}
		}
	}
	outer := f.aliasV
	atHead := func() {
		f.aliasV = map[string]string{}
		for k, v := range outer {
			f.aliasV[k] = v
		}
		for k, v := range head {
			f.aliasV[k] = v
		}
	}
	defer func() { f.aliasV = outer }()
	atHead()
	setVars := func(key, val string, kt, vt types.Type) {
		f.aliasV = outer
		if _, ok := s.Key.(*ast.Ident); !ok || s.Tok != token.DEFINE {
			atHead()
		}
		put := func(e ast.Expr, v string) {
			if e == nil {
				return
			}
			id, ok := e.(*ast.Ident)
			if ok && id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				f.declare(id, v)
			} else {
				f.assign(e, v)
			}
		}
		put(s.Key, key)
		put(s.Value, val)
	}
	var next func()
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			f.emit(fmt.Sprintf("let ghost %s: Seq<u8> = %s;", sn, xs))
			f.emit(fmt.Sprintf("let ghost mut %s: int = 0; let ghost mut %s: int = 0;", kn, in))
			f.emit(fmt.Sprintf("proof { lemma_at_start(%s); }", sn))
			f.loopHook(n, "before")
			f.loopHeader(n, in+" < "+sn+".len()", append([]string{fmt.Sprintf("at_rune(%s, %s, %s)", sn, in, kn)}, f.flips(s, kn)...),
				fmt.Sprintf("%s.len() - %s", sn, in), brk, hasBrk, nil)
			f.indent++
			f.emit(fmt.Sprintf("proof { lemma_at_step(%s, %s, %s); }", sn, in, kn))
			setVars(idx, fmt.Sprintf("runes(%s)[%s]", sn, kn), types.Typ[types.Int], types.Typ[types.Rune])
			next = func() {
				f.loopHook(n, "bottom")
				f.proof(fmt.Sprintf("%s = %s + widths(%s)[%s]; %s = %s + 1;", in, in, sn, kn, kn, kn))
			}
			break
		}
		if u.Info()&types.IsInteger != 0 {
			f.emit(fmt.Sprintf("let ghost %s: int = %s;", sn, xs))
			f.emit(fmt.Sprintf("let ghost mut %s: int = 0;", kn))
			f.loopHook(n, "before")
			f.loopHeader(n, kn+" < "+sn, []string{fmt.Sprintf("0 <= %s && (%s <= %s || %s == 0)", kn, kn, sn, kn)}, sn+" - "+kn, brk, hasBrk, nil)
			f.indent++
			setVars(kn, "", types.Typ[types.Int], nil)
			next = func() { f.loopHook(n, "bottom"); f.proof(kn + " = " + kn + " + 1;") }
			break
		}
		bail("%s: range over %s", f.pos(s), t)
	case *types.Slice, *types.Array:
		var el types.Type
		if sl, ok := u.(*types.Slice); ok {
			el = sl.Elem()
		} else {
			el = u.(*types.Array).Elem()
			if u.(*types.Array).Len() == 2 {
				bail("%s: range over a pair", f.pos(s))
			}
		}
		elem, whole := elementWrites(s.X, s.Body)
		if elem && whole {
			bail("%s: range over a slice which is modified in the loop", f.pos(s))
		}
		_, isArr := u.(*types.Array)
		f.emit(fmt.Sprintf("let ghost %s: %s = %s;", sn, f.g.ty(t), xs))
		f.emit(fmt.Sprintf("let ghost mut %s: int = 0;", kn))
		f.loopHook(n, "before")
		auto := []string{fmt.Sprintf("0 <= %s <= %s.len()", kn, sn)}
		auto = append(auto, f.flips(s, kn)...)
		if _, local := ast.Unparen(s.X).(*ast.Ident); local && !elem && !whole && s.Value == nil && xs != sn {
			auto = append(auto, fmt.Sprintf("%s == %s", xs, sn))
		}
		f.loopHeader(n, fmt.Sprintf("%s < %s.len()", kn, sn), auto,
			fmt.Sprintf("%s.len() - %s", sn, kn), brk, hasBrk, nil)
		f.indent++
		if s.Value != nil && elem && !isArr {
			live := f.expr(s.X)
			f.oblig(fmt.Sprintf("%s < %s.len()", kn, live), "range index out of range", s)
			setVars(kn, cast(fmt.Sprintf("%s[%s]", live, kn), el), nil, nil)
		} else {
			setVars(kn, cast(fmt.Sprintf("%s[%s]", sn, kn), el), nil, nil)
		}
		next = func() { f.loopHook(n, "bottom"); f.proof(kn + " = " + kn + " + 1;") }
	case *types.Map:
		kt := f.g.ty(u.Key())
		f.emit(fmt.Sprintf("let ghost %s: %s = %s;", sn, f.g.ty(t), xs))
		f.emit(fmt.Sprintf("let ghost mut %s: Set<%s> = Set::empty();", kn, kt))
		_, whole := elementWrites(s.X, s.Body)
		elem, _ := elementWrites(s.X, s.Body)
		if whole || elem {
			bail("%s: range over a map which is modified in the loop", f.pos(s))
		}
		f.emit(fmt.Sprintf("proof { axiom_map_finite(%s.m); }", sn))
		f.loopHook(n, "before")
		f.loopHeader(n, fmt.Sprintf("!(%s =~= %s.m.dom())", kn, sn), []string{fmt.Sprintf("%s.subset_of(%s.m.dom())", kn, sn)},
			fmt.Sprintf("%s.m.dom().difference(%s).len()", sn, kn), brk, hasBrk, nil)
		f.indent++
		e := fmt.Sprintf("e%d", n)
		f.emit(fmt.Sprintf("let %s_: Ghost<%s> = pick_key::<%s, %s>(Ghost(%s.m), Ghost(%s));", e, kt, kt, f.g.ty(u.Elem()), sn, kn))
		f.emit(fmt.Sprintf("let ghost %s: %s = %s_@;", e, kt, e))
		f.emit(fmt.Sprintf("proof { lemma_pick(%s.m.dom(), %s, %s); }", sn, kn, e))
		setVars(e, fmt.Sprintf("%s.m[%s]", sn, e), nil, nil)
		next = func() { f.loopHook(n, "bottom"); f.proof(fmt.Sprintf("%s = %s.insert(%s);", kn, kn, e)) }
	default:
		bail("%s: range over %s", f.pos(s), t)
	}
	f.loops = append(f.loops, &loopCtx{n: n, brk: brk, onNext: next})
	f.loopHook(n, "top")
	f.blockStmts(s.Body.List)
	if !terminates(s.Body) {
		next()
	}
	f.loops = f.loops[:len(f.loops)-1]
	f.indent--
	f.emit("}")
	atHead()
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !hasBrk {
		f.emit(fmt.Sprintf("proof { lemma_at_end(%s, %s, %s); }", sn, in, kn))
	}
	f.afterLoop(n, s.Body, hasBrk)
}

func cast(s string, t types.Type) string {
	if isByte(t) {
		return "(" + s + " as int)"
	}
	return s
}

// inlineStmts inlines the body of a function without contract.
func (f *fx) inlineStmts(c *ast.CallExpr, fi *FuncInfo, args []string) []string {
	if len(f.pc) > 0 {
		bail("%s: conditional call of %s", f.pos(c), fi.Key)
	}
	sig := fi.Obj.Type().(*types.Signature)
	n := f.sub(fi.Pkg)
	n.stack = append(append([]string{}, f.stack...), fi.Key)
	n.sig = sig
	n.loops = nil
	n.defers = nil
	n.named = nil
	n.names = map[types.Object]string{}
	n.own, n.ownArg = map[string]string{}, map[string]string{}
	n.addr = addrTaken(fi.Pkg, fi.Decl.Body)
	back := f.lend(n, c, fi)
	id := f.tmp()
	n.ret = &retCtx{flag: "ret_" + id}
	f.emit(fmt.Sprintf("let ghost mut %s: bool = false;", n.ret.flag))
	for i := 0; i < sig.Results().Len(); i++ {
		r := fmt.Sprintf("res_%s_%d", id, i)
		n.ret.results = append(n.ret.results, r)
		f.emit(fmt.Sprintf("let ghost mut %s: %s = %s;", r, f.g.ty(sig.Results().At(i).Type()), f.g.zero(sig.Results().At(i).Type())))
	}
	for i, a := range args {
		t := f.tmp()
		_ = i
		f.emit(fmt.Sprintf("let ghost %s = %s;", t, a))
		args[i] = t
	}
	// the final values of lent parameters, whose names may shadow the caller's
	lent := map[int]string{}
	for i, a := range c.Args {
		if _, ok := back[i]; ok {
			lent[i] = f.tmp()
			f.emit(fmt.Sprintf("let ghost mut %s: %s = %s;", lent[i], f.g.ty(f.typeOf(a)), f.expr(a)))
		}
	}
	f.emit("{")
	n.indent = f.indent + 1
	i := 0
	nRecv := 0
	if sig.Recv() != nil {
		nRecv = 1
	}
	consts, concrete := f.constArgs(c, sig), f.concreteArgs(c, sig)
	bind := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, fd := range fl.List {
			if len(fd.Names) == 0 {
				i++
				continue
			}
			for _, nm := range fd.Names {
				if obj := fi.Pkg.Info.Defs[nm]; obj != nil && nm.Name != "_" {
					n.bindKnown(fi, obj, i, consts, concrete)
					if a := i - nRecv; a >= 0 && a < len(c.Args) {
						if id, ok := ast.Unparen(c.Args[a]).(*ast.Ident); ok {
							if v, ok := f.pkg.Info.Uses[id].(*types.Var); ok {
								n.ownArg[n.varName(obj)] = f.varName(v)
							}
						}
					}
					n.declareObj(obj, args[i])
				}
				i++
			}
		}
	}
	bind(fi.Decl.Recv)
	bind(fi.Decl.Type.Params)
	if fi.Decl.Type.Results != nil {
		for _, fd := range fi.Decl.Type.Results.List {
			for _, nm := range fd.Names {
				obj := fi.Pkg.Info.Defs[nm]
				if obj != nil && nm.Name != "_" {
					n.declareObj(obj, f.g.zero(obj.Type()))
					n.named = append(n.named, obj)
				}
			}
		}
	}
	n.blockStmts(fi.Decl.Body.List)
	for i := range c.Args {
		if t, ok := lent[i]; ok {
			f.proof(t + " = " + n.varName(paramVar(fi, i)) + ";")
		}
	}
	f.emit("}")
	for i := range c.Args {
		if t, ok := lent[i]; ok {
			f.assign(back[i], t)
		}
	}
	return n.ret.results
}

// addrTaken lists the local variables whose address is taken, explicitly or
// by calling a pointer method.
func addrTaken(pkg *Pkg, body ast.Node) map[types.Object]bool {
	out := map[types.Object]bool{}
	exempt := map[ast.Node]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			// json.Unmarshal does not keep the address of its target
			if se, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 2 {
				if fn, ok := pkg.Info.Uses[se.Sel].(*types.Func); ok && fn.FullName() == "encoding/json.Unmarshal" {
					if u, ok := n.Args[1].(*ast.UnaryExpr); ok {
						exempt[u] = true
					}
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND && !exempt[n] {
				if id, ok := ast.Unparen(n.X).(*ast.Ident); ok {
					if v, ok := pkg.Info.Uses[id].(*types.Var); ok {
						out[v] = true
					}
				}
			}
		case *ast.SelectorExpr:
			sel := pkg.Info.Selections[n]
			if sel == nil || sel.Kind() != types.MethodVal {
				return true
			}
			fn := sel.Obj().(*types.Func)
			rt := fn.Type().(*types.Signature).Recv().Type()
			if _, ok := isPtr(rt); !ok {
				return true
			}
			if len(sel.Index()) > 1 {
				return true
			}
			id, ok := ast.Unparen(n.X).(*ast.Ident)
			if !ok {
				return true
			}
			v, ok := pkg.Info.Uses[id].(*types.Var)
			if !ok {
				return true
			}
			if _, ok := isPtr(v.Type()); ok {
				return true
			}
			if nt, ok := types.Unalias(v.Type()).(*types.Named); ok && (extPath(nt) == "strings.Builder" || extPath(nt) == "bytes.Buffer") {
				return true
			}
			out[v] = true
		}
		return true
	})
	return out
}
