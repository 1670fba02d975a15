package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

// Local functions: a variable which holds one function literal, and is only
// called, stands for the text of that literal. Its calls are translated as the
// statements of the literal, in which captured variables are the variables
// themselves.

// localFunc gives the literal that e, the function of a call, stands for.
func (f *fx) localFunc(e ast.Expr) *ast.FuncLit {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return nil
	}
	v, ok := f.pkg.Info.Uses[id].(*types.Var)
	if !ok {
		return nil
	}
	return f.literalOf(v)
}

// literalOf gives the literal of a local function.
func (f *fx) literalOf(v *types.Var) *ast.FuncLit {
	if v.IsField() || v.Parent() == nil || v.Parent() == v.Pkg().Scope() {
		return nil
	}
	if _, ok := v.Type().Underlying().(*types.Signature); !ok {
		return nil
	}
	body := f.bodyOf(v)
	if body == nil {
		return nil
	}
	var lit *ast.FuncLit
	called := map[*ast.Ident]bool{}
	uses, calls, other := 0, 0, false
	depth := []ast.Node{}
	ast.Inspect(body, func(n ast.Node) bool {
		if n == nil {
			depth = depth[:len(depth)-1]
			return true
		}
		depth = append(depth, n)
		switch n := n.(type) {
		case *ast.AssignStmt:
			if n.Tok == token.DEFINE && len(n.Lhs) == 1 && len(n.Rhs) == 1 {
				if id, ok := n.Lhs[0].(*ast.Ident); ok && f.pkg.Info.Defs[id] == v {
					lit, _ = ast.Unparen(n.Rhs[0]).(*ast.FuncLit)
				}
			}
		case *ast.CallExpr:
			if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
				called[id] = true
			}
		case *ast.Ident:
			if f.pkg.Info.Uses[n] != v {
				break
			}
			uses++
			if called[n] {
				calls++
			}
			for _, d := range depth {
				switch d.(type) {
				case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt:
					other = true
				}
			}
		}
		return true
	})
	if lit == nil || uses != calls || other {
		return nil
	}
	return lit
}

// callLocal translates a call of a local function.
func (f *fx) callLocal(c *ast.CallExpr, lit *ast.FuncLit) []string {
	sig := f.typeOf(c.Fun).Underlying().(*types.Signature)
	if len(f.pc) > 0 {
		bail("%s: conditional call of a local function", f.pos(c))
	}
	if sig.Variadic() {
		bail("%s: variadic local function", f.pos(c))
	}
	for _, v := range capturesOf(f.pkg, lit) {
		sc := f.pkg.Types.Scope().Innermost(c.Pos())
		if sc == nil {
			bail("%s: scope of a local function", f.pos(c))
		}
		if _, o := sc.LookupParent(v.Name(), c.Pos()); o != types.Object(v) {
			bail("%s: %s, which the local function uses, is hidden here", f.pos(c), v.Name())
		}
	}
	args := f.args("", nil, c, sig)
	n := f.sub(f.pkg)
	n.sig = sig
	n.loops = nil
	n.defers = nil
	n.named = nil
	id := f.tmp()
	n.ret = &retCtx{flag: "ret_" + id}
	f.emit(fmt.Sprintf("let ghost mut %s: bool = false;", n.ret.flag))
	for i := 0; i < sig.Results().Len(); i++ {
		r := fmt.Sprintf("res_%s_%d", id, i)
		n.ret.results = append(n.ret.results, r)
		f.emit(fmt.Sprintf("let ghost mut %s: %s = %s;", r, f.g.ty(sig.Results().At(i).Type()), f.g.zero(sig.Results().At(i).Type())))
	}
	for i, a := range args {
		t := f.tmp()
		f.emit(fmt.Sprintf("let ghost %s = %s;", t, a))
		args[i] = t
	}
	f.emit("{")
	n.indent = f.indent + 1
	i := 0
	for _, fd := range lit.Type.Params.List {
		if len(fd.Names) == 0 {
			i++
		}
		for _, nm := range fd.Names {
			if obj := f.pkg.Info.Defs[nm]; obj != nil && nm.Name != "_" {
				n.declareObj(obj, args[i])
			}
			i++
		}
	}
	if lit.Type.Results != nil {
		for _, fd := range lit.Type.Results.List {
			for _, nm := range fd.Names {
				if obj := f.pkg.Info.Defs[nm]; obj != nil && nm.Name != "_" {
					n.declareObj(obj, f.g.zero(obj.Type()))
					n.named = append(n.named, obj)
				}
			}
		}
	}
	n.blockStmts(lit.Body.List)
	f.emit("}")
	return n.ret.results
}

// localFuncDef reports whether s defines a local function.
func (f *fx) localFuncDef(s *ast.AssignStmt) bool {
	if s.Tok != token.DEFINE || len(s.Lhs) != 1 {
		return false
	}
	id, ok := s.Lhs[0].(*ast.Ident)
	if !ok {
		return false
	}
	v, ok := f.pkg.Info.Defs[id].(*types.Var)
	return ok && f.literalOf(v) != nil
}

// flips gives invariants of a range loop about variables which have one constant
// value in the first iteration and another one in the others.
func (f *fx) flips(s *ast.RangeStmt, k string) []string {
	var out []string
	skips := false
	ast.Inspect(s.Body, func(n ast.Node) bool {
		if _, ok := n.(*ast.BranchStmt); ok {
			skips = true
		}
		return !skips
	})
	if skips {
		return nil
	}
	for _, st := range s.Body.List {
		a, ok := st.(*ast.AssignStmt)
		if !ok || a.Tok != token.ASSIGN || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
			continue
		}
		id, ok := a.Lhs[0].(*ast.Ident)
		if !ok {
			continue
		}
		v, ok := f.pkg.Info.Uses[id].(*types.Var)
		to, isConst := f.constVal(a.Rhs[0])
		if !ok || !isConst || f.addr[v] || v.Parent() == v.Pkg().Scope() {
			continue
		}
		body := f.bodyOf(v)
		if body == nil {
			continue
		}
		// the definition must be in the block of the loop, and nothing else may
		// assign the variable
		from, writes := "", 0
		ast.Inspect(body, func(n ast.Node) bool {
			var list []ast.Stmt
			switch n := n.(type) {
			case *ast.BlockStmt:
				list = n.List
			case *ast.CaseClause:
				list = n.Body
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if id, ok := ast.Unparen(l).(*ast.Ident); ok && (f.pkg.Info.Uses[id] == v || f.pkg.Info.Defs[id] == v) {
						writes++
					}
				}
			case *ast.IncDecStmt:
				if id, ok := ast.Unparen(n.X).(*ast.Ident); ok && f.pkg.Info.Uses[id] == v {
					writes += 2
				}
			case *ast.RangeStmt:
				for _, e := range []ast.Expr{n.Key, n.Value} {
					if id, ok := e.(*ast.Ident); ok && f.pkg.Info.Uses[id] == v {
						writes += 2
					}
				}
			case *ast.FuncLit:
				if mentions(f.pkg, n, v) {
					writes += 2
				}
			}
			def := ""
			for _, st := range list {
				if st == ast.Stmt(s) && def != "" {
					from = def
				}
				d, ok := st.(*ast.AssignStmt)
				if !ok || d.Tok != token.DEFINE || len(d.Lhs) != 1 || len(d.Rhs) != 1 {
					continue
				}
				if id, ok := d.Lhs[0].(*ast.Ident); ok && f.pkg.Info.Defs[id] == v {
					def, _ = f.constVal(d.Rhs[0])
				}
			}
			return true
		})
		if from == "" || writes != 2 {
			continue
		}
		out = append(out, fmt.Sprintf("%s == (if %s == 0 { %s } else { %s })", f.varName(v), k, from, to))
	}
	return out
}

// appendedIn gives the variable declared outside of a loop to which the loop
// appends, if there is only one.
func (f *fx) appendedIn(s *ast.RangeStmt) *types.Var {
	var out *types.Var
	n := 0
	ast.Inspect(s.Body, func(x ast.Node) bool {
		a, ok := x.(*ast.AssignStmt)
		if !ok || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
			return true
		}
		id, ok := a.Lhs[0].(*ast.Ident)
		if !ok {
			return true
		}
		c, ok := a.Rhs[0].(*ast.CallExpr)
		if !ok {
			return true
		}
		if fn, ok := c.Fun.(*ast.Ident); !ok || fn.Name != "append" {
			return true
		}
		if v, ok := f.pkg.Info.Uses[id].(*types.Var); ok && v != out && (v.Pos() < s.Pos() || v.Pos() >= s.End()) {
			out = v
			n++
		}
		return true
	})
	if n != 1 {
		return nil
	}
	return out
}

// compaction reports whether an append, c, is that of a loop which keeps some
// elements of a list in the list's own storage:
//
//	kept := X[:0]
//	for _, e := range X { ... kept = append(kept, e) ... }
//	X = kept
//
// with nothing in between, no other use of kept and X, no call, and at most one
// append per iteration. No element is then written before it has been read, so
// that kept may be taken for a list of its own. X must be exclusively owned.
func (f *fx) compaction(c *ast.CallExpr) bool {
	id, ok := ast.Unparen(c.Args[0]).(*ast.Ident)
	if !ok {
		return false
	}
	v, ok := f.pkg.Info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Parent() == v.Pkg().Scope() || f.addr[v] {
		return false
	}
	body := f.bodyOf(v)
	if body == nil {
		return false
	}
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		var list []ast.Stmt
		switch n := n.(type) {
		case *ast.BlockStmt:
			list = n.List
		case *ast.CaseClause:
			list = n.Body
		}
		for i := 0; i+2 < len(list); i++ {
			if f.compactionAt(list[i], list[i+1], list[i+2], c, v, body) {
				found = true
			}
		}
		return !found
	})
	return found
}

func (f *fx) compactionAt(s1, s2, s3 ast.Stmt, c *ast.CallExpr, v *types.Var, body ast.Node) bool {
	def, ok := s1.(*ast.AssignStmt)
	if !ok || def.Tok != token.DEFINE || len(def.Lhs) != 1 || len(def.Rhs) != 1 {
		return false
	}
	if id, ok := def.Lhs[0].(*ast.Ident); !ok || f.pkg.Info.Defs[id] != v {
		return false
	}
	sl, ok := ast.Unparen(def.Rhs[0]).(*ast.SliceExpr)
	if !ok || sl.Low != nil || sl.High == nil || sl.Max != nil {
		return false
	}
	if tv := f.pkg.Info.Types[sl.High]; tv.Value == nil || tv.Value.String() != "0" {
		return false
	}
	star, ok := ast.Unparen(sl.X).(*ast.StarExpr)
	if !ok {
		return false
	}
	pid, ok := ast.Unparen(star.X).(*ast.Ident)
	if !ok {
		return false
	}
	ptr, ok := f.pkg.Info.Uses[pid].(*types.Var)
	if !ok || ptr.Parent() == ptr.Pkg().Scope() || f.addr[ptr] || !f.ownedRoot(star) {
		return false
	}
	is := func(e ast.Expr) bool {
		st, ok := ast.Unparen(e).(*ast.StarExpr)
		if !ok {
			return false
		}
		id, ok := ast.Unparen(st.X).(*ast.Ident)
		return ok && f.pkg.Info.Uses[id] == ptr
	}
	loop, ok := s2.(*ast.RangeStmt)
	if !ok || !is(loop.X) || loop.Tok != token.DEFINE || loop.Value == nil || mentions(f.pkg, loop.Body, ptr) {
		return false
	}
	last, ok := s3.(*ast.AssignStmt)
	if !ok || last.Tok != token.ASSIGN || len(last.Lhs) != 1 || len(last.Rhs) != 1 || !is(last.Lhs[0]) {
		return false
	}
	if id, ok := ast.Unparen(last.Rhs[0]).(*ast.Ident); !ok || f.pkg.Info.Uses[id] != v {
		return false
	}
	// kept = append(kept, e), the two uses of kept in the loop
	uses, good := 0, true
	ast.Inspect(body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok {
			for _, r := range a.Rhs {
				good = good && !is(r) // no other name for the list
			}
		}
		if id, ok := n.(*ast.Ident); ok && f.pkg.Info.Uses[id] == v {
			uses++
		}
		return true
	})
	appends := 0
	ast.Inspect(loop.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.IndexExpr, *ast.SliceExpr, *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.ReturnStmt, *ast.DeferStmt, *ast.GoStmt:
			good = false
		case *ast.BranchStmt:
			good = good && n.Tok == token.CONTINUE && n.Label == nil
		case *ast.CallExpr:
			id, ok := ast.Unparen(n.Fun).(*ast.Ident)
			if ok {
				_, ok = f.pkg.Info.Uses[id].(*types.Builtin)
			}
			good = good && ok && (n == c || id.Name == "len")
		case *ast.AssignStmt:
			if len(n.Lhs) != 1 || len(n.Rhs) != 1 {
				good = false
				break
			}
			if ast.Unparen(n.Rhs[0]) == ast.Expr(c) {
				id, ok := n.Lhs[0].(*ast.Ident)
				if ok && f.pkg.Info.Uses[id] == v && n.Tok == token.ASSIGN && len(c.Args) == 2 && c.Ellipsis == token.NoPos && !mentions(f.pkg, c.Args[1], v) {
					appends++
				}
			}
		}
		return true
	})
	return good && appends == 1 && uses == 3
}
