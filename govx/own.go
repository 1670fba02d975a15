package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Slices and maps are translated to values. That is faithful only when no
// element is written through one of two live aliases; the checks below accept
// an element write or an append only where the target is known not to be
// shared: a local variable which only ever holds fresh storage and has not been
// stored elsewhere before, or storage of an object which the contract declares
// (and the evidence reports) as exclusively owned.

func (f *fx) owns(t types.Type) bool {
	if p, ok := isPtr(t); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	for _, a := range f.c.Attrs {
		if a == "owns "+n.Obj().Name() {
			return true
		}
	}
	return false
}

// ownedRoot reports whether x denotes exclusively owned storage.
func (f *fx) ownedRoot(x ast.Expr) bool {
	switch x := ast.Unparen(x).(type) {
	case *ast.Ident:
		obj := f.pkg.Info.Uses[x]
		v, ok := obj.(*types.Var)
		if !ok {
			return false
		}
		if f.isInit && v.Parent() == v.Pkg().Scope() {
			return true
		}
		return f.ownedVar(v)
	case *ast.StarExpr:
		return f.owns(f.typeOf(x.X))
	case *ast.SelectorExpr:
		return f.owns(f.typeOf(x.X))
	case *ast.IndexExpr:
		return f.ownedRoot(x.X)
	case *ast.SliceExpr:
		return f.ownedRoot(x.X)
	}
	return false
}

func (f *fx) fresh(e ast.Expr, self *types.Var) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if e.Name == "nil" {
			return true
		}
		return self != nil && f.pkg.Info.Uses[e] == self
	case *ast.CompositeLit:
		return true
	case *ast.SliceExpr:
		return self != nil && f.fresh(e.X, self)
	case *ast.BinaryExpr:
		return true
	case *ast.CallExpr:
		if tv, ok := f.pkg.Info.Types[e.Fun]; ok && tv.IsType() {
			from := f.typeOf(e.Args[0]).Underlying()
			if b, ok := from.(*types.Basic); ok && (b.Info()&types.IsString != 0 || b.Kind() == types.UntypedNil) {
				return true
			}
			return f.fresh(e.Args[0], self)
		}
		if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
			if _, ok := f.pkg.Info.Uses[id].(*types.Builtin); ok {
				switch id.Name {
				case "make":
					return true
				case "append":
					return f.fresh(e.Args[0], self)
				}
				return false
			}
		}
		if fn := f.callee(e); fn != nil {
			if f.g.freshFn(fn) {
				return true
			}
			if self != nil {
				for i, a := range e.Args {
					if f.fresh(a, self) && f.g.passes(fn, i) {
						return true
					}
				}
			}
		}
	}
	return false
}

// paramVar finds the i-th parameter of a function.
func paramVar(fi *FuncInfo, i int) *types.Var {
	k := 0
	for _, fd := range fi.Decl.Type.Params.List {
		if len(fd.Names) == 0 {
			k++
			continue
		}
		for _, nm := range fd.Names {
			if k == i {
				v, _ := fi.Pkg.Info.Defs[nm].(*types.Var)
				return v
			}
			k++
		}
	}
	return nil
}

type paramKey struct {
	fn *types.Func
	i  int
}

// slicePar gives the i-th parameter of a function of the module when it is a
// slice which the function neither captures nor takes the address of.
func (g *Gen) slicePar(fn *types.Func, i int) (*FuncInfo, *types.Var) {
	fi := g.prog.ByObj[fn]
	sig := fn.Type().(*types.Signature)
	if fi == nil || fi.Decl.Body == nil || sig.Variadic() {
		return nil, nil
	}
	v := paramVar(fi, i)
	if v == nil {
		return nil, nil
	}
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return nil, nil
	}
	ok := true
	uses := func(n ast.Node) bool {
		u := false
		ast.Inspect(n, func(x ast.Node) bool {
			if id, k := x.(*ast.Ident); k && fi.Pkg.Info.Uses[id] == v {
				u = true
			}
			return !u
		})
		return u
	}
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
			ok = ok && !uses(n)
		case *ast.UnaryExpr:
			ok = ok && !(n.Op == token.AND && uses(n))
		case *ast.SelectorExpr:
			if id, k := ast.Unparen(n.X).(*ast.Ident); k && fi.Pkg.Info.Uses[id] == v {
				ok = false // a method of a named slice type
			}
		}
		return ok
	})
	if !ok {
		return nil, nil
	}
	return fi, v
}

// passes reports whether the single result of fn is the storage of its i-th
// parameter (possibly appended to) or new storage, and fn keeps neither.
func (g *Gen) passes(fn *types.Func, i int) bool {
	k := paramKey{fn, i}
	if r, ok := g.passMemo[k]; ok {
		return r
	}
	g.passMemo[k] = false
	fi, v := g.slicePar(fn, i)
	if fi == nil || fn.Type().(*types.Signature).Results().Len() != 1 {
		return false
	}
	n := &fx{g: g, key: fi.Key, pkg: fi.Pkg, c: &Contract{}, moved: map[*types.Var]bool{v: true}}
	if !n.ownedVar(v) || n.escapesBefore(v, endOf(fi)) {
		return false
	}
	ok := true
	ast.Inspect(fi.Decl.Body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			ok = ok && len(x.Results) == 1 && (n.fresh(x.Results[0], v) || n.freshResult(x.Results[0], x))
		}
		return ok
	})
	g.passMemo[k] = ok
	return ok
}

type endNode token.Pos

func (e endNode) Pos() token.Pos { return token.Pos(e) }
func (e endNode) End() token.Pos { return token.Pos(e) }

func endOf(fi *FuncInfo) ast.Node { return endNode(fi.Decl.Body.End()) }

// borrows reports whether fn only reads and writes the elements of its i-th
// parameter, and keeps no reference to it.
func (g *Gen) borrows(fn *types.Func, i int) bool {
	k := paramKey{fn, i}
	if r, ok := g.borrowMemo[k]; ok {
		return r
	}
	g.borrowMemo[k] = false
	fi, v := g.slicePar(fn, i)
	if fi == nil || !neverAssigned(fi.Pkg, v, fi.Decl.Body) {
		return false
	}
	n := &fx{g: g, key: fi.Key, pkg: fi.Pkg, c: &Contract{}}
	if n.escapesBefore(v, endOf(fi)) {
		return false
	}
	ok := true
	ast.Inspect(fi.Decl.Body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if _, isB := n.typeOf(r).Underlying().(*types.Basic); !isB {
					ok = ok && n.freshResult(r, x)
				}
				if id, k := ast.Unparen(r).(*ast.Ident); k && fi.Pkg.Info.Uses[id] == v {
					ok = false
				}
			}
		}
		return ok
	})
	g.borrowMemo[k] = ok
	return ok
}

// takes reports whether the call c takes the slice in v and gives it back:
// v = fn(..., v, ...).
func (f *fx) takes(lhs ast.Expr, c *ast.CallExpr, v *types.Var) bool {
	id, ok := ast.Unparen(lhs).(*ast.Ident)
	if !ok || f.pkg.Info.Uses[id] != v {
		return false
	}
	fn := f.callee(c)
	if fn == nil {
		return false
	}
	n := 0
	for i, a := range c.Args {
		if mentions(f.pkg, a, v) {
			n++
			x, ok := ast.Unparen(a).(*ast.Ident)
			if !ok || f.pkg.Info.Uses[x] != v || !f.g.passes(fn, i) {
				if isLenOf(f.pkg, a, v) {
					n--
					continue
				}
				return false
			}
		}
	}
	return n == 1
}

// isLenOf reports whether the slice v occurs in e only as the operand of len
// or of an index.
func isLenOf(pkg *Pkg, e ast.Expr, v *types.Var) bool {
	n, in := 0, 0
	ast.Inspect(e, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.Ident:
			if pkg.Info.Uses[x] == v {
				n++
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" && len(x.Args) == 1 {
				if a, ok := ast.Unparen(x.Args[0]).(*ast.Ident); ok && pkg.Info.Uses[a] == v {
					in++
				}
			}
		case *ast.IndexExpr:
			if a, ok := ast.Unparen(x.X).(*ast.Ident); ok && pkg.Info.Uses[a] == v {
				in++
			}
		}
		return true
	})
	return n == in
}

func mentions(pkg *Pkg, e ast.Node, v *types.Var) bool {
	found := false
	ast.Inspect(e, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && pkg.Info.Uses[id] == v {
			found = true
		}
		return !found
	})
	return found
}

// lend decides how the slice arguments of a call which is inlined may be
// written: moved parameters hold storage nobody else refers to; the writes of
// a borrowed one are writes to the variable of the caller, which is returned.
func (f *fx) lend(n *fx, c *ast.CallExpr, fi *FuncInfo) map[int]ast.Expr {
	n.moved = map[*types.Var]bool{}
	back := map[int]ast.Expr{}
	sig := fi.Obj.Type().(*types.Signature)
	if c == nil || sig.Variadic() || len(c.Args) != sig.Params().Len() {
		return back
	}
	for i, a := range c.Args {
		pi, p := f.g.slicePar(fi.Obj, i)
		if pi == nil {
			continue
		}
		if f.fresh(a, nil) {
			n.moved[p] = true
			continue
		}
		id, ok := ast.Unparen(a).(*ast.Ident)
		if !ok {
			continue
		}
		v, ok := f.pkg.Info.Uses[id].(*types.Var)
		if !ok || v.Parent() == v.Pkg().Scope() || !f.ownedVar(v) || f.addr[v] || f.escapesBefore(v, c) {
			continue
		}
		if f.movedCall[c] == v {
			n.moved[p] = true
			continue
		}
		elem, _ := elementWrites(ast.NewIdent(p.Name()), fi.Decl.Body)
		if !elem || !f.g.borrows(fi.Obj, i) || f.rangedOver(v, c) {
			continue
		}
		alone := true
		for j, b := range c.Args {
			alone = alone && (j == i || !mentions(f.pkg, b, v) || isLenOf(f.pkg, b, v))
		}
		if !alone {
			continue
		}
		n.moved[p] = true
		back[i] = a
	}
	return back
}

// rangedOver reports whether the node is in the body of a range loop over v.
func (f *fx) rangedOver(v *types.Var, at ast.Node) bool {
	body := f.bodyOf(v)
	in := false
	if body != nil {
		ast.Inspect(body, func(n ast.Node) bool {
			if r, ok := n.(*ast.RangeStmt); ok && r.Pos() <= at.Pos() && at.Pos() < r.End() && mentions(f.pkg, r.X, v) {
				in = true
			}
			return !in
		})
	}
	return in
}

// freshFn reports whether the slices and maps which fn returns are always new
// storage, which nothing else refers to. For interface methods the contract
// says so, and it is checked for each implementation.
func (g *Gen) freshFn(fn *types.Func) bool {
	if r, ok := g.freshMemo[fn]; ok {
		return r
	}
	g.freshMemo[fn] = false // recursive functions
	r := g.freshFn1(fn)
	g.freshMemo[fn] = r
	return r
}

func (g *Gen) freshFn1(fn *types.Func) bool {
	fi := g.prog.ByObj[fn]
	if fi == nil || fi.Decl.Body == nil {
		ct := g.cs.M[g.funcKey(fn)]
		return ct != nil && ct.Fresh
	}
	n := &fx{g: g, key: fi.Key, pkg: fi.Pkg, c: &Contract{}}
	ok := true
	ast.Inspect(fi.Decl.Body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				ok = ok && fn.Type().(*types.Signature).Results().Len() == 0
			}
			for _, r := range x.Results {
				ok = ok && n.freshResult(r, x)
			}
		}
		return ok
	})
	return ok
}

func (f *fx) freshResult(r ast.Expr, at ast.Node) bool {
	switch t := f.typeOf(r).Underlying().(type) {
	case *types.Slice, *types.Map:
	case *types.Tuple:
		return f.fresh(r, nil)
	default:
		_ = t
		return true
	}
	if f.fresh(r, nil) {
		return true
	}
	e := ast.Unparen(r)
unwrap:
	for {
		switch x := e.(type) {
		case *ast.SliceExpr:
			e = ast.Unparen(x.X)
			continue
		case *ast.CallExpr:
			if id := callIdent(x); id != nil && len(x.Args) > 0 {
				if b, ok := f.pkg.Info.Uses[id].(*types.Builtin); ok && b.Name() == "append" {
					e = ast.Unparen(x.Args[0])
					continue
				}
			}
			if fn := f.callee(x); fn != nil {
				for i, a := range x.Args {
					if f.g.passes(fn, i) {
						e = ast.Unparen(a)
						continue unwrap
					}
				}
			}
		}
		break
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	v, ok := f.pkg.Info.Uses[id].(*types.Var)
	return ok && v.Parent() != v.Pkg().Scope() && f.ownedVar(v) && !f.escapesBefore(v, at)
}

// ownedVar reports whether every value assigned to the local v is fresh.
func (f *fx) ownedVar(v *types.Var) bool {
	body := f.bodyOf(v)
	if body == nil {
		return false
	}
	ok := true
	declared := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for i, l := range n.Lhs {
				id, k := ast.Unparen(l).(*ast.Ident)
				if !k || (f.pkg.Info.Defs[id] != v && f.pkg.Info.Uses[id] != v) {
					continue
				}
				declared = declared || f.pkg.Info.Defs[id] == v
				if len(n.Rhs) != len(n.Lhs) {
					ok = ok && f.fresh(n.Rhs[0], v)
				} else if !f.fresh(n.Rhs[i], v) {
					ok = false
				}
			}
		case *ast.ValueSpec:
			for i, id := range n.Names {
				if f.pkg.Info.Defs[id] == v {
					declared = true
					if len(n.Values) > 0 && (len(n.Values) != len(n.Names) || !f.fresh(n.Values[i], v)) {
						ok = false
					}
				}
			}
		case *ast.RangeStmt:
			for _, x := range []ast.Expr{n.Key, n.Value} {
				if id, k := x.(*ast.Ident); k && (f.pkg.Info.Defs[id] == v || f.pkg.Info.Uses[id] == v) {
					ok = false
				}
			}
		case *ast.UnaryExpr:
			if id, k := ast.Unparen(n.X).(*ast.Ident); k && n.Op == token.AND && f.pkg.Info.Uses[id] == v {
				ok = false
			}
		}
		return ok
	})
	if !declared && !f.isNamedResult(v) && !f.moved[v] {
		return false
	}
	return ok
}

func (f *fx) isNamedResult(v *types.Var) bool {
	for _, o := range f.named {
		if o == v {
			return true
		}
	}
	return false
}

// bodyOf finds the body of the declared function which contains v.
func (f *fx) bodyOf(v *types.Var) *ast.BlockStmt {
	for _, af := range f.pkg.Files {
		if v.Pos() < af.Pos() || v.Pos() >= af.End() {
			continue
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && v.Pos() >= fd.Pos() && v.Pos() < fd.End() {
				return fd.Body
			}
		}
	}
	return nil
}

// ownedWrite checks a write to an element of x.
func (f *fx) ownedWrite(x ast.Expr, n ast.Node) {
	if _, ok := f.typeOf(x).Underlying().(*types.Array); ok {
		return
	}
	if !f.ownedRoot(x) {
		bail("%s: write to an element of storage which may be shared", f.pos(n))
	}
	r := ast.Unparen(x)
	for {
		switch y := r.(type) {
		case *ast.IndexExpr:
			r = ast.Unparen(y.X)
			continue
		case *ast.SliceExpr:
			bail("%s: write through a slice expression", f.pos(n))
		}
		break
	}
	if id, ok := r.(*ast.Ident); ok {
		if v, ok := f.pkg.Info.Uses[id].(*types.Var); ok {
			if f.escapesBefore(v, n) {
				bail("%s: write to %s after it has been stored elsewhere", f.pos(n), v.Name())
			}
		}
	}
}

// escapesBefore reports whether v is copied somewhere before (or in a loop
// around) the write at n.
func (f *fx) escapesBefore(v *types.Var, at ast.Node) bool {
	body := f.bodyOf(v)
	if body == nil {
		return false
	}
	// the outermost loop around the write which does not contain v's declaration
	limit := at.Pos()
	ast.Inspect(body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if n.Pos() <= at.Pos() && at.Pos() < n.End() && !(n.Pos() <= v.Pos() && v.Pos() < n.End()) && n.End() > limit {
				limit = n.End()
			}
		}
		return true
	})
	esc := false
	isV := func(e ast.Expr) bool {
		e = ast.Unparen(e)
		for {
			s, ok := e.(*ast.SliceExpr)
			if !ok {
				break
			}
			e = ast.Unparen(s.X)
		}
		id, ok := e.(*ast.Ident)
		return ok && f.pkg.Info.Uses[id] == v && id.Pos() < limit
	}
	given := map[*ast.CallExpr]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for i, r := range n.Rhs {
				if c, ok := ast.Unparen(r).(*ast.CallExpr); ok && len(n.Lhs) == len(n.Rhs) && f.takes(n.Lhs[i], c, v) {
					given[c] = true
				}
				if isV(r) {
					if len(n.Lhs) == len(n.Rhs) {
						if id, ok := ast.Unparen(n.Lhs[i]).(*ast.Ident); ok && (f.pkg.Info.Uses[id] == v || id.Name == "_") {
							continue
						}
					}
					esc = true
				}
			}
		case *ast.ValueSpec:
			for _, r := range n.Values {
				if isV(r) {
					esc = true
				}
			}
		case *ast.CompositeLit:
			for _, e := range n.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					e = kv.Value
				}
				if isV(e) {
					esc = true
				}
			}
		case *ast.CallExpr:
			if tv, ok := f.pkg.Info.Types[n.Fun]; ok && tv.IsType() {
				for _, a := range n.Args {
					b, isB := tv.Type.Underlying().(*types.Basic)
					if isV(a) && !(isB && b.Info()&types.IsString != 0) {
						esc = true
					}
				}
				return true
			}
			if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
				if _, ok := f.pkg.Info.Uses[id].(*types.Builtin); ok {
					for i, a := range n.Args {
						if id.Name == "append" && i > 0 && n.Ellipsis == token.NoPos && isV(a) {
							esc = true
						}
					}
					return true
				}
			}
			fn := f.callee(n)
			if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok && isV(se.X) && !(fn != nil && f.g.keepsNothing(fn)) {
				esc = true
			}
			if given[n] || fn != nil && f.g.keepsNothing(fn) {
				return true
			}
			for i, a := range n.Args {
				if isV(a) && !(fn != nil && f.g.borrows(fn, i)) {
					esc = true
				}
			}
		}
		return !esc
	})
	return esc
}

// keepsNothing reports whether fn computes a value which shares no storage
// with its arguments.
func (g *Gen) keepsNothing(fn *types.Func) bool {
	if !g.pureFunc(fn, map[*types.Func]bool{}) {
		return false
	}
	basic := true
	rs := fn.Type().(*types.Signature).Results()
	for i := 0; i < rs.Len(); i++ {
		_, b := rs.At(i).Type().Underlying().(*types.Basic)
		basic = basic && b
	}
	return basic || g.freshFn(fn)
}

// checkAppend rejects appends which may write into shared storage.
func (f *fx) checkAppend(s *ast.AssignStmt) {
	for i, r := range s.Rhs {
		c, ok := ast.Unparen(r).(*ast.CallExpr)
		if !ok {
			continue
		}
		if id, ok := ast.Unparen(s.Lhs[i%len(s.Lhs)]).(*ast.Ident); ok && len(s.Lhs) == len(s.Rhs) {
			if v, ok := f.pkg.Info.Uses[id].(*types.Var); ok && f.takes(id, c, v) {
				f.movedCall[c] = v
			}
		}
		if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok && id.Name == "append" && len(s.Lhs) == len(s.Rhs) {
			if _, ok := f.pkg.Info.Uses[id].(*types.Builtin); ok {
				f.okAppend[c] = f.appendOK(c, s.Lhs[i])
			}
		}
	}
}

// checkReturn admits what a return statement does with the storage of a local
// variable which nothing else refers to: appending to it, or passing it to a
// function which gives it back.
func (f *fx) checkReturn(s *ast.ReturnStmt) {
	for i, r := range s.Results {
		c, ok := ast.Unparen(r).(*ast.CallExpr)
		if !ok {
			continue
		}
		isAppend := false
		if id := callIdent(c); id != nil && len(c.Args) > 0 {
			b, ok := f.pkg.Info.Uses[id].(*types.Builtin)
			isAppend = ok && b.Name() == "append"
		}
		var fn *types.Func
		if !isAppend {
			if fn = f.callee(c); fn == nil {
				continue
			}
		}
		for k, a := range c.Args {
			if isAppend && k > 0 || !isAppend && !f.g.passes(fn, k) {
				continue
			}
			e := ast.Unparen(a)
			for isAppend {
				x, ok := e.(*ast.SliceExpr)
				if !ok {
					break
				}
				e = ast.Unparen(x.X)
			}
			id, ok := e.(*ast.Ident)
			if !ok {
				continue
			}
			v, ok := f.pkg.Info.Uses[id].(*types.Var)
			if !ok || v.Parent() == v.Pkg().Scope() || f.addr[v] || !f.ownedVar(v) || f.escapesBefore(v, s) {
				continue
			}
			alone := true
			for j, b := range s.Results {
				alone = alone && (j == i || !mentions(f.pkg, b, v) || isLenOf(f.pkg, b, v))
			}
			for j, b := range c.Args {
				alone = alone && (j == k || !mentions(f.pkg, b, v) || isLenOf(f.pkg, b, v))
			}
			if !alone {
				continue
			}
			if isAppend {
				f.okAppend[c] = true
			} else {
				f.movedCall[c] = v
			}
		}
	}
}

func (f *fx) appendOK(c *ast.CallExpr, target ast.Expr) bool {
	a := ast.Unparen(c.Args[0])
	if f.fresh(a, nil) {
		return true
	}
	for {
		s, ok := a.(*ast.SliceExpr)
		if !ok {
			break
		}
		a = ast.Unparen(s.X)
	}
	if target == nil {
		return false
	}
	if f.compaction(c) {
		return true
	}
	same := strings.TrimSpace(types.ExprString(a)) == strings.TrimSpace(types.ExprString(ast.Unparen(target)))
	if !same {
		return false
	}
	return f.ownedRoot(a)
}

// singleDef checks that captured variables keep the value they have when the
// function literal is created.
func (f *fx) singleDef(e *ast.FuncLit) {
	for _, v := range capturesOf(f.pkg, e) {
		body := f.bodyOf(v)
		if body == nil {
			bail("%s: captured variable %s", f.pos(e), v.Name())
		}
		ast.Inspect(body, func(n ast.Node) bool {
			bad := false
			is := func(x ast.Expr) bool {
				id, ok := x.(*ast.Ident)
				return ok && f.pkg.Info.Uses[id] == v
			}
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					r := ast.Unparen(l)
					for {
						if ix, ok := r.(*ast.IndexExpr); ok {
							r = ast.Unparen(ix.X)
							continue
						}
						break
					}
					bad = bad || is(r)
				}
			case *ast.IncDecStmt:
				bad = is(ast.Unparen(n.X))
			case *ast.UnaryExpr:
				bad = n.Op == token.AND && is(ast.Unparen(n.X))
			case *ast.RangeStmt:
				bad = n.Tok == token.ASSIGN && (n.Key != nil && is(n.Key) || n.Value != nil && is(n.Value))
			}
			if bad {
				bail("%s: captured variable %s is assigned", f.pos(e), v.Name())
			}
			return true
		})
	}
}
