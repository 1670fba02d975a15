package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

// A pointer to an element of a slice, x := &s[i], is translated as a name for
// s[i], where i is the value of the index when the pointer is taken. That is
// faithful as long as s refers to the same storage: s must not be assigned in
// the rest of the scope of x, x must not be assigned or used other than to
// reach the element, and for a list held by an object every use checks that
// the object still holds the list which it held when the pointer was taken.
type elemPtr struct {
	list  ast.Expr // s
	index string   // the value of i
	root  *types.Var
	local bool   // s is a local variable
	ghost string // the list, for a list held by an object
}

// elemPtrDef recognises x := &s[i] and registers x.
func (f *fx) elemPtrDef(s *ast.AssignStmt) bool {
	if s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
		return false
	}
	id, ok := s.Lhs[0].(*ast.Ident)
	if !ok || id.Name == "_" {
		return false
	}
	u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		return false
	}
	ix, ok := ast.Unparen(u.X).(*ast.IndexExpr)
	if !ok {
		return false
	}
	if _, ok := f.typeOf(ix.X).Underlying().(*types.Slice); !ok {
		return false
	}
	obj, ok := f.pkg.Info.Defs[id].(*types.Var)
	if !ok || f.addr[obj] {
		return false
	}
	root, local := f.listRoot(ix.X)
	if root == nil {
		return false
	}
	body := f.bodyOf(obj)
	if body == nil || !neverAssigned(f.pkg, obj, body) || !f.onlyReaches(obj, body) || f.listAssigned(obj, ix.X, root, s.End(), body) {
		return false
	}
	x := f.expr(ix.X)
	i := f.snapshot(f.expr(ix.Index), "int")
	f.oblig(fmt.Sprintf("0 <= %s < %s.len()", i, x), "index out of range", s)
	p := &elemPtr{list: ix.X, index: i, root: root, local: local}
	if !local {
		p.ghost = f.tmp() + "p"
		f.emit(fmt.Sprintf("let ghost mut %s: %s = %s;", p.ghost, f.g.ty(f.typeOf(ix.X)), x))
	}
	f.elems[obj] = p
	return true
}

// listRoot gives the variable by which a list is reached.
func (f *fx) listRoot(e ast.Expr) (v *types.Var, local bool) {
	local = true
	for {
		switch x := ast.Unparen(e).(type) {
		case *ast.Ident:
			v, ok := f.pkg.Info.Uses[x].(*types.Var)
			if !ok || v.Parent() == v.Pkg().Scope() {
				return nil, false
			}
			if _, ok := f.elems[v]; ok {
				return nil, false
			}
			if f.addr[v] {
				return nil, false
			}
			return v, local
		case *ast.SelectorExpr:
			if sel := f.pkg.Info.Selections[x]; sel == nil || sel.Kind() != types.FieldVal {
				return nil, false
			}
			local = false
			e = x.X
		case *ast.StarExpr:
			local = false
			e = x.X
		default:
			return nil, false
		}
	}
}

// onlyReaches reports whether x occurs only as x.f or *x.
func (f *fx) onlyReaches(x *types.Var, body ast.Node) bool {
	n, in := 0, 0
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && f.pkg.Info.Uses[id] == x
	}
	ast.Inspect(body, func(y ast.Node) bool {
		switch y := y.(type) {
		case *ast.FuncLit:
			if mentions(f.pkg, y, x) {
				n++ // captured
			}
			return false
		case *ast.Ident:
			if f.pkg.Info.Uses[y] == x {
				n++
			}
		case *ast.SelectorExpr:
			if sel := f.pkg.Info.Selections[y]; sel != nil && is(y.X) {
				if sel.Kind() == types.FieldVal {
					in++
				} else if m, ok := sel.Obj().(*types.Func); ok && len(sel.Index()) == 1 {
					if _, ptr := isPtr(m.Type().(*types.Signature).Recv().Type()); !ptr {
						in++
					}
				}
			}
		case *ast.StarExpr:
			if is(y.X) {
				in++
			}
		case *ast.UnaryExpr:
			// the address of the element or a part of it
			if y.Op == token.AND && mentions(f.pkg, y.X, x) {
				if _, isIx := ast.Unparen(y.X).(*ast.IndexExpr); !isIx {
					n++
				}
			}
		}
		return true
	})
	return n == in
}

// listAssigned reports whether the list, or what it is reached by, is assigned
// after pos in the scope of x.
func (f *fx) listAssigned(x *types.Var, list ast.Expr, root *types.Var, pos token.Pos, body ast.Node) bool {
	txt := types.ExprString(ast.Unparen(list))
	sc := x.Parent()
	bad := false
	check := func(l ast.Expr) {
		l = ast.Unparen(l)
		if l.Pos() < pos || l.Pos() >= sc.End() {
			return
		}
		if types.ExprString(l) == txt {
			bad = true
		}
		if id, ok := l.(*ast.Ident); ok && f.pkg.Info.Uses[id] == root {
			bad = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				check(l)
			}
		case *ast.RangeStmt:
			if n.Key != nil {
				check(n.Key)
			}
			if n.Value != nil {
				check(n.Value)
			}
		}
		return !bad
	})
	return bad
}

// elemOf gives the element which a pointer variable names, at its use.
func (f *fx) elemOf(e ast.Expr) ast.Expr {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return nil
	}
	p := f.elems[f.pkg.Info.Uses[id]]
	if p == nil {
		return nil
	}
	list := p.list
	if lid, ok := ast.Unparen(list).(*ast.Ident); ok {
		c := &ast.Ident{NamePos: id.Pos(), Name: lid.Name}
		f.pkg.Info.Uses[c] = f.pkg.Info.Uses[lid]
		f.pkg.Info.Types[c] = f.pkg.Info.Types[lid]
		list = c
	}
	if p.ghost != "" {
		f.oblig(f.expr(list)+" == "+p.ghost, "the list of a pointer to an element is still the same", e)
	}
	iv := types.NewVar(id.Pos(), f.pkg.Types, "i", types.Typ[types.Int])
	ii := &ast.Ident{NamePos: id.Pos(), Name: "i"}
	f.pkg.Info.Uses[ii] = iv
	f.pkg.Info.Types[ii] = types.TypeAndValue{Type: types.Typ[types.Int]}
	f.subst[iv] = p.index
	ix := &ast.IndexExpr{X: list, Lbrack: id.Pos(), Index: ii, Rbrack: id.End()}
	pt, _ := isPtr(f.pkg.Info.Uses[id].Type())
	f.pkg.Info.Types[ix] = types.TypeAndValue{Type: pt.Elem()}
	return ix
}

// elemStored records a write to the element which a pointer variable names.
func (f *fx) elemStored(e ast.Expr) {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return
	}
	if p := f.elems[f.pkg.Info.Uses[id]]; p != nil && p.ghost != "" {
		f.proof(p.ghost + " = " + f.expr(p.list) + ";")
	}
}
