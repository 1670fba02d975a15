package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

// etaExpand replaces the functions and methods of the package which are given
// as arguments by function literals which call them, and reports whether there
// were any. The declarations must be in the same file, so that the types of the
// parameters read the same there. The receiver of a method must be a variable:
// the translation of a function literal makes sure that it is not assigned.
func etaExpand(p *Pkg) bool {
	changed := false
	for _, af := range p.Files {
		decls := map[types.Object]*ast.FuncDecl{}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && p.Info.Defs[fd.Name] != nil {
				decls[p.Info.Defs[fd.Name]] = fd
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			for i, a := range c.Args {
				var fd *ast.FuncDecl
				switch a := a.(type) {
				case *ast.Ident:
					fd = decls[p.Info.Uses[a]]
				case *ast.SelectorExpr:
					sel := p.Info.Selections[a]
					if sel == nil || sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
						continue
					}
					id, ok := a.X.(*ast.Ident)
					if !ok {
						continue
					}
					if v, ok := p.Info.Uses[id].(*types.Var); !ok || !types.Identical(v.Type(), sel.Obj().(*types.Func).Type().(*types.Signature).Recv().Type()) {
						continue
					}
					fd = decls[sel.Obj()]
				}
				if fd == nil || fd.Type.TypeParams != nil {
					continue
				}
				if lit := etaLit(p, a, fd); lit != nil {
					c.Args[i] = lit
					changed = true
				}
			}
			return true
		})
	}
	return changed
}

func etaLit(p *Pkg, a ast.Expr, fd *ast.FuncDecl) *ast.FuncLit {
	sig := p.Info.Defs[fd.Name].Type().(*types.Signature)
	if sig.Variadic() {
		return nil
	}
	pointers := false
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Pointer); ok {
			pointers = true
		}
	}
	if fd.Recv == nil && !pointers {
		return nil
	}
	pos := a.Pos()
	params := &ast.FieldList{Opening: pos - 1, Closing: pos - 1}
	call := &ast.CallExpr{Fun: a, Lparen: pos, Rparen: a.End() - 1}
	n := 0
	for _, f := range fd.Type.Params.List {
		k := len(f.Names)
		if k == 0 {
			k = 1
		}
		for ; k > 0; k-- {
			name := fmt.Sprintf("eta%d", n)
			n++
			params.List = append(params.List, &ast.Field{Names: []*ast.Ident{{Name: name, NamePos: pos}}, Type: f.Type})
			call.Args = append(call.Args, &ast.Ident{Name: name, NamePos: pos})
		}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Func: pos, Params: params}, Body: &ast.BlockStmt{Lbrace: pos, Rbrace: a.End() - 1}}
	if fd.Type.Results == nil || sig.Results().Len() == 0 {
		lit.Body.List = []ast.Stmt{&ast.ExprStmt{X: call}}
		return lit
	}
	lit.Type.Results = &ast.FieldList{Opening: pos - 1, Closing: pos - 1}
	for _, f := range fd.Type.Results.List {
		k := len(f.Names)
		if k == 0 {
			k = 1
		}
		for ; k > 0; k-- {
			lit.Type.Results.List = append(lit.Type.Results.List, &ast.Field{Type: f.Type})
		}
	}
	lit.Body.List = []ast.Stmt{&ast.ReturnStmt{Return: token.Pos(pos), Results: []ast.Expr{call}}}
	return lit
}
