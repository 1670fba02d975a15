package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// Recursion: every call which may lead back to its caller must decrease a
// measure. The call graph is computed from the current source: static calls,
// calls of interface methods (all implementations), function literals (called
// by whoever creates them and by every call of a function value of that type).

type callGraph struct {
	next  map[string]map[string]bool
	reach map[string]map[string]bool
}

func (cg *callGraph) edge(a, b string) {
	if cg.next[a] == nil {
		cg.next[a] = map[string]bool{}
	}
	cg.next[a][b] = true
}

func (g *Gen) buildCalls() *callGraph {
	cg := &callGraph{next: map[string]map[string]bool{}, reach: map[string]map[string]bool{}}
	type value struct {
		node string
		sig  *types.Signature
	}
	var values []value
	type dyn struct {
		node string
		sig  *types.Signature
	}
	var dyns []dyn
	litNode := func(p *Pkg, l *ast.FuncLit) string { return "lit:" + g.prog.Pos(l.Pos()) }
	ifaces := map[*types.Func]bool{}
	target := func(fn *types.Func) string {
		if g.prog.inModule(fn.Pkg()) == nil {
			return ""
		}
		k := g.funcKey(fn)
		if isIfaceMethod(fn) && !ifaces[fn] {
			ifaces[fn] = true
		}
		return k
	}
	for _, p := range g.prog.Order {
		p := p
		var walk func(node string, n ast.Node)
		walk = func(node string, n ast.Node) {
			called := map[ast.Expr]bool{}
			ast.Inspect(n, func(x ast.Node) bool {
				switch e := x.(type) {
				case *ast.FuncLit:
					if e == n {
						return true
					}
					l := litNode(p, e)
					cg.edge(node, l)
					if s, ok := p.Info.Types[e].Type.(*types.Signature); ok {
						values = append(values, value{l, s})
					}
					walk(l, e.Body)
					return false
				case *ast.CallExpr:
					fun := ast.Unparen(e.Fun)
					called[fun] = true
					if se, ok := fun.(*ast.SelectorExpr); ok {
						called[se.Sel] = true
					}
					if tv, ok := p.Info.Types[e.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
						return true
					}
					if fn := calleeOf(p, e); fn != nil {
						if k := target(fn); k != "" {
							cg.edge(node, k)
						}
						return true
					}
					if s, ok := p.Info.TypeOf(e.Fun).Underlying().(*types.Signature); ok {
						dyns = append(dyns, dyn{node, s})
					}
				case *ast.Ident:
					if fn, ok := p.Info.Uses[e].(*types.Func); ok && !called[e] {
						if k := target(fn); k != "" {
							s := fn.Type().(*types.Signature)
							values = append(values, value{k, types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())})
						}
					}
				}
				return true
			})
		}
		for _, file := range p.Files {
			for _, d := range file.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if fn, ok := p.Info.Defs[d.Name].(*types.Func); ok && d.Body != nil {
						walk(g.funcKey(fn), d.Body)
					}
				case *ast.GenDecl:
					walk("init:"+p.Path, d)
				}
			}
		}
	}
	for fn := range ifaces {
		it, ok := types.Unalias(fn.Type().(*types.Signature).Recv().Type()).(*types.Named)
		if !ok {
			continue
		}
		for _, v := range g.enumFor(it).variants {
			if m := g.method(v, fn.Name()); m != nil {
				cg.edge(g.funcKey(fn), g.funcKey(m))
			}
		}
	}
	for _, d := range dyns {
		for _, v := range values {
			if types.Identical(d.sig, v.sig) {
				cg.edge(d.node, v.node)
			}
		}
	}
	return cg
}

// reaches tells whether a call of a may lead to a call of b.
func (cg *callGraph) reaches(a, b string) bool {
	r := cg.reach[a]
	if r == nil {
		r = map[string]bool{a: true}
		todo := []string{a}
		for len(todo) > 0 {
			x := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for y := range cg.next[x] {
				if !r[y] {
					r[y] = true
					todo = append(todo, y)
				}
			}
		}
		cg.reach[a] = r
	}
	return r[b]
}

// node names the caller in the call graph.
func (g *Gen) callNode(key string) string {
	if l := g.lifted[key]; l != nil {
		return "lit:" + g.prog.Pos(l.Lit.Pos())
	}
	return key
}

// emitMeasure writes the measure of a contract as a spec function.
func (g *Gen) emitMeasure(ct *Contract, s *fsig) {
	if ct.Measure == "" || g.eff {
		return
	}
	g.write(fmt.Sprintf("pub open spec fn M_%s(%s) -> int { %s }", keyIdent(ct.Key), s.specParams(), ct.Measure), &LineInfo{Fn: ct.Key, Kind: "spec", Src: ct.Src})
}

// recursion checks that a call which may lead back to the caller decreases the measure.
func (f *fx) recursion(c ast.Node, key string, args []string) {
	g := f.g
	if g.eff || f.refines {
		return
	}
	if g.calls == nil {
		g.calls = g.buildCalls()
	}
	if !g.calls.reaches(key, g.callNode(f.key)) {
		return
	}
	ct := g.cs.M[key]
	if ct.Measure == "" || f.c == nil || f.c.Measure == "" {
		g.obls[f.key]++
		f.emitI("proof { assert(false); }", &LineInfo{Fn: f.key, Kind: "dec", Src: f.pos(c), Desc: "termination of the recursion: this call of " + key + " may lead back to " + f.key + " and no measure decreases"})
		return
	}
	m := "M_" + keyIdent(key) + "(h, " + strings.Join(args, ", ") + ")"
	t := f.tmp()
	f.emit("let ghost " + t + ": int = " + m + ";")
	f.oblig("0 <= "+t+" < "+f.measure, "termination of the recursion: the measure of "+key+" is below the one of "+f.key, c)
}
