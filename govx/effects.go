package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// Effects: which functions write to objects that calls may share.
//
// An object may be shared between calls when a component or a global can reach
// it. What types those objects have is computed from the fields of the types of
// the current source: all implementations of the interfaces of the module and
// the types of all package-level variables are followed through their fields.
// Objects of other types are reachable from one call (or one text) only.

// sharedTypes returns the heap types ("group.field") of objects reachable from
// components and globals.
func (g *Gen) sharedTypes() map[string]bool {
	out := map[string]bool{}
	all := false
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	heap := func(t types.Type) {
		h := g.heapKey(t)
		if h != "" {
			out[h] = true
		}
	}
	walk = func(t types.Type) {
		t = types.Unalias(t)
		if seen[t] {
			return
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() == nil || g.prog.inModule(n.Obj().Pkg()) == nil {
				return // the standard library and regexp2
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			heap(u.Elem())
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			walk(u.Key())
			walk(u.Elem())
		case *types.Chan:
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Interface:
			n, ok := t.(*types.Named)
			if !ok {
				all = true
				return
			}
			for _, v := range g.enumFor(n).variants {
				if v.ptr {
					walk(types.NewPointer(v.named))
				} else {
					walk(v.named)
				}
			}
		case *types.Signature:
			if g.funcTypeContract(u) != nil {
				out["cells"] = true
			}
		}
	}
	for _, p := range g.prog.Order {
		if strings.HasPrefix(p.Types.Path(), "container/") {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && !o.IsAlias() {
					if _, ok := nt.Underlying().(*types.Interface); ok && nt.TypeParams().Len() == 0 {
						walk(nt)
					}
				}
			case *types.Var:
				walk(o.Type())
			}
		}
	}
	if all {
		out["*"] = true
	}
	return out
}

// heapKey names the heap type of objects of type t.
func (g *Gen) heapKey(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return "cells"
	}
	p := g.prog.inModule(n.Obj().Pkg())
	if p == nil {
		return ""
	}
	return p.Name + "." + n.Obj().Name()
}

func (g *Gen) isShared(h *heapType) bool {
	if h.group == "cells" {
		return g.shared["cells"] || g.shared["*"]
	}
	return g.shared[h.group+"."+strings.TrimPrefix(h.field, h.group+"_")] || g.shared["*"]
}

// effPrelude defines effx(a, b, x): from a to b nothing shared which existed
// in a changed, but for the objects x.
func (g *Gen) effPrelude() {
	w := func(s string) { g.write(s, &LineInfo{Fn: "spec effects", Kind: "spec"}) }
	var sh, other []*heapType
	for _, k := range sortedKeys(g.heap) {
		h := g.heap[k]
		if g.isShared(h) {
			sh = append(sh, h)
		} else {
			other = append(other, h)
		}
	}
	w("#[verifier::opaque]")
	w("pub open spec fn effx(a: Heap, b: Heap, x: Set<int>) -> bool { a.next <= b.next")
	for _, h := range sh {
		w(fmt.Sprintf("  && (forall|p: int| 0 < p < a.next && !x.contains(p) ==> #[trigger] b.%s.%s[p] == a.%s.%s[p])", h.group, h.field, h.group, h.field))
	}
	w("}")
	w("pub proof fn lemma_eff_refl(a: Heap, x: Set<int>) ensures effx(a, a, x) { reveal(effx); }")
	w("pub proof fn lemma_eff_trans(a: Heap, b: Heap, c: Heap, x: Set<int>, y: Set<int>)")
	w("  requires effx(a, b, x), effx(b, c, y), forall|r: int| y.contains(r) ==> r >= a.next || x.contains(r) ensures effx(a, c, x) { reveal(effx); }")
	for _, h := range sh {
		w(fmt.Sprintf("pub proof fn lemma_eff_set_%s(a: Heap, b: Heap, x: Set<int>, r: int, v: %s)", h.field, h.spec))
		w(fmt.Sprintf("  requires effx(a, b, x), r >= a.next || x.contains(r) ensures effx(a, Heap { %s: HP_%s { %s: b.%s.%s.insert(r, v), ..b.%s }, ..b }, x) { reveal(effx); }", h.group, h.group, h.field, h.group, h.field, h.group))
		w(fmt.Sprintf("pub proof fn lemma_eff_new_%s(a: Heap, b: Heap, x: Set<int>, v: %s)", h.field, h.spec))
		w(fmt.Sprintf("  requires effx(a, b, x) ensures effx(a, Heap { next: b.next + 1, %s: HP_%s { %s: b.%s.%s.insert(b.next, v), ..b.%s }, ..b }, x) { reveal(effx); }", h.group, h.group, h.field, h.group, h.field, h.group))
	}
	for _, h := range other {
		w(fmt.Sprintf("pub proof fn lemma_eff_set_%s(a: Heap, b: Heap, x: Set<int>, r: int, v: %s)", h.field, h.spec))
		w(fmt.Sprintf("  requires effx(a, b, x) ensures effx(a, Heap { %s: HP_%s { %s: b.%s.%s.insert(r, v), ..b.%s }, ..b }, x) { reveal(effx); }", h.group, h.group, h.field, h.group, h.field, h.group))
		w(fmt.Sprintf("pub proof fn lemma_eff_new_%s(a: Heap, b: Heap, x: Set<int>, v: %s)", h.field, h.spec))
		w(fmt.Sprintf("  requires effx(a, b, x) ensures effx(a, Heap { next: b.next + 1, %s: HP_%s { %s: b.%s.%s.insert(b.next, v), ..b.%s }, ..b }, x) { reveal(effx); }", h.group, h.group, h.field, h.group, h.field, h.group))
	}
}

// effSet is the set of shared objects a contract lists as modified.
func (g *Gen) effSet(mods []Mod) string {
	var refs []string
	for _, m := range mods {
		if m.Any || m.Alloc || m.Trace {
			continue
		}
		h := g.heap[m.Type]
		if h == nil || !g.isShared(h) {
			continue
		}
		if m.Set {
			bail("a set of shared objects is modified")
		}
		refs = append(refs, "("+m.At+")")
	}
	if len(refs) == 0 {
		return "Set::<int>::empty()"
	}
	s := "Set::<int>::empty()"
	for _, r := range refs {
		s += ".insert" + r
	}
	return s
}

// effWrite emits the obligation of a write to an existing object.
func (f *fx) effWrite(h *heapType, ref, val string) {
	if !f.g.eff {
		return
	}
	x := f.g.effSet(f.c.Mods)
	if f.g.isShared(h) {
		f.g.obls[f.key]++
		f.emitI("proof { assert(("+ref+") >= h0.next || "+x+".contains("+ref+")); }", &LineInfo{Fn: f.key, Kind: "write", Src: f.at,
			Desc: "a write to a " + h.group + "." + h.field + ", which calls may share, goes to an object created by this call or listed in the contract"})
	}
	f.proof(fmt.Sprintf("lemma_eff_set_%s(h0, h, %s, %s, %s);", h.field, x, ref, val))
}

func (f *fx) effAlloc(h *heapType, val string) {
	if f.g.eff {
		f.proof(fmt.Sprintf("lemma_eff_new_%s(h0, h, %s, %s);", h.field, f.g.effSet(f.c.Mods), val))
	}
}

func (f *fx) effStart() {
	if f.g.eff {
		f.proof("lemma_eff_refl(h0, " + f.g.effSet(f.c.Mods) + ");")
	}
}

// effCall: what a callee lists as modified was created by this call or is
// listed here too.
func (f *fx) effCall(c ast.Node, key string, ct *Contract, args []string, before string) {
	x, y := f.g.effSet(f.c.Mods), f.g.effSet(ct.Mods)
	if y != "Set::<int>::empty()" {
		t := f.tmp()
		let := "let h0 = " + before + "; "
		off := 0
		if ct.Kind == "functype" {
			off = 1
			let += "let " + ct.CbName + " = " + args[0] + "; "
		}
		for i, n := range ct.Params {
			if i+off < len(args) {
				let += "let " + n + " = " + args[i+off] + "; "
			}
		}
		f.emit("let ghost " + t + ": Set<int> = { " + let + y + " };")
		y = t
		f.g.obls[f.key]++
		f.emitI("proof { assert(forall|r_: int| "+y+".contains(r_) ==> r_ >= h0.next || "+x+".contains(r_)); }", &LineInfo{Fn: f.key, Kind: "write", Src: f.pos(c),
			Desc: "what " + key + " modifies was created by this call or is listed in the contract"})
	}
	f.proof("lemma_eff_trans(h0, " + before + ", h, " + x + ", " + y + ");")
}
