package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type unsupported struct{ msg string }

func bail(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

// LineInfo says what an emitted line stands for.
type LineInfo struct {
	Fn   string // function key
	Kind string // body, requires, ensures, inv, frame, oblig, hook, ...
	Tags []string
	Src  string // contract file line or Go position
	Desc string
}

type heapType struct{ group, field, spec string }

type Gen struct {
	prog        *Program
	cs          *Contracts
	out         strings.Builder
	line        int
	info        map[int]*LineInfo
	structs     map[string]string // name -> def
	sOrder      []string
	sSeen       map[*types.TypeName]string
	heap        map[string]*heapType // by field
	enums       map[string]*enumDef
	eOrder      []string
	anyTypes    map[string]bool
	failed      map[string]string // function -> reason it is outside the subset
	externs     map[string]bool
	used        map[string]map[string]bool // function -> callee contracts
	obls        map[string]int
	globals     map[string]string
	eff         bool // effects only
	calls       *callGraph
	shared      map[string]bool // heap types of objects which calls may share
	noHooks     map[string]bool
	renames     map[string]map[string]string
	gone        map[string]map[string]bool   // locals which are no longer there
	baseChanged map[string]map[string]bool   // those which change after their declaration
	base        map[string]map[string]string // locals when the contracts were written, with their types
	extUsed     map[string]map[string]bool
	inlined     map[string]map[string]bool

	canary   bool
	canaries map[string]bool
	locals   map[string]*[]string
	broken   map[string]bool
	extFns   map[string]*types.Func
	ftSig    map[string]*types.Signature
	lifted   map[string]*Lifted

	freshMemo  map[*types.Func]bool
	passMemo   map[paramKey]bool
	borrowMemo map[paramKey]bool
}

type enumDef struct {
	name     string
	iface    *types.Named
	variants []enumVariant
}
type enumVariant struct {
	name  string
	named *types.Named
	ptr   bool
}

func NewGen(p *Program, cs *Contracts) *Gen {
	g := &Gen{prog: p, cs: cs, info: map[int]*LineInfo{}, structs: map[string]string{}, sSeen: map[*types.TypeName]string{},
		heap: map[string]*heapType{}, enums: map[string]*enumDef{}, anyTypes: map[string]bool{}, failed: map[string]string{}, externs: map[string]bool{},
		used: map[string]map[string]bool{}, obls: map[string]int{}, globals: map[string]string{}, noHooks: map[string]bool{},
		renames: map[string]map[string]string{}, extUsed: map[string]map[string]bool{}, inlined: map[string]map[string]bool{}}
	g.reset()
	g.line = 1
	g.registerAll()
	g.registerLocals()
	return g
}

// reset forgets what one generation has recorded.
func (g *Gen) reset() {
	g.info = map[int]*LineInfo{}
	g.used = map[string]map[string]bool{}
	g.obls = map[string]int{}
	g.globals = map[string]string{}
	g.extUsed = map[string]map[string]bool{}
	g.inlined = map[string]map[string]bool{}
	g.canaries = map[string]bool{}
	g.locals = map[string]*[]string{}
	g.broken = map[string]bool{}
	g.extFns = map[string]*types.Func{}
	g.ftSig = map[string]*types.Signature{}
	g.lifted = map[string]*Lifted{}
	g.freshMemo = map[*types.Func]bool{}
	g.passMemo = map[paramKey]bool{}
	g.borrowMemo = map[paramKey]bool{}
}

// registerAll declares every package-level named type of the module, so that
// the ghost types do not depend on which functions are emitted.
func (g *Gen) registerAll() {
	for _, p := range g.prog.Order {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			func() {
				defer func() { recover() }()
				g.ty(tn.Type())
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					if _, isF := tn.Type().Underlying().(*types.Signature); !isF {
						g.heapOf(tn.Type())
						g.anyVariant(tn.Type())
					}
				}
			}()
		}
	}
}

// registerLocals declares the struct types declared inside functions.
func (g *Gen) registerLocals() {
	for _, p := range g.prog.Order {
		var tns []*types.TypeName
		for _, o := range p.Info.Defs {
			if tn, ok := o.(*types.TypeName); ok && !tn.IsAlias() && tn.Parent() != p.Types.Scope() {
				if _, isS := tn.Type().Underlying().(*types.Struct); isS {
					tns = append(tns, tn)
				}
			}
		}
		sort.Slice(tns, func(i, j int) bool { return tns[i].Pos() < tns[j].Pos() })
		for _, tn := range tns {
			func() {
				defer func() { recover() }()
				g.ty(tn.Type())
			}()
		}
	}
}

func extPath(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func (g *Gen) ty(t types.Type) string {
	t = types.Unalias(t)
	if extPtr(t) == "bufio.Scanner" {
		return "Scan"
	}
	switch t := t.(type) {
	case *types.Named:
		if t.Obj().Name() == "error" && t.Obj().Pkg() == nil {
			return "int"
		}
		if g.prog.inModule(t.Obj().Pkg()) == nil {
			switch extPath(t) {
			case "strings.Builder", "bytes.Buffer":
				return "Seq<u8>"
			case "unicode.RangeTable":
				return "RTable"
			}
			return g.ty(t.Underlying())
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			return g.structName(t.Obj(), u)
		case *types.Interface:
			return g.enumFor(t).name
		case *types.Signature:
			key := t.Obj().Pkg().Name() + "." + t.Obj().Name()
			if c := g.cs.M[key]; c != nil && c.Kind == "functype" {
				g.ftSig[key] = u
				return c.CbType
			}
			return g.ty(u)
		default:
			return g.ty(t.Underlying())
		}
	case *types.Basic:
		switch {
		case t.Info()&types.IsInteger != 0:
			return "int"
		case t.Info()&types.IsBoolean != 0:
			return "bool"
		case t.Info()&types.IsString != 0:
			return "Seq<u8>"
		case t.Info()&types.IsFloat != 0:
			return "real"
		}
		if t.Kind() == types.UntypedNil {
			return "int"
		}
	case *types.Pointer:
		if n, ok := types.Unalias(t.Elem()).(*types.Named); ok && extPath(n) == "unicode.RangeTable" {
			return "RTable"
		}
		return "int"
	case *types.Slice:
		return "Seq<" + g.elemTy(t.Elem()) + ">"
	case *types.Array:
		if t.Len() == 2 {
			e := g.elemTy(t.Elem())
			return "(" + e + ", " + e + ")"
		}
		return "Seq<" + g.elemTy(t.Elem()) + ">"
	case *types.Map:
		return "GMap<" + g.ty(t.Key()) + ", " + g.ty(t.Elem()) + ">"
	case *types.Struct:
		if t.NumFields() == 0 {
			return "()"
		}
	case *types.Signature:
		if c := g.funcTypeContract(t); c != nil {
			return c.CbType
		}
		if t.Results().Len() == 1 {
			var ps []string
			for i := 0; i < t.Params().Len(); i++ {
				ps = append(ps, g.ty(t.Params().At(i).Type()))
			}
			return "spec_fn(" + strings.Join(ps, ", ") + ") -> " + g.ty(t.Results().At(0).Type())
		}
	case *types.Interface:
		if t.Empty() {
			return "Any"
		}
	}
	bail("type %s is outside the subset", t)
	return ""
}

// funcTypeContract finds the functype contract of an (unnamed) function type
// which can have effects.
func (g *Gen) funcTypeContract(s *types.Signature) *Contract {
	if c := g.cs.M[sigKey(s)]; c != nil {
		g.ftSig[c.Key] = s
		return c
	}
	// a named function type with the same signature
	for _, p := range g.prog.Order {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if u, ok := tn.Type().Underlying().(*types.Signature); ok && types.Identical(u, s) {
				if c := g.cs.M[p.Name+"."+n]; c != nil && c.Kind == "functype" {
					g.ftSig[c.Key] = s
					return c
				}
			}
		}
	}
	return nil
}

func sigKey(s *types.Signature) string {
	var ps, rs []string
	q := func(p *types.Package) string { return p.Name() }
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, types.TypeString(s.Params().At(i).Type(), q))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, types.TypeString(s.Results().At(i).Type(), q))
	}
	return "func<" + strings.Join(ps, ",") + "><" + strings.Join(rs, ",") + ">"
}

func (g *Gen) elemTy(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return "u8"
	}
	return g.ty(t)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (g *Gen) structName(tn *types.TypeName, st *types.Struct) string {
	if n, ok := g.sSeen[tn]; ok {
		return n
	}
	name := tn.Name()
	if _, dup := g.structs[name]; dup {
		name = tn.Pkg().Name() + "_" + name
	}
	for _, dup := g.structs[name]; dup; _, dup = g.structs[name] {
		name += "_"
	}
	g.sSeen[tn] = name
	g.structs[name] = ""
	var sb strings.Builder
	fmt.Fprintf(&sb, "pub ghost struct %s {", name)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fmt.Fprintf(&sb, " pub %s: %s,", f.Name(), g.ty(f.Type()))
	}
	if st.NumFields() == 0 {
		sb.WriteString(" pub unit_: (),")
	}
	sb.WriteString(" }")
	g.structs[name] = sb.String()
	g.sOrder = append(g.sOrder, name)
	return name
}

func (g *Gen) enumFor(n *types.Named) *enumDef {
	name := n.Obj().Name()
	if e, ok := g.enums[name]; ok {
		return e
	}
	e := &enumDef{name: name, iface: n}
	g.enums[name] = e
	it := n.Underlying().(*types.Interface)
	for _, p := range g.prog.Order {
		sc := p.Types.Scope()
		names := sc.Names()
		for _, x := range names {
			tn, ok := sc.Lookup(x).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(nt, it) {
				e.variants = append(e.variants, enumVariant{x, nt, false})
			} else if types.Implements(types.NewPointer(nt), it) {
				e.variants = append(e.variants, enumVariant{x, nt, true})
			}
		}
	}
	sort.Slice(e.variants, func(i, j int) bool { return e.variants[i].name < e.variants[j].name })
	g.eOrder = append(g.eOrder, name)
	return e
}

// Values of type interface{}: the named struct types which are converted to it
// have a variant each.
func (g *Gen) anyVariant(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok || g.prog.inModule(n.Obj().Pkg()) == nil {
		return ""
	}
	name := g.ty(n)
	g.anyTypes[name] = true
	return name
}

func (g *Gen) anyOf(from types.Type, s string) string {
	if _, ok := from.Underlying().(*types.Interface); ok {
		return s
	}
	if v := g.anyVariant(from); v != "" {
		return "Any::" + v + "(" + s + ")"
	}
	return "any_other()"
}

func (g *Gen) emitAny() string {
	var sb strings.Builder
	sb.WriteString("pub ghost enum Any { Nil, Other(int),")
	var ns []string
	for n := range g.anyTypes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&sb, " %s(%s),", n, n)
	}
	sb.WriteString(" }\npub uninterp spec fn any_other() -> Any;")
	return sb.String()
}

func (g *Gen) emitEnum(e *enumDef) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "pub ghost enum %s { Nil, Other(int),", e.name)
	for _, v := range e.variants {
		if v.ptr {
			fmt.Fprintf(&sb, " %s(int),", v.name)
		} else {
			fmt.Fprintf(&sb, " %s(%s),", v.name, g.ty(v.named))
		}
	}
	sb.WriteString(" }")
	return sb.String()
}

// heapOf returns the heap map which holds objects of type t (the pointee).
func (g *Gen) heapOf(t types.Type) *heapType {
	var group, field string
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := g.prog.inModule(n.Obj().Pkg())
		if p == nil {
			bail("pointer to external type %s", t)
		}
		group = p.Name
		field = n.Obj().Name()
	} else {
		group = "cells"
		field = sanitize(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
	if h, ok := g.heap[field]; ok {
		if h.group != group {
			field = group + "_" + field
			if h2, ok := g.heap[field]; ok {
				return h2
			}
		} else {
			return h
		}
	}
	h := &heapType{group, field, g.ty(t)}
	g.heap[field] = h
	return h
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9':
			sb.WriteRune(r)
		case r == '[':
			sb.WriteString("Slice")
		case r == '*':
			sb.WriteString("Ptr")
		case r == '.':
			sb.WriteString("_")
		}
	}
	return sb.String()
}

func (g *Gen) zero(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Name() == "error" && n.Obj().Pkg() == nil {
			return "0int"
		}
		if g.prog.inModule(n.Obj().Pkg()) == nil {
			switch extPath(n) {
			case "strings.Builder", "bytes.Buffer":
				return "Seq::<u8>::empty()"
			}
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			return g.ty(t) + "::Nil"
		}
		if st, ok := n.Underlying().(*types.Struct); ok {
			return g.structLit(g.ty(t), st, nil)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "0int"
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsString != 0:
			return "Seq::<u8>::empty()"
		case u.Info()&types.IsFloat != 0:
			return "0real"
		case u.Kind() == types.UntypedNil:
			return "0int"
		}
	case *types.Pointer:
		return "0int"
	case *types.Slice:
		return "Seq::<" + g.elemTy(u.Elem()) + ">::empty()"
	case *types.Array:
		z := g.zero(u.Elem())
		if u.Len() == 2 {
			return "(" + z + ", " + z + ")"
		}
		if isByte(u.Elem()) {
			z = "0u8"
		}
		return fmt.Sprintf("Seq::<%s>::new(%d, |i_: int| %s)", g.elemTy(u.Elem()), u.Len(), z)
	case *types.Map:
		return fmt.Sprintf("GMap::<%s, %s> { nil: true, m: Map::empty() }", g.ty(u.Key()), g.ty(u.Elem()))
	case *types.Signature:
		return "arbitrary::<" + g.ty(t) + ">()"
	case *types.Struct:
		return "()"
	}
	bail("no zero value for %s", t)
	return ""
}

func (g *Gen) structLit(name string, st *types.Struct, vals map[string]string) string {
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		v, ok := vals[f.Name()]
		if !ok {
			v = g.zero(f.Type())
		}
		fs = append(fs, f.Name()+": "+v)
	}
	if st.NumFields() == 0 {
		fs = append(fs, "unit_: ()")
	}
	return name + " { " + strings.Join(fs, ", ") + " }"
}
