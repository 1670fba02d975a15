package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

type loopCtx struct {
	n       int
	brk     string
	onNext  func() // what runs before the next iteration
	label   string
	flagRet *retCtx
}

// retCtx tells how return statements leave an inlined function.
type retCtx struct {
	flag    string
	results []string
	used    bool
}

type fx struct {
	g         *Gen
	key       string
	pkg       *Pkg
	c         *Contract
	indent    int
	loopN     *int
	frames    map[int][2]int // loop -> extent of its frame invariants
	tmpN      *int
	callN     map[string]int
	pc        []string
	subst     map[types.Object]string
	consts    map[types.Object]string     // parameters of an inlined function bound to a constant
	concrete  map[types.Object]types.Type // parameters of interface type bound to a value of a known type
	addr      map[types.Object]bool
	names     map[types.Object]string
	spec      bool // no statement may be emitted
	noObl     bool // run-time checks are obligations elsewhere (a loop condition as its measure)
	ret       *retCtx
	loops     []*loopCtx
	sig       *types.Signature
	named     []types.Object
	defers    []*ast.FuncLit
	scanOK    bool // reading a bufio.Scanner variable
	stack     []string
	isInit    bool
	hasHeap   bool
	locals    *[]string
	aliasK    map[string]string
	ranges    map[int]bool      // loops which are range statements
	aliasV    map[string]string // names of the index of the loop being entered
	element   string            // current element of a counting loop
	ownArg    map[string]string // variables passed for the parameters of an inlined function
	own       map[string]string // locals of an inlined function, with their types
	litN      *int
	retNames  []string
	elems     map[types.Object]*elemPtr // pointers to elements of slices
	okAppend  map[*ast.CallExpr]bool
	moved     map[*types.Var]bool          // parameters of an inlined function whose storage nobody else refers to
	movedCall map[*ast.CallExpr]*types.Var // calls which take a variable and give it back
	at        string                       // position of the current statement
	measure   string                       // measure of the function at its start
	refines   bool                         // the body of a refinement, not of a function
}

func (f *fx) typeOf(e ast.Expr) types.Type {
	t := f.pkg.Info.TypeOf(e)
	if t == nil {
		bail("no type for expression at %s", f.g.prog.Pos(e.Pos()))
	}
	return t
}

func (f *fx) pos(n ast.Node) string { return f.g.prog.Pos(n.Pos()) }

func (f *fx) emit(s string) { f.emitI(s, &LineInfo{Fn: f.key, Kind: "body"}) }

func (f *fx) emitI(s string, li *LineInfo) {
	if f.spec {
		bail("statement inside a pure expression")
	}
	f.g.write(strings.Repeat("  ", f.indent)+s, li)
}

func (g *Gen) write(s string, li *LineInfo) {
	for _, ln := range strings.Split(s, "\n") {
		g.out.WriteString(ln + "\n")
		if li != nil {
			g.info[g.line] = li
		}
		g.line++
	}
}

func (f *fx) tmp() string {
	*f.tmpN++
	return fmt.Sprintf("t%d", *f.tmpN)
}

func conj(xs []string) string {
	if len(xs) == 0 {
		return "true"
	}
	return "(" + strings.Join(xs, ") && (") + ")"
}

// oblig emits a proof obligation for a run-time panic condition.
func (f *fx) oblig(cond, desc string, n ast.Node) {
	if f.g.eff {
		return
	}
	if f.noObl {
		return
	}
	if f.spec {
		bail("%s: possible panic (%s) inside a pure callback", f.pos(n), desc)
	}
	if len(f.pc) > 0 {
		cond = conj(f.pc) + " ==> (" + cond + ")"
	}
	f.g.obls[f.key]++
	f.emitI("proof { assert("+cond+"); }", &LineInfo{Fn: f.key, Kind: "panic", Src: f.pos(n), Desc: desc})
}

func (f *fx) proof(s string) { f.emit("proof { " + s + " }") }

// snapshot stores an expression in a ghost temporary.
func (f *fx) snapshot(e, ty string) string {
	t := f.tmp()
	f.emit(fmt.Sprintf("let ghost %s: %s = %s;", t, ty, e))
	return t
}

// flat names a value whose text holds a macro call, which Verus does not
// accept inside Ghost(..).
func (f *fx) flat(v string) string {
	if !strings.Contains(v, "!") {
		return v
	}
	t := f.tmp()
	f.emit("let ghost " + t + " = " + v + ";")
	return t
}

func (f *fx) constVal(e ast.Expr) (string, bool) {
	tv, ok := f.pkg.Info.Types[e]
	if !ok || tv.Value == nil {
		return "", false
	}
	return f.constLit(tv.Value, tv.Type), true
}

// constArgs lists the arguments of a call which are compile-time constants,
// by their position (receiver first).
func (f *fx) constArgs(c *ast.CallExpr, sig *types.Signature) map[int]string {
	out := map[int]string{}
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	if c == nil || sig.Variadic() || len(c.Args) != sig.Params().Len() {
		return out
	}
	for i, a := range c.Args {
		pt := sig.Params().At(i).Type()
		if tv, ok := f.pkg.Info.Types[a]; ok && tv.Value != nil {
			if _, isB := pt.Underlying().(*types.Basic); isB {
				out[off+i] = f.constLit(tv.Value, pt)
			}
			continue
		}
		if id, ok := ast.Unparen(a).(*ast.Ident); ok {
			if s, ok := f.consts[f.pkg.Info.Uses[id]]; ok {
				out[off+i] = s
			}
		}
	}
	return out
}

// concreteArgs lists the arguments for parameters of interface type whose
// static type is a concrete one, by their position (receiver first).
func (f *fx) concreteArgs(c *ast.CallExpr, sig *types.Signature) map[int]types.Type {
	out := map[int]types.Type{}
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	if c == nil || sig.Variadic() || len(c.Args) != sig.Params().Len() {
		return out
	}
	for i, a := range c.Args {
		nt, ok := types.Unalias(sig.Params().At(i).Type()).(*types.Named)
		if !ok || nt.Obj().Pkg() == nil {
			continue
		}
		if _, isI := nt.Underlying().(*types.Interface); !isI {
			continue
		}
		if id, ok := ast.Unparen(a).(*ast.Ident); ok {
			if t, ok := f.concrete[f.pkg.Info.Uses[id]]; ok {
				out[off+i] = t
				continue
			}
		}
		t := f.typeOf(a)
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			continue
		}
		if _, isI := t.Underlying().(*types.Interface); !isI {
			out[off+i] = t
		}
	}
	return out
}

// bindKnown records what is known of the argument of a parameter.
func (f *fx) bindKnown(fi *FuncInfo, obj types.Object, i int, consts map[int]string, concrete map[int]types.Type) {
	s, isC := consts[i]
	t, isT := concrete[i]
	if (isC || isT) && neverAssigned(fi.Pkg, obj, fi.Decl.Body) {
		if isC {
			f.consts[obj] = s
		}
		if isT {
			f.concrete[obj] = t
		}
	}
}

// neverAssigned reports whether a parameter keeps its value in body.
func neverAssigned(pkg *Pkg, v types.Object, body ast.Node) bool {
	ok := true
	is := func(e ast.Expr) bool {
		id, k := ast.Unparen(e).(*ast.Ident)
		return k && pkg.Info.Uses[id] == v
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				ok = ok && !is(l)
			}
		case *ast.IncDecStmt:
			ok = ok && !is(n.X)
		case *ast.RangeStmt:
			ok = ok && !(n.Key != nil && is(n.Key)) && !(n.Value != nil && is(n.Value))
		case *ast.UnaryExpr:
			ok = ok && !(n.Op == token.AND && is(n.X))
		}
		return ok
	})
	return ok
}

func (f *fx) constLit(v constant.Value, t types.Type) string {
	b, _ := t.Underlying().(*types.Basic)
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return "true"
		}
		return "false"
	case constant.String:
		return strLit(constant.StringVal(v))
	case constant.Int, constant.Float:
		if b != nil && b.Info()&types.IsFloat != 0 {
			num, den := constant.Num(v), constant.Denom(v)
			if den.ExactString() == "1" {
				return "(" + num.ExactString() + "real)"
			}
			return "(" + num.ExactString() + "real / " + den.ExactString() + "real)"
		}
		s := constant.ToInt(v).ExactString()
		if strings.HasPrefix(s, "-") {
			return "(" + s + "int)"
		}
		return s + "int"
	}
	bail("constant %s", v)
	return ""
}

func strLit(s string) string {
	if s == "" {
		return "Seq::<u8>::empty()"
	}
	var sb strings.Builder
	sb.WriteString("seq![")
	for i := 0; i < len(s); i++ {
		if i > 0 {
			sb.WriteString(", ")
		}
		fmt.Fprintf(&sb, "%du8", s[i])
	}
	sb.WriteString("]")
	return sb.String()
}

func (f *fx) heapGet(t types.Type, ref string) string {
	h := f.g.heapOf(t)
	return fmt.Sprintf("h.%s.%s[%s]", h.group, h.field, ref)
}

func (f *fx) heapSet(t types.Type, ref, val string) {
	h := f.g.heapOf(t)
	f.effWrite(h, ref, val)
	f.proof(fmt.Sprintf("h = Heap { %s: HP_%s { %s: h.%s.%s.insert(%s, %s), ..h.%s }, ..h };",
		h.group, h.group, h.field, h.group, h.field, ref, val, h.group))
}

// alloc stores a new object and returns its reference.
func (f *fx) alloc(t types.Type, val string) string {
	h := f.g.heapOf(t)
	r := f.tmp()
	f.emit(fmt.Sprintf("let ghost %s: int = h.next;", r))
	f.effAlloc(h, val)
	f.proof(fmt.Sprintf("h = Heap { next: h.next + 1, %s: HP_%s { %s: h.%s.%s.insert(%s, %s), ..h.%s }, ..h };",
		h.group, h.group, h.field, h.group, h.field, r, val, h.group))
	return r
}

func (f *fx) deref(ptr ast.Expr, e string) {
	// A receiver is checked like any other pointer.
	f.oblig(e+" != 0", "nil pointer dereference", ptr)
}

func (f *fx) varName(obj types.Object) string {
	if n, ok := f.names[obj]; ok {
		return n
	}
	n := "v_" + obj.Name()
	f.names[obj] = n
	return n
}

func isPtr(t types.Type) (*types.Pointer, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	return p, ok
}

// readVar reads a variable.
func (f *fx) readVar(id *ast.Ident, obj types.Object) string {
	if s, ok := f.subst[obj]; ok {
		return s
	}
	v, ok := obj.(*types.Var)
	if !ok {
		bail("%s: object %s", f.pos(id), obj)
	}
	if _, ok := f.elems[obj]; ok {
		bail("%s: a pointer to an element is used as a value", f.pos(id))
	}
	if extPtr(v.Type()) == "bufio.Scanner" && !f.scanOK {
		bail("%s: a bufio.Scanner is used as a value", f.pos(id))
	}
	if v.Parent() == v.Pkg().Scope() {
		return f.g.globalRead(f, v, id)
	}
	if f.addr[obj] {
		return f.heapGet(v.Type(), f.varName(obj))
	}
	return f.varName(obj)
}

func (f *fx) expr(e ast.Expr) string {
	if s, ok := f.constVal(e); ok {
		return s
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return f.expr(e.X)
	case *ast.Ident:
		if e.Name == "nil" {
			return f.nilOf(f.typeOf(e))
		}
		obj := f.pkg.Info.Uses[e]
		if obj == nil {
			obj = f.pkg.Info.Defs[e]
		}
		if fn, ok := obj.(*types.Func); ok {
			return f.funcValue(e, fn)
		}
		return f.readVar(e, obj)
	case *ast.SelectorExpr:
		return f.selector(e)
	case *ast.IndexExpr:
		return f.index(e)
	case *ast.SliceExpr:
		return f.slice(e)
	case *ast.StarExpr:
		if r := f.elemOf(e.X); r != nil {
			return f.expr(r)
		}
		p := f.expr(e.X)
		f.deref(e, p)
		pt, _ := isPtr(f.typeOf(e.X))
		return f.heapGet(pt.Elem(), p)
	case *ast.UnaryExpr:
		return f.unary(e)
	case *ast.BinaryExpr:
		return f.binary(e)
	case *ast.CallExpr:
		rs := f.call(e)
		if len(rs) != 1 {
			bail("%s: multiple results", f.pos(e))
		}
		return rs[0]
	case *ast.CompositeLit:
		return f.composite(e)
	case *ast.FuncLit:
		return f.funcLit(e)
	case *ast.TypeAssertExpr:
		x := f.expr(e.X)
		ok, v := f.typeTest(x, f.typeOf(e.X), f.typeOf(e.Type), e)
		f.oblig(ok, "type assertion", e)
		return v
	}
	bail("%s: expression %T is outside the subset", f.pos(e), e)
	return ""
}

// exprTo translates e and converts it to type t (implicit conversion).
func (f *fx) exprTo(e ast.Expr, t types.Type) string {
	if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
		return f.nilOf(t)
	}
	if fl, ok := ast.Unparen(e).(*ast.FuncLit); ok {
		if _, isSig := t.Underlying().(*types.Signature); isSig {
			return f.funcLitAs(fl, t)
		}
	}
	return f.convert(f.expr(e), f.typeOf(e), t, e)
}

func (f *fx) nilOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, isI := n.Underlying().(*types.Interface); isI && !(n.Obj().Pkg() == nil) {
			return f.g.ty(t) + "::Nil"
		}
	}
	return f.g.zero(t)
}

// convert performs the implicit conversion of a value to an interface type.
func (f *fx) convert(s string, from, to types.Type, n ast.Node) string {
	if to == nil || types.Identical(from, to) {
		return s
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return f.nilOf(to)
	}
	nt, ok := types.Unalias(to).(*types.Named)
	if !ok {
		if it, ok := to.Underlying().(*types.Interface); ok && it.Empty() {
			return f.g.anyOf(from, s)
		}
		return s
	}
	if _, isI := nt.Underlying().(*types.Interface); !isI || nt.Obj().Pkg() == nil {
		return s
	}
	if _, fromI := from.Underlying().(*types.Interface); fromI {
		bail("%s: interface to interface conversion", f.pos(n))
	}
	en := f.g.enumFor(nt)
	for _, v := range en.variants {
		if v.ptr {
			if p, ok := isPtr(from); ok && types.Identical(types.Unalias(p.Elem()), v.named) {
				return en.name + "::" + v.name + "(" + s + ")"
			}
		} else if types.Identical(types.Unalias(from), v.named) {
			return en.name + "::" + v.name + "(" + s + ")"
		}
	}
	bail("%s: conversion of %s to %s", f.pos(n), from, to)
	return ""
}

// typeTest returns the condition and the payload of x.(T).
func (f *fx) typeTest(x string, it, t types.Type, n ast.Node) (string, string) {
	if i, ok := it.Underlying().(*types.Interface); ok && i.Empty() {
		nt, ok := types.Unalias(t).(*types.Named)
		if !ok {
			bail("%s: type assertion", f.pos(n))
		}
		v := f.g.anyVariant(nt)
		if v == "" {
			bail("%s: type assertion", f.pos(n))
		}
		return "(" + x + " is " + v + ")", x + "->" + v + "_0"
	}
	en := f.g.enumFor(types.Unalias(it).(*types.Named))
	for _, v := range en.variants {
		if v.ptr {
			if p, ok := isPtr(t); ok && types.Identical(types.Unalias(p.Elem()), v.named) {
				return "(" + x + " is " + v.name + ")", x + "->" + v.name + "_0"
			}
		} else if types.Identical(types.Unalias(t), v.named) {
			return "(" + x + " is " + v.name + ")", x + "->" + v.name + "_0"
		}
	}
	bail("%s: type assertion to %s", f.pos(n), t)
	return "", ""
}

func (f *fx) selector(e *ast.SelectorExpr) string {
	sel := f.pkg.Info.Selections[e]
	if sel == nil {
		// qualified identifier
		obj := f.pkg.Info.Uses[e.Sel]
		switch o := obj.(type) {
		case *types.Func:
			return f.funcValue(e, o)
		case *types.Var:
			if f.g.prog.inModule(o.Pkg()) == nil {
				return f.g.extVar(f, o, e)
			}
			return f.g.globalRead(f, o, e)
		}
		bail("%s: selector", f.pos(e))
	}
	if sel.Kind() != types.FieldVal {
		bail("%s: method value", f.pos(e))
	}
	if s, ok := f.extField(e, sel); ok {
		return s
	}
	base := e.X
	if r := f.elemOf(base); r != nil {
		base = r
	}
	x := f.expr(base)
	return f.fieldPath(x, f.typeOf(base), sel.Index(), e)
}

// fieldPath follows a (possibly promoted) field selection.
func (f *fx) fieldPath(x string, t types.Type, path []int, n ast.Node) string {
	for _, i := range path {
		if p, ok := isPtr(t); ok {
			f.oblig(x+" != 0", "nil pointer dereference", n)
			x = f.heapGet(p.Elem(), x)
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			bail("%s: field of %s", f.pos(n), t)
		}
		f.g.ty(t)
		x = x + "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	return x
}

func (f *fx) index(e *ast.IndexExpr) string {
	t := f.typeOf(e.X).Underlying()
	x := f.expr(e.X)
	switch t := t.(type) {
	case *types.Map:
		k := f.exprTo(e.Index, t.Key())
		f.noteMapKey(x, k)
		return fmt.Sprintf("(if %s.m.dom().contains(%s) { %s.m[%s] } else { %s })", x, k, x, k, f.g.zero(t.Elem()))
	case *types.Basic:
		i := f.expr(e.Index)
		f.oblig(fmt.Sprintf("0 <= %s < %s.len()", i, x), "string index out of range", e)
		return fmt.Sprintf("(%s[%s] as int)", x, i)
	case *types.Slice, *types.Array, *types.Pointer:
		var el types.Type
		ln := ""
		switch t := t.(type) {
		case *types.Slice:
			el = t.Elem()
			ln = x + ".len()"
		case *types.Array:
			el = t.Elem()
			ln = fmt.Sprint(t.Len())
			if t.Len() == 2 {
				tv := f.pkg.Info.Types[e.Index]
				if tv.Value == nil {
					bail("%s: variable index of a pair", f.pos(e))
				}
				return x + "." + tv.Value.ExactString()
			}
		default:
			bail("%s: index through pointer", f.pos(e))
		}
		i := f.expr(e.Index)
		f.oblig(fmt.Sprintf("0 <= %s < %s", i, ln), "index out of range", e)
		if isByte(el) {
			return fmt.Sprintf("(%s[%s] as int)", x, i)
		}
		return fmt.Sprintf("%s[%s]", x, i)
	}
	bail("%s: index of %s", f.pos(e), t)
	return ""
}

func (f *fx) noteMapKey(m, k string) {}

func (f *fx) slice(e *ast.SliceExpr) string {
	if e.Slice3 {
		bail("%s: full slice expression", f.pos(e))
	}
	x := f.expr(e.X)
	switch t := f.typeOf(e.X).Underlying().(type) {
	case *types.Basic, *types.Slice:
	case *types.Array:
		_ = t
		bail("%s: slice of array", f.pos(e))
	default:
		bail("%s: slice of %s", f.pos(e), t)
	}
	lo, hi := "0int", x+".len() as int"
	if e.Low != nil {
		lo = f.expr(e.Low)
	}
	if e.High != nil {
		hi = f.expr(e.High)
	}
	if e.Low == nil && e.High == nil {
		return x
	}
	f.oblig(fmt.Sprintf("0 <= %s <= %s <= %s.len()", lo, hi, x), "slice bounds out of range", e)
	if e.High == nil {
		return fmt.Sprintf("%s.skip(%s)", x, lo)
	}
	if e.Low == nil {
		return fmt.Sprintf("%s.take(%s)", x, hi)
	}
	return fmt.Sprintf("%s.subrange(%s, %s)", x, lo, hi)
}

func wrapKind(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.Int8:
		return "wrap_i8"
	case types.Int16:
		return "wrap_i16"
	case types.Int32, types.UntypedRune:
		return "wrap_i32"
	case types.Uint8:
		return "wrap_u8"
	case types.Uint16:
		return "wrap_u16"
	case types.Uint32:
		return "wrap_u32"
	case types.Uint, types.Uint64, types.Uintptr:
		return "wrap_u64"
	}
	return ""
}

func (f *fx) unary(e *ast.UnaryExpr) string {
	switch e.Op {
	case token.NOT:
		return "!(" + f.expr(e.X) + ")"
	case token.SUB:
		if w := wrapKind(f.typeOf(e)); w != "" {
			return w + "(-(" + f.expr(e.X) + "))"
		}
		return "(-(" + f.expr(e.X) + "))"
	case token.ADD:
		return f.expr(e.X)
	case token.AND:
		x := ast.Unparen(e.X)
		if cl, ok := x.(*ast.CompositeLit); ok {
			t := f.typeOf(cl)
			if n, ok := types.Unalias(t).(*types.Named); ok && extPath(n) == "unicode.RangeTable" {
				return f.rangeTable(cl)
			}
			v := f.composite(cl)
			return f.alloc(t, v)
		}
		if id, ok := x.(*ast.Ident); ok {
			obj := f.pkg.Info.Uses[id]
			if f.addr[obj] {
				return f.varName(obj)
			}
		}
		bail("%s: address of %T", f.pos(e), x)
	}
	bail("%s: operator %s", f.pos(e), e.Op)
	return ""
}

func (f *fx) binary(e *ast.BinaryExpr) string {
	switch e.Op {
	case token.LAND, token.LOR:
		x := f.expr(e.X)
		if f.needsStmt(e.Y) {
			if len(f.pc) > 0 {
				bail("%s: conditional call in a pure context", f.pos(e))
			}
			t := f.tmp()
			f.emit(fmt.Sprintf("let ghost mut %s: bool = %s;", t, x))
			c := t
			if e.Op == token.LOR {
				c = "!" + t
			}
			f.emit("if br(Ghost(" + c + ")) {")
			f.indent++
			y := f.expr(e.Y)
			f.proof(t + " = " + y + ";")
			f.indent--
			f.emit("}")
			return t
		}
		if e.Op == token.LAND {
			f.pc = append(f.pc, x)
			y := f.expr(e.Y)
			f.pc = f.pc[:len(f.pc)-1]
			return "((" + x + ") && (" + y + "))"
		}
		f.pc = append(f.pc, "!("+x+")")
		y := f.expr(e.Y)
		f.pc = f.pc[:len(f.pc)-1]
		return "((" + x + ") || (" + y + "))"
	}
	tx, ty := f.typeOf(e.X), f.typeOf(e.Y)
	if e.Op == token.EQL || e.Op == token.NEQ {
		var s string
		isNil := func(x ast.Expr) bool {
			id, ok := ast.Unparen(x).(*ast.Ident)
			return ok && id.Name == "nil"
		}
		switch {
		case isNil(e.Y):
			s = f.isNil(f.expr(e.X), tx, e)
		case isNil(e.X):
			s = f.isNil(f.expr(e.Y), ty, e)
		default:
			x := f.expr(e.X)
			if f.needsStmt(e.Y) {
				x = f.snapshot(x, f.g.ty(tx))
			}
			y := f.expr(e.Y)
			op := "=="
			if b, ok := tx.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				op = "=~="
			}
			if _, ok := tx.Underlying().(*types.Interface); ok {
				bail("%s: comparison of interfaces", f.pos(e))
			}
			s = "(" + x + " " + op + " " + y + ")"
		}
		if e.Op == token.NEQ {
			return "!" + s
		}
		return s
	}
	x := f.expr(e.X)
	if f.needsStmt(e.Y) {
		x = f.snapshot(x, f.g.ty(tx))
	}
	y := f.expr(e.Y)
	t := f.typeOf(e)
	isStr := false
	if b, ok := tx.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	isFloat := false
	if b, ok := tx.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		isFloat = true
	}
	w := wrapKind(t)
	wrap := func(s string) string {
		if w != "" {
			return w + s
		}
		return s
	}
	switch e.Op {
	case token.ADD:
		if isStr {
			return "(" + x + " + " + y + ")"
		}
		return wrap("(" + x + " + " + y + ")")
	case token.SUB:
		return wrap("(" + x + " - " + y + ")")
	case token.MUL:
		return wrap("(" + x + " * " + y + ")")
	case token.QUO:
		if isFloat {
			bail("%s: float division", f.pos(e))
		}
		f.oblig(y+" != 0", "division by zero", e)
		return wrap("go_div(" + x + ", " + y + ")")
	case token.REM:
		f.oblig(y+" != 0", "division by zero", e)
		return wrap("go_mod(" + x + ", " + y + ")")
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			bail("%s: string ordering", f.pos(e))
		}
		return "(" + x + " " + e.Op.String() + " " + y + ")"
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		return f.bitop(e, x, y, t)
	}
	bail("%s: operator %s", f.pos(e), e.Op)
	return ""
}

func (f *fx) bitop(e *ast.BinaryExpr, x, y string, t types.Type) string {
	if e.Op == token.SHL || e.Op == token.SHR {
		if tv := f.pkg.Info.Types[e.Y]; tv.Value != nil {
			if n, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok && n >= 0 && n < 62 {
				p := fmt.Sprintf("%dint", int64(1)<<uint(n))
				if e.Op == token.SHR {
					return "(" + x + " / " + p + ")" // Euclidean division by a positive power rounds down, as >> does
				}
				if w := wrapKind(t); w != "" {
					return w + "(" + x + " * " + p + ")"
				}
				return "(" + x + " * " + p + ")"
			}
		}
		bail("%s: shift by a variable", f.pos(e))
	}
	if isByte(t) {
		n := map[token.Token]string{token.AND: "band8", token.OR: "bor8", token.XOR: "bxor8"}[e.Op]
		if n != "" {
			return n + "(" + x + ", " + y + ")"
		}
	}
	if e.Op == token.AND {
		if tv := f.pkg.Info.Types[e.Y]; tv.Value != nil {
			if n, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok && n >= 0 && (n&(n+1)) == 0 {
				return fmt.Sprintf("(%s %% %dint)", x, n+1)
			}
		}
	}
	bail("%s: bit operation", f.pos(e))
	return ""
}

func (f *fx) isNil(x string, t types.Type, n ast.Node) string {
	switch t.Underlying().(type) {
	case *types.Pointer:
		return "(" + x + " == 0)"
	case *types.Map:
		return x + ".nil"
	case *types.Interface:
		if f.g.ty(t) == "int" {
			return "(" + x + " == 0)"
		}
		return "(" + x + " is Nil)"
	}
	bail("%s: comparison of %s with nil", f.pos(n), t)
	return ""
}

func (f *fx) composite(e *ast.CompositeLit) string {
	t := f.typeOf(e)
	if p, ok := isPtr(t); ok { // elided &T in a slice literal
		c := *e
		_ = c
		v := f.compositeOf(e, p.Elem())
		return f.alloc(p.Elem(), v)
	}
	return f.compositeOf(e, t)
}

func (f *fx) compositeOf(e *ast.CompositeLit, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		vals := map[string]string{}
		for i, el := range e.Elts {
			var name string
			var ve ast.Expr
			var ft types.Type
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name = kv.Key.(*ast.Ident).Name
				ve = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						ft = u.Field(j).Type()
					}
				}
			} else {
				name = u.Field(i).Name()
				ft = u.Field(i).Type()
				ve = el
			}
			v := f.exprTo(ve, ft)
			if i+1 < len(e.Elts) && f.needsStmtAny(e.Elts[i+1:]) {
				v = f.snapshot(v, f.g.ty(ft))
			}
			vals[name] = v
		}
		return f.g.structLit(f.g.ty(t), u, vals)
	case *types.Slice:
		var vs []string
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				bail("%s: keyed slice literal", f.pos(e))
			}
			v := f.exprTo(el, u.Elem())
			if isByte(u.Elem()) {
				v = "(" + v + " as u8)"
			}
			vs = append(vs, v)
		}
		if len(vs) == 0 {
			return f.g.zero(t)
		}
		return "seq![" + strings.Join(vs, ", ") + "]"
	case *types.Array:
		if u.Len() == 2 && len(e.Elts) == 2 {
			a, b := e.Elts[0], e.Elts[1]
			if _, ok := a.(*ast.KeyValueExpr); !ok {
				return "(" + f.exprTo(a, u.Elem()) + ", " + f.exprTo(b, u.Elem()) + ")"
			}
		}
		if len(e.Elts) == 0 {
			return f.g.zero(t)
		}
	case *types.Map:
		if len(e.Elts) == 0 {
			return fmt.Sprintf("GMap::<%s, %s> { nil: false, m: Map::empty() }", f.g.ty(u.Key()), f.g.ty(u.Elem()))
		}
	}
	bail("%s: composite literal of %s", f.pos(e), t)
	return ""
}

func (f *fx) needsStmtAny(es []ast.Expr) bool {
	for _, e := range es {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			e = kv.Value
		}
		if f.needsStmt(e) {
			return true
		}
	}
	return false
}

// needsStmt reports whether the translation of e emits statements other than
// obligations (calls with contracts, allocations, inlined bodies).
func (f *fx) needsStmt(e ast.Expr) bool {
	need := false
	ast.Inspect(e, func(n ast.Node) bool {
		if need {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				need = true
			}
		case *ast.CallExpr:
			if !f.pureCall(n) {
				need = true
			}
		}
		return true
	})
	return need
}

// pureCall reports whether the call is translated to an expression.
func (f *fx) pureCall(c *ast.CallExpr) bool {
	if tv, ok := f.pkg.Info.Types[c.Fun]; ok && tv.IsType() {
		return true
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := f.pkg.Info.Uses[id].(*types.Builtin); ok {
			return id.Name == "len" || id.Name == "append" || id.Name == "make" || id.Name == "cap" || id.Name == "min" || id.Name == "max"
		}
	}
	fn := f.callee(c)
	if fn == nil {
		// a function value
		t := f.typeOf(c.Fun)
		if f.localFunc(c.Fun) != nil {
			return false
		}
		if sg, ok := t.Underlying().(*types.Signature); ok && f.g.funcTypeContract(sg) == nil {
			return true
		}
		return false
	}
	return f.g.pureFunc(fn, map[*types.Func]bool{})
}

// callee returns the statically known function or method called, if any.
func (f *fx) callee(c *ast.CallExpr) *types.Func {
	return calleeOf(f.pkg, c)
}

func calleeOf(pkg *Pkg, c *ast.CallExpr) *types.Func {
	switch fun := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		fn, _ := pkg.Info.Uses[fun].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		if sel := pkg.Info.Selections[fun]; sel != nil {
			if sel.Kind() == types.MethodVal {
				return ownMethod(sel.Recv(), sel.Obj().(*types.Func))
			}
			return nil
		}
		fn, _ := pkg.Info.Uses[fun.Sel].(*types.Func)
		return fn
	}
	return nil
}

var ownMethods = map[string]*types.Func{}

// ownMethod gives an interface a method of its own for a method which it gets
// from an embedded interface.
func ownMethod(recv types.Type, m *types.Func) *types.Func {
	n, ok := types.Unalias(recv).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return m
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		return m
	}
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil || types.Identical(sig.Recv().Type(), n) {
		return m
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + m.Name()
	if o := ownMethods[k]; o != nil {
		return o
	}
	o := types.NewFunc(m.Pos(), n.Obj().Pkg(), m.Name(), types.NewSignatureType(types.NewVar(m.Pos(), n.Obj().Pkg(), "", n), nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
	ownMethods[k] = o
	return o
}

// funcKey is the contract key of a function or method.
func (g *Gen) funcKey(fn *types.Func) string {
	if fi := g.prog.ByObj[fn]; fi != nil {
		return fi.Key
	}
	pk := ""
	if fn.Pkg() != nil {
		pk = fn.Pkg().Name()
	}
	if r := fn.Type().(*types.Signature).Recv(); r != nil {
		t := r.Type()
		if p, ok := isPtr(t); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + fn.Name()
		}
		return pk + ".?." + fn.Name()
	}
	return pk + "." + fn.Name()
}

func isIfaceMethod(fn *types.Func) bool {
	r := fn.Type().(*types.Signature).Recv()
	if r == nil {
		return false
	}
	_, ok := r.Type().Underlying().(*types.Interface)
	return ok
}

// pureFunc reports whether calls of fn are translated to expressions.
func (g *Gen) pureFunc(fn *types.Func, seen map[*types.Func]bool) bool {
	if fn.Pkg() == nil || g.prog.inModule(fn.Pkg()) == nil {
		return extPure(fullName(fn))
	}
	key := g.funcKey(fn)
	if c := g.cs.M[key]; c != nil && !c.Inline {
		return len(c.Returns) > 0
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	defer delete(seen, fn)
	if isIfaceMethod(fn) {
		en := g.enumFor(types.Unalias(fn.Type().(*types.Signature).Recv().Type()).(*types.Named))
		for _, v := range en.variants {
			m := g.method(v, fn.Name())
			if m == nil || !g.pureFunc(m, seen) {
				return false
			}
		}
		return true
	}
	fi := g.prog.ByObj[fn]
	if fi == nil {
		return false
	}
	return g.pureBody(fi.Pkg, fi.Decl.Body.List, seen)
}

func (g *Gen) method(v enumVariant, name string) *types.Func {
	var t types.Type = v.named
	if v.ptr {
		t = types.NewPointer(v.named)
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, v.named.Obj().Pkg(), name)
	m, _ := o.(*types.Func)
	return m
}

// pureBody reports whether a statement list is a decision tree of returns
// without effects.
func (g *Gen) pureBody(pkg *Pkg, list []ast.Stmt, seen map[*types.Func]bool) bool {
	pureExpr := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				ok = false
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					ok = false
				}
			case *ast.CallExpr:
				if tv, k := pkg.Info.Types[n.Fun]; k && tv.IsType() {
					return true
				}
				if id, k := ast.Unparen(n.Fun).(*ast.Ident); k {
					if _, k := pkg.Info.Uses[id].(*types.Builtin); k {
						if id.Name != "len" && id.Name != "min" && id.Name != "max" {
							ok = false
						}
						return true
					}
				}
				fn := calleeOf(pkg, n)
				if fn == nil {
					if sg, k := pkg.Info.TypeOf(n.Fun).Underlying().(*types.Signature); k && g.funcTypeContract(sg) == nil {
						return true
					}
					ok = false
				} else if !g.pureFunc(fn, seen) {
					ok = false
				}
			}
			return ok
		})
		return ok
	}
	for i, s := range list {
		switch s := s.(type) {
		case *ast.ReturnStmt:
			if len(s.Results) == 0 {
				return false
			}
			for _, r := range s.Results {
				if !pureExpr(r) {
					return false
				}
			}
			return true
		case *ast.IfStmt:
			if s.Init != nil {
				if !g.pureDefine(s.Init, pureExpr) {
					return false
				}
			}
			if !pureExpr(s.Cond) {
				return false
			}
			rest := list[i+1:]
			if !g.pureBody(pkg, append(append([]ast.Stmt{}, s.Body.List...), rest...), seen) {
				return false
			}
			var el []ast.Stmt
			switch e := s.Else.(type) {
			case nil:
			case *ast.BlockStmt:
				el = e.List
			case *ast.IfStmt:
				el = []ast.Stmt{e}
			}
			return g.pureBody(pkg, append(append([]ast.Stmt{}, el...), rest...), seen)
		case *ast.SwitchStmt:
			if s.Init != nil {
				return false
			}
			if s.Tag != nil && !pureExpr(s.Tag) {
				return false
			}
			rest := list[i+1:]
			def := false
			for _, cc := range s.Body.List {
				cl := cc.(*ast.CaseClause)
				if cl.List == nil {
					def = true
				}
				for _, e := range cl.List {
					if !pureExpr(e) {
						return false
					}
				}
				if !g.pureBody(pkg, append(append([]ast.Stmt{}, cl.Body...), rest...), seen) {
					return false
				}
			}
			if !def && !g.pureBody(pkg, rest, seen) {
				return false
			}
			return true
		case *ast.AssignStmt:
			if !g.pureDefine(s, pureExpr) {
				return false
			}
		case *ast.EmptyStmt:
		default:
			return false
		}
	}
	return false
}

func (g *Gen) pureDefine(s ast.Stmt, pureExpr func(ast.Expr) bool) bool {
	a, ok := s.(*ast.AssignStmt)
	if !ok || (a.Tok != token.DEFINE) {
		return false
	}
	for _, r := range a.Rhs {
		if !pureExpr(r) {
			return false
		}
	}
	for _, l := range a.Lhs {
		if _, ok := l.(*ast.Ident); !ok {
			return false
		}
	}
	return true
}

// specBody translates a pure body to expressions, one per result.
func (f *fx) specBody(list []ast.Stmt, results []types.Type) []string {
	for i, s := range list {
		switch s := s.(type) {
		case *ast.ReturnStmt:
			if len(s.Results) == 1 && len(results) > 1 {
				return f.call(s.Results[0].(*ast.CallExpr))
			}
			var out []string
			for j, r := range s.Results {
				out = append(out, f.exprTo(r, results[j]))
			}
			return out
		case *ast.IfStmt:
			if s.Init != nil {
				f.specDefine(s.Init.(*ast.AssignStmt))
			}
			c := f.expr(s.Cond)
			rest := list[i+1:]
			f.pc = append(f.pc, c)
			a := f.specBody(append(append([]ast.Stmt{}, s.Body.List...), rest...), results)
			f.pc[len(f.pc)-1] = "!(" + c + ")"
			var el []ast.Stmt
			switch e := s.Else.(type) {
			case *ast.BlockStmt:
				el = e.List
			case *ast.IfStmt:
				el = []ast.Stmt{e}
			}
			b := f.specBody(append(append([]ast.Stmt{}, el...), rest...), results)
			f.pc = f.pc[:len(f.pc)-1]
			return iteAll(c, a, b)
		case *ast.SwitchStmt:
			return f.specSwitch(s, list[i+1:], results)
		case *ast.AssignStmt:
			f.specDefine(s)
		case *ast.EmptyStmt:
		default:
			bail("%s: statement in a pure function", f.pos(s))
		}
	}
	bail("missing return in a pure function")
	return nil
}

func iteAll(c string, a, b []string) []string {
	var out []string
	for i := range a {
		out = append(out, "(if "+c+" { "+a[i]+" } else { "+b[i]+" })")
	}
	return out
}

func (f *fx) specSwitch(s *ast.SwitchStmt, rest []ast.Stmt, results []types.Type) []string {
	tag := ""
	if s.Tag != nil {
		tag = f.expr(s.Tag)
	}
	var def []ast.Stmt
	type cs struct {
		cond string
		body []ast.Stmt
	}
	var cases []cs
	for _, x := range s.Body.List {
		cl := x.(*ast.CaseClause)
		if cl.List == nil {
			def = cl.Body
			continue
		}
		var alts []string
		for _, e := range cl.List {
			v := f.expr(e)
			if s.Tag != nil {
				v = "(" + tag + " == " + v + ")"
			}
			alts = append(alts, v)
		}
		cases = append(cases, cs{"(" + strings.Join(alts, " || ") + ")", cl.Body})
	}
	var rec func(i int) []string
	rec = func(i int) []string {
		if i == len(cases) {
			return f.specBody(append(append([]ast.Stmt{}, def...), rest...), results)
		}
		f.pc = append(f.pc, cases[i].cond)
		a := f.specBody(append(append([]ast.Stmt{}, cases[i].body...), rest...), results)
		f.pc[len(f.pc)-1] = "!" + cases[i].cond
		b := rec(i + 1)
		f.pc = f.pc[:len(f.pc)-1]
		return iteAll(cases[i].cond, a, b)
	}
	return rec(0)
}

func (f *fx) specDefine(a *ast.AssignStmt) {
	vals := f.rhsValues(a.Lhs, a.Rhs)
	for i, l := range a.Lhs {
		id := l.(*ast.Ident)
		if id.Name == "_" {
			continue
		}
		obj := f.pkg.Info.Defs[id]
		if obj == nil {
			bail("%s: assignment in a pure function", f.pos(a))
		}
		f.subst[obj] = "(" + vals[i] + ")"
	}
}

// rhsValues evaluates the right-hand side of an assignment or definition.
func (f *fx) rhsValues(lhs, rhs []ast.Expr) []string {
	if len(rhs) == 1 && len(lhs) > 1 {
		switch r := ast.Unparen(rhs[0]).(type) {
		case *ast.CallExpr:
			return f.call(r)
		case *ast.IndexExpr: // v, ok := m[k]
			m, ok := f.typeOf(r.X).Underlying().(*types.Map)
			if !ok {
				bail("%s: comma-ok", f.pos(r))
			}
			x := f.expr(r.X)
			k := f.exprTo(r.Index, m.Key())
			c := fmt.Sprintf("%s.m.dom().contains(%s)", x, k)
			return []string{fmt.Sprintf("(if %s { %s.m[%s] } else { %s })", c, x, k, f.g.zero(m.Elem())), c}
		case *ast.TypeAssertExpr:
			x := f.expr(r.X)
			ok, v := f.typeTest(x, f.typeOf(r.X), f.typeOf(r.Type), r)
			return []string{fmt.Sprintf("(if %s { %s } else { %s })", ok, v, f.g.zero(f.typeOf(r.Type))), ok}
		}
		bail("%s: tuple assignment", f.pos(rhs[0]))
	}
	var out []string
	for i, r := range rhs {
		var t types.Type
		if id, ok := lhs[i].(*ast.Ident); ok && id.Name == "_" {
			t = f.typeOf(r)
		} else if id, ok := lhs[i].(*ast.Ident); ok && f.pkg.Info.Defs[id] != nil {
			t = f.pkg.Info.Defs[id].Type()
		} else {
			t = f.typeOf(lhs[i])
		}
		v := f.exprTo(r, t)
		if i+1 < len(rhs) && f.needsStmtAny(rhs[i+1:]) {
			v = f.snapshot(v, f.g.ty(t))
		}
		out = append(out, v)
	}
	return out
}
