package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func keyIdent(key string) string {
	r := strings.NewReplacer(".", "_", "$", "_lit", "#", "_n", "<", "_", ">", "_", ",", "_", "*", "P", "[", "S", "]", "", "?", "q")
	return r.Replace(key)
}

func fullName(fn *types.Func) string { return fn.FullName() }

// sub makes a translator for another body which shares the output.
func (f *fx) sub(pkg *Pkg) *fx {
	n := *f
	n.pkg = pkg
	n.subst = map[types.Object]string{}
	for k, v := range f.subst {
		n.subst[k] = v
	}
	n.consts = map[types.Object]string{}
	for k, v := range f.consts {
		n.consts[k] = v
	}
	n.concrete = map[types.Object]types.Type{}
	for k, v := range f.concrete {
		n.concrete[k] = v
	}
	n.pc = append([]string{}, f.pc...)
	return &n
}

func (f *fx) use(key string) {
	if f.g.used[f.key] == nil {
		f.g.used[f.key] = map[string]bool{}
	}
	f.g.used[f.key][key] = true
}

// args evaluates call arguments (receiver first, when given).
func (f *fx) args(recv string, recvTy types.Type, c *ast.CallExpr, sig *types.Signature) []string {
	var out []string
	if recv != "" {
		if f.needsStmtAny(c.Args) {
			recv = f.snapshot(recv, f.g.ty(recvTy))
		}
		out = append(out, recv)
	}
	np := sig.Params().Len()
	if len(c.Args) == 1 && np > 1 {
		if cc, ok := c.Args[0].(*ast.CallExpr); ok {
			return append(out, f.call(cc)...)
		}
	}
	var vs []string
	for i, a := range c.Args {
		var pt types.Type
		variadic := sig.Variadic() && i >= np-1
		if variadic {
			pt = sig.Params().At(np - 1).Type()
			if c.Ellipsis == token.NoPos {
				pt = pt.Underlying().(*types.Slice).Elem()
			}
		} else {
			pt = sig.Params().At(i).Type()
		}
		v := f.exprTo(a, pt)
		if i+1 < len(c.Args) && f.needsStmtAny(c.Args[i+1:]) {
			v = f.snapshot(v, f.g.ty(pt))
		}
		if variadic && c.Ellipsis == token.NoPos {
			vs = append(vs, v)
		} else {
			out = append(out, v)
		}
	}
	if sig.Variadic() && c.Ellipsis == token.NoPos {
		el := sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
		if len(vs) == 0 {
			out = append(out, "Seq::<"+f.g.elemTy(el)+">::empty()")
		} else {
			out = append(out, "seq!["+strings.Join(vs, ", ")+"]")
		}
	}
	return out
}

// receiver evaluates the receiver of a method call.
func (f *fx) receiver(se *ast.SelectorExpr, fn *types.Func) (string, types.Type) {
	sel := f.pkg.Info.Selections[se]
	rt := fn.Type().(*types.Signature).Recv().Type()
	xt := f.typeOf(se.X)
	path := sel.Index()[:len(sel.Index())-1]
	if _, ok := rt.Underlying().(*types.Interface); ok {
		if len(path) > 0 {
			return f.fieldPath(f.expr(se.X), xt, path, se), rt
		}
		return f.expr(se.X), rt
	}
	_, wantPtr := isPtr(rt)
	if len(path) > 0 {
		x := f.fieldPath(f.expr(se.X), xt, path, se)
		// type after the path
		t := xt
		for _, i := range path {
			if p, ok := isPtr(t); ok {
				t = p.Elem()
			}
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		_, isP := isPtr(t)
		if isP == wantPtr {
			return x, rt
		}
		if isP {
			p, _ := isPtr(t)
			f.oblig(x+" != 0", "nil pointer dereference", se)
			return f.heapGet(p.Elem(), x), rt
		}
		bail("%s: promoted pointer method", f.pos(se))
	}
	p, isP := isPtr(xt)
	switch {
	case isP == wantPtr:
		return f.expr(se.X), rt
	case isP && !wantPtr:
		if r := f.elemOf(se.X); r != nil {
			return f.expr(r), rt
		}
		x := f.expr(se.X)
		f.deref(se, x)
		return f.heapGet(p.Elem(), x), rt
	}
	// address of an addressable value
	switch x := ast.Unparen(se.X).(type) {
	case *ast.Ident:
		obj := f.pkg.Info.Uses[x]
		if f.addr[obj] {
			return f.varName(obj), rt
		}
	case *ast.StarExpr:
		return f.expr(x.X), rt
	}
	bail("%s: method call on an addressed value", f.pos(se))
	return "", nil
}

// call translates a call and returns its results.
func (f *fx) call(c *ast.CallExpr) []string {
	if tv, ok := f.pkg.Info.Types[c.Fun]; ok && tv.IsType() {
		return []string{f.conversion(c, tv.Type)}
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := f.pkg.Info.Uses[id].(*types.Builtin); ok {
			return f.builtin(c, id.Name)
		}
	}
	fn := f.callee(c)
	if fn == nil {
		return f.callValue(c)
	}
	if f.g.prog.inModule(fn.Pkg()) == nil {
		return f.callExt(c, fn)
	}
	sig := fn.Type().(*types.Signature)
	var recv string
	var recvTy types.Type
	if sig.Recv() != nil {
		se := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		recv, recvTy = f.receiver(se, fn)
	}
	return f.callFunc(c, fn, f.args(recv, recvTy, c, sig))
}

func (f *fx) callFunc(c *ast.CallExpr, fn *types.Func, args []string) []string {
	key := f.g.funcKey(fn)
	sig := fn.Type().(*types.Signature)
	ct := f.g.cs.M[key]
	if ct != nil && !ct.Inline {
		f.use(key)
		f.recursion(c, key, args)
		if len(ct.Returns) > 0 {
			return f.callReturns(c, key, ct, args)
		}
		return f.callContract(c, key, ct, sig, args, "F_"+keyIdent(key))
	}
	if isIfaceMethod(fn) {
		return f.dispatch(c, fn, args)
	}
	fi := f.g.prog.ByObj[fn]
	if fi == nil {
		bail("%s: call of %s", f.pos(c), fn)
	}
	for _, s := range f.stack {
		if s == key {
			bail("%s: recursive function %s without contract", f.pos(c), key)
		}
	}
	if f.g.inlined[f.key] == nil {
		f.g.inlined[f.key] = map[string]bool{}
	}
	f.g.inlined[f.key][key] = true
	if f.g.pureFunc(fn, map[*types.Func]bool{}) {
		n := f.sub(fi.Pkg)
		n.stack = append(append([]string{}, f.stack...), key)
		bindParams(n, fi, args, f.constArgs(c, sig), f.concreteArgs(c, sig))
		var rts []types.Type
		for i := 0; i < sig.Results().Len(); i++ {
			rts = append(rts, sig.Results().At(i).Type())
		}
		return n.specBody(fi.Decl.Body.List, rts)
	}
	return f.inlineStmts(c, fi, args)
}

func bindParams(n *fx, fi *FuncInfo, args []string, consts map[int]string, concrete map[int]types.Type) {
	i := 0
	bind := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, fd := range fl.List {
			if len(fd.Names) == 0 {
				i++
				continue
			}
			for _, nm := range fd.Names {
				if obj := fi.Pkg.Info.Defs[nm]; obj != nil {
					n.subst[obj] = args[i]
					n.bindKnown(fi, obj, i, consts, concrete)
				}
				i++
			}
		}
	}
	bind(fi.Decl.Recv)
	bind(fi.Decl.Type.Params)
}

// dispatch calls the method of the dynamic type of an interface value when
// every implementation is a pure function.
func (f *fx) dispatch(c *ast.CallExpr, fn *types.Func, args []string) []string {
	en := f.g.enumFor(types.Unalias(fn.Type().(*types.Signature).Recv().Type()).(*types.Named))
	x := args[0]
	var known []string
	for _, v := range en.variants {
		known = append(known, "("+x+" is "+v.name+")")
	}
	f.oblig(strings.Join(known, " || "), "dynamic type of "+en.name+" is one of its known implementations", c)
	var res []string
	for i := len(en.variants) - 1; i >= 0; i-- {
		v := en.variants[i]
		m := f.g.method(v, fn.Name())
		if m == nil || !f.g.pureFunc(m, map[*types.Func]bool{}) {
			bail("%s: dynamic call of %s", f.pos(c), fn.Name())
		}
		a := append([]string{x + "->" + v.name + "_0"}, args[1:]...)
		f.pc = append(f.pc, known[i])
		r := f.callFunc(c, m, a)
		f.pc = f.pc[:len(f.pc)-1]
		if res == nil {
			res = r
		} else {
			res = iteAll(known[i], r, res)
		}
	}
	if res == nil {
		bail("%s: interface without implementations", f.pos(c))
	}
	return res
}

func (f *fx) callReturns(c *ast.CallExpr, key string, ct *Contract, args []string) []string {
	id := keyIdent(key)
	if len(ct.Requires) > 0 || true {
		f.oblig("Q_"+id+"(h, "+strings.Join(args, ", ")+")", "precondition of "+key, c)
	}
	var out []string
	for i := range ct.Returns {
		out = append(out, fmt.Sprintf("R%d_%s(h, %s)", i, id, strings.Join(args, ", ")))
	}
	return out
}

func (f *fx) callContract(c *ast.CallExpr, key string, ct *Contract, sig *types.Signature, args []string, fname string) []string {
	if len(f.pc) > 0 {
		bail("%s: conditional call of %s in a pure context", f.pos(c), key)
	}
	f.callN[key]++
	cs := f.c.Calls[fmt.Sprintf("%s#%d", key, f.callN[key])]
	if cs == nil {
		cs = f.c.Calls[key+"#*"]
	}
	if f.g.noHooks[f.key] {
		cs = nil
	}
	if cs != nil {
		f.emit(fmt.Sprintf("let ghost c_h = h;"))
		for i, a := range args {
			f.emit(fmt.Sprintf("let ghost c_%d = %s;", i, a))
			args[i] = fmt.Sprintf("c_%d", i)
		}
		if cs.Before != "" {
			f.hook(cs.Before)
		}
	}
	t := f.tmp()
	if f.g.eff && len(ct.Mods) > 0 {
		f.emit("let ghost " + t + "b = h;")
	}
	ga := []string{"Ghost(h)"}
	for _, a := range args {
		ga = append(ga, "Ghost("+f.flat(a)+")")
	}
	f.g.obls[f.key]++
	f.emitI(fmt.Sprintf("let %s = %s(%s);", t, fname, strings.Join(ga, ", ")),
		&LineInfo{Fn: f.key, Kind: "call", Src: f.pos(c), Desc: "precondition of " + key})
	nres := sig.Results().Len()
	mod := len(ct.Mods) > 0
	total := nres
	if mod {
		total++
	}
	acc := func(i int) string {
		if total == 1 {
			return t + "@"
		}
		return fmt.Sprintf("%s.%d@", t, i)
	}
	k := 0
	var out []string
	if mod {
		f.proof("h = " + acc(0) + ";")
		k = 1
		if f.g.eff {
			f.effCall(c, key, ct, args, t+"b")
		}
	}
	for i := 0; i < nres; i++ {
		r := fmt.Sprintf("%s_%d", t, i)
		f.emit(fmt.Sprintf("let ghost %s: %s = %s;", r, f.g.ty(sig.Results().At(i).Type()), acc(i+k)))
		out = append(out, r)
	}
	if cs != nil && cs.After != "" {
		for i, r := range out {
			f.emit(fmt.Sprintf("let ghost c_r%d = %s;", i, r))
		}
		f.hook(cs.After)
	}
	return out
}

func (f *fx) hook(text string) {
	if f.g.noHooks[f.key] || strings.TrimSpace(text) == "" {
		return
	}
	text = f.rename(text)
	if !f.inScope(text) {
		return
	}
	var pre, body []string
	for _, ln := range strings.Split(strings.TrimRight(text, "\n"), "\n") {
		if strings.HasPrefix(strings.TrimSpace(ln), "let ghost") {
			pre = append(pre, strings.TrimSpace(ln))
		} else if strings.TrimSpace(ln) != "" {
			body = append(body, ln)
		}
	}
	for _, p := range pre {
		f.emitI(p, &LineInfo{Fn: f.key, Kind: "hook", Desc: "proof step"})
	}
	if len(body) > 0 {
		f.emitI("proof {\n"+strings.Join(body, "\n")+"\n}", &LineInfo{Fn: f.key, Kind: "hook", Desc: "proof step"})
	}
}

// callValue calls a function value.
func (f *fx) callValue(c *ast.CallExpr) []string {
	t := f.typeOf(c.Fun)
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		bail("%s: call", f.pos(c))
	}
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(fl.Type.Params.List) == 0 {
		bail("%s: immediate function literal", f.pos(c))
	}
	if lit := f.localFunc(c.Fun); lit != nil {
		return f.callLocal(c, lit)
	}
	ct := f.g.funcTypeContract(sig)
	fv := f.expr(c.Fun)
	if ct == nil {
		args := f.args("", nil, c, sig)
		return []string{"(" + fv + ")(" + strings.Join(args, ", ") + ")"}
	}
	f.use(ct.Key)
	fv = f.snapshot(fv, ct.CbType)
	args := append([]string{fv}, f.args("", nil, c, sig)...)
	return f.callContract(c, ct.Key, ct, sig, args, "call_"+keyIdent(ct.Key))
}

func (f *fx) conversion(c *ast.CallExpr, to types.Type) string {
	a := c.Args[0]
	from := f.typeOf(a)
	if s, ok := f.constVal(c); ok {
		return s
	}
	tb, _ := to.Underlying().(*types.Basic)
	fb, _ := from.Underlying().(*types.Basic)
	if _, ok := to.Underlying().(*types.Interface); ok {
		return f.exprTo(a, to)
	}
	x := f.expr(a)
	switch {
	case tb != nil && tb.Info()&types.IsString != 0:
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			return "enc(" + x + ")"
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return x
		}
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if isByte(sl.Elem()) {
				return x
			}
			return "enc_all(" + x + ")"
		}
	case tb != nil && tb.Info()&types.IsInteger != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
		if w := wrapKind(to); w != "" && !types.Identical(to.Underlying(), from.Underlying()) {
			if narrower(fb, tb) {
				return x
			}
			return w + "(" + x + ")"
		}
		return x
	case tb != nil && tb.Info()&types.IsFloat != 0 && fb != nil && fb.Info()&types.IsFloat != 0:
		return x
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		if isByte(sl.Elem()) {
			return x
		}
		return "runes(" + x + ")"
	}
	if types.Identical(to.Underlying(), from.Underlying()) {
		if f.g.ty(to) == f.g.ty(from) {
			return x
		}
		// struct conversion between distinct named types
		if st, ok := to.Underlying().(*types.Struct); ok {
			vals := map[string]string{}
			for i := 0; i < st.NumFields(); i++ {
				vals[st.Field(i).Name()] = "(" + x + ")." + st.Field(i).Name()
			}
			return f.g.structLit(f.g.ty(to), st, vals)
		}
	}
	bail("%s: conversion of %s to %s", f.pos(c), from, to)
	return ""
}

func narrower(from, to *types.Basic) bool {
	rank := func(b *types.Basic) (lo, hi int) {
		switch b.Kind() {
		case types.Int8:
			return 7, 7
		case types.Int16:
			return 15, 15
		case types.Int32, types.UntypedRune:
			return 31, 31
		case types.Uint8:
			return 0, 8
		case types.Uint16:
			return 0, 16
		case types.Uint32:
			return 0, 32
		case types.Int, types.Int64:
			return 63, 63
		}
		return 0, 64
	}
	a, b := rank(from)
	c, d := rank(to)
	return a <= c && b <= d
}

func (f *fx) builtin(c *ast.CallExpr, name string) []string {
	switch name {
	case "len", "cap":
		t := f.typeOf(c.Args[0])
		if a, ok := t.Underlying().(*types.Array); ok {
			return []string{fmt.Sprintf("%dint", a.Len())}
		}
		x := f.expr(c.Args[0])
		if _, ok := t.Underlying().(*types.Map); ok {
			return []string{"(" + x + ".m.dom().len() as int)"}
		}
		if name == "cap" {
			bail("%s: cap", f.pos(c))
		}
		return []string{"(" + x + ".len() as int)"}
	case "make":
		t := f.typeOf(c.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Slice:
			n := f.expr(c.Args[1])
			f.oblig("0 <= "+n, "make: negative length", c)
			if len(c.Args) > 2 {
				k := f.expr(c.Args[2])
				f.oblig(n+" <= "+k, "make: length larger than capacity", c)
			}
			if tv := f.pkg.Info.Types[c.Args[1]]; tv.Value != nil && tv.Value.ExactString() == "0" {
				return []string{f.g.zero(t)}
			}
			z := f.g.zero(u.Elem())
			if isByte(u.Elem()) {
				z = "0u8"
			}
			return []string{fmt.Sprintf("Seq::<%s>::new((%s) as nat, |i_: int| %s)", f.g.elemTy(u.Elem()), n, z)}
		case *types.Map:
			for _, a := range c.Args[1:] {
				f.expr(a)
			}
			return []string{fmt.Sprintf("GMap::<%s, %s> { nil: false, m: Map::empty() }", f.g.ty(u.Key()), f.g.ty(u.Elem()))}
		}
	case "append":
		if ok, seen := f.okAppend[c]; !(seen && ok) && !f.appendOK(c, nil) {
			bail("%s: append to storage which may be shared", f.pos(c))
		}
		t := f.typeOf(c).Underlying().(*types.Slice)
		x := f.exprTo(c.Args[0], f.typeOf(c))
		if c.Ellipsis != token.NoPos {
			y := f.expr(c.Args[1])
			return []string{"(" + x + " + " + y + ")"}
		}
		if f.needsStmtAny(c.Args[1:]) {
			x = f.snapshot(x, f.g.ty(f.typeOf(c)))
		}
		for i, a := range c.Args[1:] {
			v := f.exprTo(a, t.Elem())
			if isByte(t.Elem()) {
				v = "(" + v + " as u8)"
			}
			if i+2 < len(c.Args) && f.needsStmtAny(c.Args[i+2:]) {
				v = f.snapshot(v, f.g.elemTy(t.Elem()))
			}
			x = x + ".push(" + v + ")"
		}
		return []string{x}
	case "panic":
		f.oblig("false", "explicit panic", c)
		return nil
	case "min", "max":
		x := f.expr(c.Args[0])
		for _, a := range c.Args[1:] {
			y := f.expr(a)
			op := "<="
			if name == "max" {
				op = ">="
			}
			x = fmt.Sprintf("(if %s %s %s { %s } else { %s })", x, op, y, x, y)
		}
		return []string{x}
	}
	bail("%s: builtin %s", f.pos(c), name)
	return nil
}

// funcValue translates a function used as a value.
func (f *fx) funcValue(e ast.Expr, fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	if sig.Recv() != nil || sig.Results().Len() != 1 || sig.Variadic() {
		bail("%s: function value %s", f.pos(e), fn.FullName())
	}
	if !f.g.pureFunc(fn, map[*types.Func]bool{}) {
		bail("%s: function value %s with effects", f.pos(e), fn.FullName())
	}
	var ps, as []string
	for i := 0; i < sig.Params().Len(); i++ {
		*f.tmpN++
		n := fmt.Sprintf("x%d", *f.tmpN)
		ps = append(ps, n+": "+f.g.ty(sig.Params().At(i).Type()))
		as = append(as, n)
	}
	n := f.sub(f.pkg)
	n.spec = true
	var body string
	if f.g.prog.inModule(fn.Pkg()) == nil {
		s, ok := extPureCall(f, fullName(fn), as)
		if !ok {
			bail("%s: function value %s", f.pos(e), fn.FullName())
		}
		body = s
	} else {
		body = n.callFunc(&ast.CallExpr{Fun: e, Lparen: e.Pos(), Rparen: e.End()}, fn, as)[0]
	}
	return "(|" + strings.Join(ps, ", ") + "| " + body + ")"
}

func (f *fx) funcLit(e *ast.FuncLit) string { return f.funcLitAs(e, f.typeOf(e)) }

func (f *fx) funcLitAs(e *ast.FuncLit, t types.Type) string {
	sig := t.Underlying().(*types.Signature)
	f.singleDef(e)
	if ct := f.g.funcTypeContract(sig); ct != nil {
		return f.closure(e, ct, sig)
	}
	if sig.Results().Len() != 1 {
		bail("%s: function literal", f.pos(e))
	}
	n := f.sub(f.pkg)
	n.spec = true
	n.pc = nil
	var ps []string
	for _, fd := range e.Type.Params.List {
		for _, nm := range fd.Names {
			*f.tmpN++
			x := fmt.Sprintf("x%d", *f.tmpN)
			ps = append(ps, x+": "+f.g.ty(f.typeOf(fd.Type)))
			if obj := f.pkg.Info.Defs[nm]; obj != nil {
				n.subst[obj] = x
			}
		}
		if len(fd.Names) == 0 {
			*f.tmpN++
			ps = append(ps, fmt.Sprintf("x%d: %s", *f.tmpN, f.g.ty(f.typeOf(fd.Type))))
		}
	}
	if !f.g.pureBody(f.pkg, e.Body.List, map[*types.Func]bool{}) {
		bail("%s: function literal is not a pure decision tree", f.pos(e))
	}
	r := n.specBody(e.Body.List, []types.Type{sig.Results().At(0).Type()})
	return "(|" + strings.Join(ps, ", ") + "| " + r[0] + ")"
}

// Lifted is a function literal with effects, verified as a function of its
// captured variables.
//
// A captured parameter of interface type to which a value of a known type is
// bound is passed as that value.
type Lifted struct {
	Key      string
	Pkg      *Pkg
	Lit      *ast.FuncLit
	Captures []*types.Var
	Consts   map[*types.Var]string     // captured parameters of an inlined function which are constants
	Concrete map[*types.Var]types.Type // captured parameters of interface type bound to a value of a known type
	Sig      *types.Signature
	FT       *Contract
}

func (l *Lifted) typ(v *types.Var) types.Type {
	if t, ok := l.Concrete[v]; ok {
		return t
	}
	return v.Type()
}

func (f *fx) closure(e *ast.FuncLit, ft *Contract, sig *types.Signature) string {
	*f.litN++
	key := fmt.Sprintf("%s$%d", f.key, *f.litN)
	var caps []*types.Var
	consts := map[*types.Var]string{}
	for _, v := range capturesOf(f.pkg, e) {
		if s, ok := f.consts[v]; ok {
			consts[v] = s
			continue
		}
		caps = append(caps, v)
	}
	ct := f.g.cs.M[key]
	if ct == nil && f.g.eff {
		ct = &Contract{Kind: "closure", Key: key, Loops: map[int]*LoopSpec{}, Calls: map[string]*CallSpec{}, Src: f.pos(e)}
		for i := range caps {
			ct.Params = append(ct.Params, fmt.Sprintf("cap%d", i))
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ct.Params = append(ct.Params, fmt.Sprintf("arg%d", i))
		}
		f.g.cs.M[key] = ct
	}
	if ct == nil {
		bail("%s: no contract for function literal %s", f.pos(e), key)
	}
	if k := len(ct.Params) - sig.Params().Len(); k >= 0 && len(caps) > k {
		ct = extraCaptures(ct, k, caps)
		f.g.cs.M[key] = ct
	}
	if len(caps)+sig.Params().Len() != len(ct.Params) {
		bail("%s: function literal %s captures %d variables, its contract names %d", f.pos(e), key, len(caps), len(ct.Params)-sig.Params().Len())
	}
	f.g.lifted[key] = &Lifted{Key: key, Pkg: f.pkg, Lit: e, Captures: caps, Consts: consts, Concrete: map[*types.Var]types.Type{}, Sig: sig, FT: ft}
	var args []string
	for _, v := range caps {
		x := f.readVar(ast.NewIdent(v.Name()), v)
		if t, ok := f.concrete[v]; ok {
			f.g.lifted[key].Concrete[v] = t
			_, x = f.typeTest(x, v.Type(), t, e)
		}
		args = append(args, x)
	}
	f.use(key)
	f.use(ft.Key)
	id := keyIdent(key)
	a := append([]string{"h"}, args...)
	f.oblig("Q_"+id+"("+strings.Join(a, ", ")+")", "precondition of function literal "+key, e)
	return "D_" + id + "(" + strings.Join(a, ", ") + ")"
}

// extraCaptures gives the contract, which names k captured variables, for a
// function literal which captures these and others.
func extraCaptures(ct *Contract, k int, caps []*types.Var) *Contract {
	want := ct.Params[:k]
	var ps []string
	for i, v := range caps {
		if len(want) > 0 && v.Name() == want[0] {
			ps = append(ps, want[0])
			want = want[1:]
		} else {
			ps = append(ps, fmt.Sprintf("cap%d", i))
		}
	}
	if len(want) > 0 {
		return ct
	}
	c := *ct
	c.Params = append(ps, ct.Params[k:]...)
	return &c
}

// capturesOf lists the local variables of the enclosing function used in a
// function literal, in order of first use.
func capturesOf(pkg *Pkg, e *ast.FuncLit) []*types.Var {
	var out []*types.Var
	seen := map[*types.Var]bool{}
	ast.Inspect(e.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := pkg.Info.Uses[id].(*types.Var)
		if !ok || v.IsField() || seen[v] || v.Parent() == nil || v.Parent() == v.Pkg().Scope() {
			return true
		}
		if v.Pos() >= e.Pos() && v.Pos() < e.End() {
			return true
		}
		seen[v] = true
		out = append(out, v)
		return true
	})
	return out
}
