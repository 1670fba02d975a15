package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// fsig is the ghost signature of a contract.
type fsig struct {
	names, tys []string
	ptr        []bool // parameter is a pointer into the heap
	recv       bool   // the first parameter is a pointer receiver
	results    []string
	eff        bool
}

func (g *Gen) isHeapPtr(t types.Type) bool {
	p, ok := isPtr(t)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return true
	}
	return g.prog.inModule(n.Obj().Pkg()) != nil
}

func (g *Gen) sigOf(ct *Contract, recv types.Type, sig *types.Signature, extra []string, extraTy []string) *fsig {
	s := &fsig{eff: g.eff}
	var ts []types.Type
	if recv != nil {
		ts = append(ts, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(ts)+len(extra) != len(ct.Params)+boolInt(ct.Kind == "functype") {
		bail("%s has %d parameters, its contract names %d", ct.Key, len(ts)+len(extra), len(ct.Params))
	}
	s.names = append(s.names, extra...)
	s.tys = append(s.tys, extraTy...)
	for range extra {
		s.ptr = append(s.ptr, false)
	}
	off := len(extra)
	if ct.Kind == "functype" {
		off = 0
	}
	for i, t := range ts {
		s.names = append(s.names, ct.Params[off+i])
		s.tys = append(s.tys, g.ty(t))
		s.ptr = append(s.ptr, g.isHeapPtr(t))
	}
	if recv != nil && ct.Kind == "func" && g.isHeapPtr(recv) && !ct.NilRecv {
		s.recv = true
	}
	for i := 0; i < sig.Results().Len(); i++ {
		s.results = append(s.results, g.ty(sig.Results().At(i).Type()))
	}
	return s
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *fsig) ghostParams() string {
	out := []string{"Ghost(h0): Ghost<Heap>"}
	for i, n := range s.names {
		out = append(out, fmt.Sprintf("Ghost(%s): Ghost<%s>", n, s.tys[i]))
	}
	return strings.Join(out, ", ")
}

func (s *fsig) specParams() string {
	out := []string{"h0: Heap"}
	for i, n := range s.names {
		out = append(out, n+": "+s.tys[i])
	}
	return strings.Join(out, ", ")
}

func (s *fsig) argNames() string { return strings.Join(append([]string{"h0"}, s.names...), ", ") }

func (s *fsig) retType(mod bool) (string, []string) {
	var gs []string
	if mod {
		gs = append(gs, "Ghost<Heap>")
	}
	for _, r := range s.results {
		gs = append(gs, "Ghost<"+r+">")
	}
	acc := make([]string, len(gs))
	switch len(gs) {
	case 0:
		return "Ghost<()>", nil
	case 1:
		acc[0] = "res@"
		return gs[0], acc
	}
	for i := range gs {
		acc[i] = fmt.Sprintf("res.%d@", i)
	}
	return "(" + strings.Join(gs, ", ") + ")", acc
}

// autoReq lists the implicit preconditions: pointers are allocated.
func (s *fsig) autoReq() []string {
	if s.eff {
		return nil
	}
	out := []string{"0 < h0.next"}
	for i, n := range s.names {
		if !s.ptr[i] {
			continue
		}
		if i == 0 && s.recv {
			out = append(out, fmt.Sprintf("0 < %s < h0.next", n))
		} else {
			out = append(out, fmt.Sprintf("0 <= %s < h0.next", n))
		}
	}
	return out
}

// frame generates the frame condition of a contract.
func (g *Gen) frame(mods []Mod) []Clause {
	var out []Clause
	add := func(desc, s string) { out = append(out, Clause{Text: s, Src: desc}) }
	byType := map[string][]Mod{}
	alloc, trace := false, false
	keep := []string{"next: h1.next"}
	for _, m := range mods {
		if m.Any && g.eff {
			return g.effFrame(mods)
		}
		if m.Any {
			return []Clause{{Text: "h0.next <= h1.next", Src: "heap grows"}}
		}
		if m.Trace {
			trace = true
			continue
		}
		if m.Alloc {
			alloc = true
		}
		if g.heap[m.Type] == nil {
			bail("modifies clause names unknown type %s", m.Type)
		}
		byType[m.Type] = append(byType[m.Type], m)
	}
	if alloc {
		add("heap grows", "h0.next <= h1.next")
	} else {
		add("nothing is allocated", "h1.next == h0.next")
	}
	if trace {
		keep = append(keep, "trace: h1.trace")
	}
	groups := map[string][]*heapType{}
	var names []string
	for _, k := range sortedKeys(g.heap) {
		h := g.heap[k]
		if groups[h.group] == nil {
			names = append(names, h.group)
		}
		groups[h.group] = append(groups[h.group], h)
	}
	for _, gr := range names {
		touched := false
		for _, h := range groups[gr] {
			if byType[h.field] != nil {
				touched = true
			}
		}
		if !touched {
			continue
		}
		var sub []string
		for _, h := range groups[gr] {
			ms := byType[h.field]
			if ms == nil {
				continue
			}
			sub = append(sub, fmt.Sprintf("%s: h1.%s.%s", h.field, gr, h.field))
			cond := "0 < p_ < h0.next"
			for _, m := range ms {
				if m.Set {
					cond += " && !(" + m.At + ").contains(p_)"
				} else if !m.Alloc {
					cond += " && p_ != (" + m.At + ")"
				}
			}
			add("only the listed objects of type "+h.field+" change",
				fmt.Sprintf("forall|p_: int| %s ==> #[trigger] h1.%s.%s[p_] == h0.%s.%s[p_]", cond, gr, h.field, gr, h.field))
		}
		if len(sub) < len(groups[gr]) {
			keep = append(keep, fmt.Sprintf("%s: HP_%s { %s, ..h0.%s }", gr, gr, strings.Join(sub, ", "), gr))
		} else {
			keep = append(keep, fmt.Sprintf("%s: h1.%s", gr, gr))
		}
	}
	add("everything else is unchanged", "h1 == (Heap { "+strings.Join(keep, ", ")+", ..h0 })")
	return out
}

// effFrame: shared objects which existed before are as they were, but for
// those listed.
func (g *Gen) effFrame(mods []Mod) []Clause {
	return []Clause{{Text: "effx(h0, h1, " + g.effSet(mods) + ")", Src: "modifies"}}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type emission struct {
	name    string
	s       *fsig
	mods    []Mod
	req     []Clause
	ens     []Clause
	attrs   []string
	rlimit  int
	trusted bool
	key     string
	isolate bool
}

// header writes an exec function up to the opening brace.
func (g *Gen) header(e *emission) {
	attrs := append([]string{}, e.attrs...)
	if e.trusted {
		g.write("#[verifier::external_body]", nil)
	} else {
		g.write("#[verifier::exec_allows_no_decreases_clause]", nil)
		g.write("#[verifier::spinoff_prover]", nil)
		if !e.isolate {
			g.write("#[verifier::loop_isolation(false)]", nil)
			g.write("#[verifier::allow_complex_invariants]", nil)
		}
		if e.rlimit > 0 {
			g.write(fmt.Sprintf("#[verifier::rlimit(%d)]", e.rlimit), nil)
		}
	}
	for _, a := range attrs {
		g.write("#["+a+"]", nil)
	}
	rt, acc := e.s.retType(len(e.mods) > 0)
	g.write(fmt.Sprintf("fn %s(%s) -> (res: %s)", e.name, e.s.ghostParams(), rt), &LineInfo{Fn: e.key, Kind: "sig"})
	auto := e.s.autoReq()
	if len(auto)+len(e.req) > 0 {
		g.write("  requires", nil)
		for _, a := range auto {
			g.write("    "+a+",", &LineInfo{Fn: e.key, Kind: "requires", Desc: "precondition: valid reference " + a})
		}
		for _, c := range e.req {
			g.write("    ("+c.Text+"),", &LineInfo{Fn: e.key, Kind: "requires", Tags: c.Tags, Src: c.Src, Desc: "precondition: " + c.Text})
		}
	}
	lets := ""
	k := 0
	if len(e.mods) > 0 {
		lets += "let h1 = " + acc[0] + "; "
		k = 1
	} else {
		lets += "let h1 = h0; "
	}
	for i := range e.s.results {
		lets += fmt.Sprintf("let r%d = %s; ", i, acc[i+k])
	}
	var ens []Clause
	if len(e.mods) > 0 {
		fr := g.frame(e.mods)
		for i := range fr {
			ens = append(ens, Clause{Text: fr[i].Text, Src: "modifies", Tags: nil})
		}
	}
	ens = append(ens, e.ens...)
	if g.canary && !e.trusted {
		ens = []Clause{{Text: "false", Src: "canary"}}
	}
	if len(ens) > 0 {
		g.write("  ensures", nil)
		for _, c := range ens {
			d := "postcondition: " + c.Text
			if c.Src == "modifies" {
				d = "frame condition: " + c.Text
			}
			if !e.trusted {
				g.obls[e.key]++
			}
			g.write("    ({ "+lets+"("+c.Text+") }),", &LineInfo{Fn: e.key, Kind: "ensures", Tags: c.Tags, Src: c.Src, Desc: d})
		}
	}
}

// protect runs fn; when the code is outside the subset, what was written is
// discarded and the reason is returned.
func (g *Gen) protect(fn func()) (reason string) {
	mark, line := g.out.Len(), g.line
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				reason = u.msg
			} else {
				if os.Getenv("GOVX_DEBUG") != "" {
					panic(r)
				}
				reason = fmt.Sprintf("internal: %v", r)
			}
			s := g.out.String()[:mark]
			g.out.Reset()
			g.out.WriteString(s)
			for i := line; i <= g.line; i++ {
				delete(g.info, i)
			}
			g.line = line
		}
	}()
	fn()
	return ""
}

func (g *Gen) newFx(key string, pkg *Pkg, ct *Contract, sig *types.Signature) *fx {
	return &fx{g: g, key: key, pkg: pkg, c: ct, indent: 1, loopN: new(int), tmpN: new(int), litN: new(int), callN: map[string]int{}, frames: map[int][2]int{},
		subst: map[types.Object]string{}, names: map[types.Object]string{}, sig: sig, stack: []string{key},
		locals: g.localsOf(key), aliasK: map[string]string{}, ranges: map[int]bool{}, elems: map[types.Object]*elemPtr{}, okAppend: map[*ast.CallExpr]bool{}, movedCall: map[*ast.CallExpr]*types.Var{}}
}

func (g *Gen) localsOf(key string) *[]string {
	l := &[]string{}
	g.locals[key] = l
	return l
}

// emitSpecs writes the specification functions of contracts with a value:
// Q (precondition), R (results) and D (meaning of a function literal).
func (g *Gen) contractSig(ct *Contract) (*fsig, *types.Signature, error) {
	var s *fsig
	var sig *types.Signature
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					err = fmt.Errorf("%s", u.msg)
					return
				}
				panic(r)
			}
		}()
		switch ct.Kind {
		case "func":
			if strings.HasPrefix(ct.Key, "ext:") {
				fn := g.extFns[ct.Key]
				if fn == nil {
					bail("external function %s is not used", ct.Key)
				}
				sig = fn.Type().(*types.Signature)
				var rt types.Type
				if sig.Recv() != nil {
					rt = sig.Recv().Type()
				}
				s = g.sigOf(ct, rt, sig, nil, nil)
				return
			}
			fi := g.prog.Funcs[ct.Key]
			if fi == nil || fi.Obj == nil {
				bail("function %s does not exist", ct.Key)
			}
			sig = fi.Obj.Type().(*types.Signature)
			var rt types.Type
			if sig.Recv() != nil {
				rt = sig.Recv().Type()
			}
			s = g.sigOf(ct, rt, sig, nil, nil)
		case "iface":
			m := g.ifaceMethod(ct.Key)
			sig = m.Type().(*types.Signature)
			s = g.sigOf(ct, sig.Recv().Type(), sig, nil, nil)
		case "functype":
			sig = g.ftSig[ct.Key]
			if sig == nil {
				bail("function type %s is not used", ct.Key)
			}
			s = g.sigOf(ct, nil, sig, []string{ct.CbName}, []string{ct.CbType})
		case "closure":
			l := g.lifted[ct.Key]
			if l == nil {
				bail("function literal %s is not used", ct.Key)
			}
			sig = l.Sig
			s = &fsig{}
			for i, v := range l.Captures {
				s.names = append(s.names, ct.Params[i])
				s.tys = append(s.tys, g.ty(l.typ(v)))
				s.ptr = append(s.ptr, g.isHeapPtr(l.typ(v)))
			}
		}
	}()
	return s, sig, err
}

func (g *Gen) ifaceMethod(key string) *types.Func {
	a := strings.Split(key, ".")
	for _, p := range g.prog.Order {
		if p.Name != a[0] {
			continue
		}
		if tn, ok := p.Types.Scope().Lookup(a[1]).(*types.TypeName); ok {
			o, _, _ := types.LookupFieldOrMethod(tn.Type(), false, p.Types, a[2])
			if m, ok := o.(*types.Func); ok {
				return ownMethod(tn.Type(), m)
			}
		}
	}
	bail("interface method %s does not exist", key)
	return nil
}

// emitSpecFns writes Q/R/D functions.
func (g *Gen) emitSpecFns(ct *Contract) {
	if len(ct.Returns) == 0 && ct.Kind != "closure" {
		return
	}
	s, _, err := g.contractSig(ct)
	if err != nil {
		return
	}
	id := keyIdent(ct.Key)
	if g.eff {
		g.write(fmt.Sprintf("pub open spec fn Q_%s(%s) -> bool { true }", id, s.specParams()), &LineInfo{Fn: ct.Key, Kind: "spec", Src: ct.Src})
		for i := range ct.Returns {
			g.write(fmt.Sprintf("pub uninterp spec fn R%d_%s(%s) -> %s;", i, id, s.specParams(), s.results[i]), &LineInfo{Fn: ct.Key, Kind: "spec", Src: ct.Src})
		}
		if ct.Kind == "closure" {
			g.write(fmt.Sprintf("pub uninterp spec fn D_%s(%s) -> %s;", id, s.specParams(), g.lifted[ct.Key].FT.CbType), &LineInfo{Fn: ct.Key, Kind: "spec", Src: ct.Src})
		}
		return
	}
	var q []string
	if ct.Kind == "func" {
		q = append(q, s.autoReq()...)
	} else {
		for i, n := range s.names {
			if s.ptr[i] {
				q = append(q, fmt.Sprintf("0 < %s < h0.next", n))
			}
		}
	}
	for _, c := range ct.Requires {
		q = append(q, c.Text)
	}
	g.write(fmt.Sprintf("pub open spec fn Q_%s(%s) -> bool { %s }", id, s.specParams(), conj(q)), &LineInfo{Fn: ct.Key, Kind: "spec", Src: ct.Src})
	for i, r := range ct.Returns {
		g.write(fmt.Sprintf("pub open spec fn R%d_%s(%s) -> %s { %s }", i, id, s.specParams(), s.results[i], r), &LineInfo{Fn: ct.Key, Kind: "spec", Src: ct.Src})
	}
	if ct.Kind == "closure" {
		ft := g.lifted[ct.Key].FT
		g.write(fmt.Sprintf("pub open spec fn D_%s(%s) -> %s { %s }", id, s.specParams(), ft.CbType, ct.Denotes), &LineInfo{Fn: ct.Key, Kind: "spec", Src: ct.Src})
	}
}

// emitFunc writes the translation of a function with its contract.
func (g *Gen) emitFunc(key string) {
	ct := g.cs.M[key]
	if reason := g.protect(func() { g.emitFunc1(key, ct, ct.Trusted || g.failed[key] != "") }); reason != "" {
		g.failed[key] = reason
		// its contract is still assumed, so that the callers can be checked
		if r2 := g.protect(func() { g.emitFunc1(key, ct, true) }); r2 != "" {
			g.failed[key] = reason
			g.broken[key] = true
		}
	}
}

func (g *Gen) emitFunc1(key string, ct *Contract, trusted bool) {
	s, sig, err := g.contractSig(ct)
	if err != nil {
		bail("%v", err)
	}
	e := &emission{name: "F_" + keyIdent(key), s: s, mods: ct.Mods, req: ct.Requires, ens: ct.Ensures, attrs: attrsOf(ct), rlimit: ct.Rlimit, isolate: len(ct.Keep) > 0 && !g.noHooks[key], key: key, trusted: trusted}
	if len(ct.Returns) > 0 && !(g.eff && !trusted) {
		if len(ct.Returns) != len(s.results) {
			bail("%s: returns clause with %d values for %d results", key, len(ct.Returns), len(s.results))
		}
		var ens []Clause
		for i := range ct.Returns {
			ens = append(ens, Clause{Tags: ct.RetTags, Src: ct.Src, Text: fmt.Sprintf("r%d == R%d_%s(%s)", i, i, keyIdent(key), s.argNames())})
		}
		e.ens = append(ens, e.ens...)
	}
	if strings.HasPrefix(key, "ext:") {
		e.name = "X_" + keyIdent(extIdent(strings.TrimPrefix(key, "ext:")))
		e.trusted, trusted = true, true
	}
	if ct.Kind == "functype" {
		e.name = "call_" + keyIdent(key)
		e.trusted, trusted = true, true
	}
	if ct.Kind == "iface" {
		e.trusted, trusted = true, true
	}
	fi := g.prog.Funcs[key]
	isInit := ct.Kind == "func" && fi != nil && fi.Decl.Name.Name == "init" && fi.Decl.Recv == nil
	var initVars []*types.Var
	if isInit {
		initVars = g.initGlobals(fi)
		for _, v := range initVars {
			s.results = append(s.results, g.ty(v.Type()))
		}
	}
	if g.canary && !trusted {
		// callers see the contract; a copy of the body must fail to prove false
		g.emitFunc1(key, ct, true)
		e.name += "_canary"
	}
	if !strings.HasSuffix(e.name, "_canary") {
		g.emitMeasure(ct, s)
	}
	g.header(e)
	g.write("{", nil)
	if trusted {
		g.write("  unimplemented!()", nil)
		g.write("}", nil)
		return
	}
	f := g.newFx(key, fi.Pkg, ct, sig)
	f.addr = addrTaken(fi.Pkg, fi.Decl.Body)
	f.isInit = isInit
	f.emit("let ghost mut h: Heap = h0;")
	f.effStart()
	if ct.Measure != "" && !g.eff {
		f.measure = "m_0"
		f.emit("let ghost m_0: int = M_" + keyIdent(key) + "(" + s.argNames() + ");")
	}
	i := 0
	bind := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, fd := range fl.List {
			if len(fd.Names) == 0 {
				i++
				continue
			}
			for _, nm := range fd.Names {
				if obj := fi.Pkg.Info.Defs[nm]; obj != nil && nm.Name != "_" {
					f.declareObj(obj, s.names[i])
				}
				i++
			}
		}
	}
	bind(fi.Decl.Recv)
	bind(fi.Decl.Type.Params)
	if fi.Decl.Type.Results != nil {
		for _, fd := range fi.Decl.Type.Results.List {
			for _, nm := range fd.Names {
				obj := fi.Pkg.Info.Defs[nm]
				if obj == nil {
					continue
				}
				if nm.Name == "_" {
					bail("blank named result")
				}
				f.declareObj(obj, g.zero(obj.Type()))
				f.named = append(f.named, obj)
			}
		}
	}
	for _, v := range initVars {
		n := "g_" + v.Name()
		f.names[v] = n
		z := g.zero(v.Type())
		if ie := g.globalInit(fi.Pkg, v); ie != nil {
			z = f.exprTo(ie, v.Type())
		}
		f.emit(fmt.Sprintf("let ghost mut %s: %s = %s;", n, g.ty(v.Type()), z))
		f.retNames = append(f.retNames, n)
	}
	f.hook(ct.Start)
	f.blockStmts(fi.Decl.Body.List)
	if !alwaysReturnsList(fi.Decl.Body.List) {
		if sig.Results().Len() > 0 {
			// the type checker guarantees that this point is unreachable
			f.emit("proof { assert(false); }")
			var vals []string
			for k := 0; k < sig.Results().Len(); k++ {
				vals = append(vals, g.zero(sig.Results().At(k).Type()))
			}
			f.doReturn(vals, fi.Decl)
		} else {
			f.doReturn(nil, fi.Decl)
		}
	}
	g.write("}", nil)
	if isInit {
		// the values left by init are those read everywhere else
		var lets []string
		for k, v := range initVars {
			lets = append(lets, fmt.Sprintf("let r%d = G_%s_%s();", k, fi.Pkg.Name, v.Name()))
			g.globalRef(v)
		}
		g.write("#[verifier::external_body]", nil)
		g.write(fmt.Sprintf("pub proof fn axiom_init_%s()", keyIdent(key)), nil)
		g.write("  ensures", nil)
		for _, c := range ct.Ensures {
			g.write("    ({ "+strings.Join(lets, " ")+" ("+c.Text+") }),", nil)
		}
		g.write("{ }", nil)
	}
}

func alwaysReturnsList(l []ast.Stmt) bool {
	return len(l) > 0 && alwaysReturns(l[len(l)-1])
}

func attrsOf(ct *Contract) []string {
	var out []string
	for _, a := range ct.Attrs {
		if strings.HasPrefix(a, "verifier::") {
			out = append(out, a)
		}
	}
	return out
}

func (g *Gen) globalRef(v *types.Var) {
	f := g.newFx("global", g.prog.inModule(v.Pkg()), &Contract{}, nil)
	delete(g.locals, "global")
	g.globalRead(f, v, ast.NewIdent(v.Name()))
}

// initGlobals lists the globals assigned by an init function.
func (g *Gen) initGlobals(fi *FuncInfo) []*types.Var {
	var out []*types.Var
	sc := fi.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		v, ok := sc.Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		if outside, in := g.globalAssigned(fi.Pkg, v); in && !outside {
			out = append(out, v)
		} else if in && outside {
			bail("global %s is assigned outside init", v.Name())
		}
	}
	return out
}

// emitLifted writes a function literal as a function of its captured variables.
func (g *Gen) emitLifted(key string) {
	ct := g.cs.M[key]
	l := g.lifted[key]
	emit := func() {
		s, sig, err := g.contractSig(ct)
		if err != nil {
			bail("%v", err)
		}
		ncap := len(l.Captures)
		full := &fsig{eff: g.eff, names: append([]string{"hc"}, s.names...), tys: append([]string{"Heap"}, s.tys...), ptr: make([]bool, ncap+1)}
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			full.names = append(full.names, ct.Params[ncap+i])
			full.tys = append(full.tys, g.ty(t))
			full.ptr = append(full.ptr, g.isHeapPtr(t))
		}
		for i := 0; i < sig.Results().Len(); i++ {
			full.results = append(full.results, g.ty(sig.Results().At(i).Type()))
		}
		ft := l.FT
		id := keyIdent(key)
		caps := strings.Join(append([]string{"hc"}, s.names...), ", ")
		lets := fmt.Sprintf("let %s_ = D_%s(%s); let %s = %s_; ", ft.CbName, id, caps, ft.CbName, ft.CbName)
		for i := range ft.Params {
			lets += fmt.Sprintf("let %s = %s; ", ft.Params[i], ct.Params[ncap+i])
		}
		var req, ens []Clause
		if !g.eff {
			req = append(req, Clause{Text: "Q_" + id + "(" + caps + ")", Src: ct.Src})
			req = append(req, Clause{Text: "hext(hc, h0)", Src: "creation heap"})
		}
		for _, c := range ft.Requires {
			req = append(req, Clause{Text: "({ " + lets + c.Text + " })", Src: c.Src, Tags: c.Tags})
		}
		for _, c := range ft.Ensures {
			ens = append(ens, Clause{Text: "({ " + lets + c.Text + " })", Src: c.Src, Tags: c.Tags})
		}
		for _, c := range ct.Ensures {
			ens = append(ens, c)
		}
		var mods []Mod
		for _, m := range ft.Mods {
			if !m.Alloc && !m.Trace && !m.Any {
				m.At = "({ " + lets + m.At + " })"
			}
			mods = append(mods, m)
		}
		c2 := *ct
		c2.Mods = mods
		e := &emission{name: "L_" + id, s: full, mods: mods, req: req, ens: ens, attrs: attrsOf(ct), rlimit: ct.Rlimit, isolate: len(ct.Keep) > 0 && !g.noHooks[key], key: key, trusted: ct.Trusted || g.failed[key] != ""}
		g.header(e)
		g.write("{", nil)
		if e.trusted {
			g.write("  unimplemented!()", nil)
			g.write("}", nil)
			return
		}
		f := g.newFx(key, l.Pkg, &c2, sig)
		f.addr = addrTaken(l.Pkg, l.Lit.Body)
		f.emit("let ghost mut h: Heap = h0;")
		f.effStart()
		for i, v := range l.Captures {
			f.declareObj(v, f.convert(s.names[i], l.typ(v), v.Type(), l.Lit))
		}
		for v, s := range l.Consts {
			f.subst[v] = s
		}
		k := 0
		for _, fd := range l.Lit.Type.Params.List {
			if len(fd.Names) == 0 {
				k++
				continue
			}
			for _, nm := range fd.Names {
				if obj := l.Pkg.Info.Defs[nm]; obj != nil && nm.Name != "_" {
					f.declareObj(obj, ct.Params[ncap+k])
				}
				k++
			}
		}
		f.hook(ct.Start)
		f.blockStmts(l.Lit.Body.List)
		if !alwaysReturnsList(l.Lit.Body.List) {
			if sig.Results().Len() > 0 {
				f.emit("proof { assert(false); }")
				var vals []string
				for k := 0; k < sig.Results().Len(); k++ {
					vals = append(vals, g.zero(sig.Results().At(k).Type()))
				}
				f.doReturn(vals, l.Lit)
			} else {
				f.doReturn(nil, l.Lit)
			}
		}
		g.write("}", nil)
	}
	if reason := g.protect(emit); reason != "" {
		g.failed[key] = reason
	}
}

// emitRefinement checks that an implementation satisfies the contract of the
// interface method.
func (g *Gen) emitRefinement(key string) []string {
	ct := g.cs.M[key]
	var used []string
	m := g.ifaceMethod(key)
	it := types.Unalias(m.Type().(*types.Signature).Recv().Type()).(*types.Named)
	en := g.enumFor(it)
	for _, v := range en.variants {
		v := v
		name := key + "<:" + v.name
		reason := g.protect(func() {
			im := g.method(v, m.Name())
			ik := g.funcKey(im)
			ic := g.cs.M[ik]
			if ic == nil {
				bail("implementation %s of %s has no contract", ik, key)
			}
			if ct.Fresh && !g.freshFn(im) {
				bail("%s may return storage which is shared", ik)
			}
			s, sig, err := g.contractSig(ct)
			if err != nil {
				bail("%v", err)
			}
			pt := "int"
			if !v.ptr {
				pt = g.ty(v.named)
			}
			full := &fsig{eff: g.eff, names: append([]string{"self_"}, s.names[1:]...), tys: append([]string{pt}, s.tys[1:]...), ptr: append([]bool{v.ptr}, s.ptr[1:]...), results: s.results, recv: v.ptr}
			let := fmt.Sprintf("let %s = %s::%s(self_); ", s.names[0], en.name, v.name)
			wrap := func(cs []Clause) []Clause {
				var out []Clause
				for _, c := range cs {
					out = append(out, Clause{Text: "({ " + let + c.Text + " })", Src: c.Src, Tags: c.Tags})
				}
				return out
			}
			var mods []Mod
			for _, m := range ct.Mods {
				if !m.Alloc && !m.Trace && !m.Any {
					m.At = "({ " + let + m.At + " })"
				}
				mods = append(mods, m)
			}
			e := &emission{name: "I_" + keyIdent(key) + "_" + v.name, s: full, mods: mods, req: wrap(ct.Requires), ens: wrap(ct.Ensures), key: name, rlimit: ct.Rlimit}
			g.header(e)
			g.write("{", nil)
			f := g.newFx(name, g.prog.inModule(it.Obj().Pkg()), &Contract{Key: name, Mods: mods, Return: ct.Return, Start: ct.Start, Loops: map[int]*LoopSpec{}, Calls: ct.Calls}, sig)
			f.emit("let ghost mut h: Heap = h0;")
			f.effStart()
			f.emit("let ghost " + s.names[0] + " = " + en.name + "::" + v.name + "(self_);")
			f.hook(ct.Start)
			f.refines = true
			if g.calls == nil {
				g.calls = g.buildCalls()
			}
			if ct.Measure != "" && !g.eff && g.calls.reaches(ik, key) {
				if ic.Measure == "" {
					bail("termination of the recursion: %s may lead back to %s and has no measure", ik, key)
				}
				f.oblig("0 <= M_"+keyIdent(ik)+"("+full.argNames()+") <= M_"+keyIdent(key)+"("+s.argNames()+")", "the measure of "+ik+" is within the one of "+key, &ast.CallExpr{Fun: ast.NewIdent(m.Name()), Lparen: it.Obj().Pos(), Rparen: it.Obj().Pos()})
			}
			dummy := &ast.CallExpr{Fun: ast.NewIdent(m.Name()), Lparen: it.Obj().Pos(), Rparen: it.Obj().Pos()}
			vals := f.callFunc(dummy, im, append([]string{}, full.names...))
			f.doReturn(vals, dummy)
			g.write("}", nil)
			used = append(used, ik)
		})
		if reason != "" {
			g.failed[name] = reason
		}
	}
	return used
}

// Generate writes the whole Verus file for the given roots and returns the
// functions in the cone.
func (g *Gen) Generate(roots []string, specDir string) (cone []string, err error) {
	g.out.Reset()
	g.line = 1
	g.write("use vstd::prelude::*;", nil)
	g.write("#[allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_assignments, unused_parens, unused_braces, unreachable_code, non_camel_case_types)]", nil)
	g.write("verus! {", nil)
	// types
	for _, n := range g.sOrder {
		g.write(g.structs[n], nil)
	}
	for _, n := range g.eOrder {
		g.write(g.emitEnum(g.enums[n]), nil)
	}
	g.write(g.emitAny(), nil)
	groups := map[string][]*heapType{}
	for _, k := range sortedKeys(g.heap) {
		h := g.heap[k]
		groups[h.group] = append(groups[h.group], h)
	}
	hs := "pub ghost struct Heap { pub next: int, pub trace: Seq<TraceEv>,"
	for _, gr := range sortedKeys(groups) {
		d := "pub ghost struct HP_" + gr + " {"
		for _, h := range groups[gr] {
			d += fmt.Sprintf(" pub %s: Map<int, %s>,", h.field, h.spec)
		}
		g.write(d+" }", nil)
		hs += fmt.Sprintf(" pub %s: HP_%s,", gr, gr)
	}
	g.write(hs+" }", nil)
	heapFields := len(g.heap)
	if g.eff {
		g.shared = g.sharedTypes()
		g.effPrelude()
	}
	files, _ := filepath.Glob(filepath.Join(specDir, "*.rs"))
	sort.Strings(files)
	for _, fn := range files {
		b, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		t := string(b)
		if g.eff {
			t = assumeLemmas(t)
		}
		g.writeFile(filepath.Base(fn), t)
	}
	g.writeFile("contracts", g.cs.Raw)
	// functions
	done := map[string]bool{}
	queue := g.present(roots)
	specDone := map[string]bool{}
	for _, k := range sortedKeys(g.cs.M) {
		c := g.cs.M[k]
		if c.Kind == "func" && !strings.HasPrefix(k, "ext:") {
			g.emitSpecFns(c)
			specDone[k] = true
		}
	}
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if done[k] {
			continue
		}
		done[k] = true
		ct := g.cs.M[k]
		if ct == nil {
			g.failed[k] = "no contract"
			continue
		}
		cone = append(cone, k)
		var more []string
		switch ct.Kind {
		case "iface":
			g.emitFunc(k)
			more = g.emitRefinement(k)
		case "closure":
			if g.lifted[k] == nil {
				g.failed[k] = "function literal does not exist"
				continue
			}
			g.emitSpecFns(ct)
			g.emitLifted(k)
		default:
			g.emitFunc(k)
		}
		more = append(more, sortedKeys(g.used[k])...)
		for _, r := range g.cs.Deps[k] {
			more = append(more, r)
		}
		queue = append(queue, more...)
	}
	for _, n := range sortedKeys(g.globals) {
		g.write(g.globals[n], &LineInfo{Fn: "global " + n, Kind: "global"})
	}
	// reachability of the preconditions
	for _, k := range cone {
		if g.eff {
			break
		}
		ct := g.cs.M[k]
		if ct.Kind != "func" || g.failed[k] != "" || strings.HasPrefix(k, "ext:") || len(ct.Requires) == 0 {
			continue
		}
		s, _, err := g.contractSig(ct)
		if err != nil {
			continue
		}
		g.write(fmt.Sprintf("pub proof fn canary_%s(%s)", keyIdent(k), s.specParams()), &LineInfo{Fn: k, Kind: "canary"})
		var q []string
		q = append(q, s.autoReq()...)
		for _, c := range ct.Requires {
			q = append(q, c.Text)
		}
		g.write("  requires "+conj(q)+",", &LineInfo{Fn: k, Kind: "canary"})
		g.write("  ensures false,", &LineInfo{Fn: k, Kind: "canary"})
		g.write("{ }", &LineInfo{Fn: k, Kind: "canary"})
		g.canaries[k] = true
	}
	g.write("}", nil)
	g.write("fn main() {}", nil)
	if len(g.heap) != heapFields {
		return cone, errHeapGrew
	}
	return cone, nil
}

var errHeapGrew = fmt.Errorf("heap types discovered during translation")

var specFnRE = regexp.MustCompile(`^\s*(?:pub )?(?:open )?(?:closed )?(?:uninterp )?(?:broadcast )?(?:proof|spec)(?:\(checked\))? fn (\w+)`)

func (g *Gen) writeFile(name, text string) {
	fn := name
	for i, ln := range strings.Split(text, "\n") {
		if m := specFnRE.FindStringSubmatch(ln); m != nil {
			fn = m[1]
		}
		g.write(ln, &LineInfo{Fn: "spec " + fn, Kind: "spec", Src: fmt.Sprintf("%s:%d", name, i+1)})
	}
}

// present drops the effect roots which no longer exist: the effect properties
// start from every function there is, and a helper which is gone has no
// effects. An exported function, and init, must be there.
func (g *Gen) present(roots []string) (out []string) {
	for _, k := range roots {
		name := k[strings.LastIndex(k, ".")+1:]
		c := g.cs.M[k]
		gone := g.eff && c != nil && c.Kind == "func" && !strings.HasPrefix(k, "ext:") && g.prog.Funcs[k] == nil
		if gone && name != "init" && !token.IsExported(name) {
			continue
		}
		out = append(out, k)
	}
	return
}
