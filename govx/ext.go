package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"strings"
)

// Pure external functions: name -> spec function applied to the arguments.
var extPureTable = map[string]string{
	"unicode.ToLower":                     "to_lower(%0)",
	"unicode.ToUpper":                     "to_upper(%0)",
	"unicode.IsSpace":                     "in_table(tbl_White_Space(), %0)",
	"unicode.IsPunct":                     "in_table(tbl_Punct(), %0)",
	"unicode.Is":                          "in_table(%0, %1)",
	"unicode.In":                          "in_tables(%0, %1)",
	"unicode/utf8.RuneLen":                "rune_len(%0)",
	"unicode/utf8.RuneStart":              "!is_cont(%0 as u8)",
	"unicode/utf8.RuneCountInString":      "(runes(%0).len() as int)",
	"unicode/utf8.RuneCount":              "(runes(%0).len() as int)",
	"unicode/utf8.ValidString":            "valid_utf8(%0)",
	"strings.HasPrefix":                   "str_has_prefix(%0, %1)",
	"strings.HasSuffix":                   "str_has_suffix(%0, %1)",
	"strings.Split":                       "str_split(%0, %1)",
	"strings.Join":                        "str_join(%0, %1)",
	"strings.Contains":                    "str_contains(%0, %1)",
	"strings.TrimPrefix":                  "str_trim_prefix(%0, %1)",
	"strings.Repeat":                      "",
	"regexp.QuoteMeta":                    "re_quote(%0)",
	"(*regexp.Regexp).FindAllStringIndex": "re_find_all(%0, %1, %2)",
	"(*strings.Builder).String":           "%0",
	"(*strings.Builder).Len":              "(%0.len() as int)",
	"fmt.Errorf":                          "err_fmt()",
	"errors.New":                          "err_fmt()",
}

// External calls whose translation needs the call itself.
var extSpecialPure = map[string]bool{
	"unicode/utf8.DecodeRuneInString":        true,
	"unicode/utf8.DecodeLastRune":            true,
	"unicode/utf8.DecodeRune":                true,
	"unicode/utf8.DecodeLastRuneInString":    true,
	"fmt.Sprintf":                            true,
	"fmt.Sprint":                             true,
	"bufio.NewScanner":                       true,
	"(*bufio.Scanner).Text":                  true,
	"(*bufio.Scanner).Err":                   true,
	"regexp.MustCompile":                     true,
	"github.com/dlclark/regexp2.MustCompile": true,
}

func extPure(name string) bool {
	_, ok := extPureTable[name]
	return ok || extSpecialPure[name]
}

func (f *fx) noteExt(name string) {
	if f.g.extUsed[f.key] == nil {
		f.g.extUsed[f.key] = map[string]bool{}
	}
	f.g.extUsed[f.key][name] = true
}

func extPureCall(f *fx, name string, args []string) (string, bool) {
	t, ok := extPureTable[name]
	if !ok || t == "" {
		return "", false
	}
	f.noteExt(name)
	for i, a := range args {
		t = strings.ReplaceAll(t, fmt.Sprintf("%%%d", i), "("+a+")")
	}
	return t, true
}

func (f *fx) callExt(c *ast.CallExpr, fn *types.Func) []string {
	name := fullName(fn)
	sig := fn.Type().(*types.Signature)
	f.noteExt(name)
	// methods of local values of external types
	if strings.HasPrefix(name, "(*strings.Builder).") {
		se := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		target := ast.Unparen(se.X)
		if _, ok := isPtr(f.typeOf(target)); ok {
			bail("%s: pointer to strings.Builder", f.pos(c))
		}
		cur := f.expr(target)
		switch fn.Name() {
		case "WriteRune":
			f.assign(target, "("+cur+" + enc("+f.expr(c.Args[0])+"))")
			return []string{"0int", "0int"}
		case "WriteString":
			f.assign(target, "("+cur+" + "+f.expr(c.Args[0])+")")
			return []string{"0int", "0int"}
		case "WriteByte":
			f.assign(target, "("+cur+".push("+f.expr(c.Args[0])+" as u8))")
			return []string{"0int"}
		case "Reset":
			f.assign(target, "Seq::<u8>::empty()")
			return nil
		case "Grow":
			n := f.expr(c.Args[0])
			f.oblig("0 <= "+n, "strings.Builder.Grow: negative count", c)
			return nil
		case "String":
			return []string{cur}
		case "Len":
			return []string{"(" + cur + ".len() as int)"}
		}
		bail("%s: %s", f.pos(c), name)
	}
	// a scanner is a value: the file and the number of calls of Scan
	if strings.HasPrefix(name, "(*bufio.Scanner).") {
		target := ast.Unparen(ast.Unparen(c.Fun).(*ast.SelectorExpr).X)
		id, ok := target.(*ast.Ident)
		if !ok {
			bail("%s: bufio.Scanner which is not a local variable", f.pos(c))
		}
		f.scanOK = true
		cur := f.expr(id)
		f.scanOK = false
		switch fn.Name() {
		case "Scan":
			f.assign(id, "(Scan { pos: "+cur+".pos + 1, ..("+cur+") })")
			t := f.tmp()
			f.emit("let ghost " + t + ": bool = scan_more(" + cur + ");")
			return []string{t}
		case "Text":
			return []string{"scan_text(" + cur + ")"}
		case "Err":
			return []string{"scan_error(" + cur + ")"}
		}
		bail("%s: %s", f.pos(c), name)
	}
	switch name {
	case "bufio.NewScanner":
		if extPtr(f.typeOf(c.Args[0])) != "os.File" {
			bail("%s: bufio.Scanner of something else than a file", f.pos(c))
		}
		x := f.expr(c.Args[0])
		f.oblig(x+" != 0", "nil file", c)
		return []string{"(Scan { src: " + x + ", pos: 0 })"}
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		s := f.expr(c.Args[0])
		return []string{"dec_rune(" + s + ")", "dec_len(" + s + ")"}
	case "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
		// the last rune read backwards is the last one read forwards, as no
		// encoding can begin inside another one
		s := f.expr(c.Args[0])
		return []string{"last_rune(" + s + ")", "last_len(" + s + ")"}
	case "fmt.Sprintf":
		return []string{f.sprintf(c)}
	case "regexp.MustCompile":
		x := f.expr(c.Args[0])
		f.oblig("re_compiles("+x+")", "regexp.MustCompile of an invalid expression", c)
		return []string{"re_compile(" + x + ")"}
	case "github.com/dlclark/regexp2.MustCompile":
		x := f.expr(c.Args[0])
		o := f.expr(c.Args[1])
		return []string{"re2_compile(" + x + ", " + o + ")"}
	case "encoding/json.Unmarshal":
		// into a local map from strings to ints which was not assigned yet
		u, ok := ast.Unparen(c.Args[1]).(*ast.UnaryExpr)
		if !ok || u.Op.String() != "&" {
			bail("%s: json.Unmarshal into something else than a local variable", f.pos(c))
		}
		t := f.typeOf(u.X)
		if f.g.ty(t) != "GMap<Seq<u8>, int>" {
			bail("%s: json.Unmarshal into %s", f.pos(c), t)
		}
		data := f.expr(c.Args[0])
		f.oblig(f.expr(u.X)+".nil", "json.Unmarshal into a map which is not empty", c)
		f.assign(u.X, "json_gmap("+data+")")
		return []string{"json_err(" + data + ")"}
	case "strings.Split":
		if tv := f.pkg.Info.Types[c.Args[1]]; tv.Value == nil || constant.StringVal(tv.Value) == "" {
			bail("%s: strings.Split with a variable separator", f.pos(c))
		}
	case "(*regexp.Regexp).FindAllStringIndex":
		tv := f.pkg.Info.Types[c.Args[1]]
		if tv.Value == nil || tv.Value.ExactString() != "-1" {
			bail("%s: FindAllStringIndex with a limit", f.pos(c))
		}
	}
	var recv string
	var rt types.Type
	if sig.Recv() != nil {
		se := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		rt = f.typeOf(se.X)
		recv = f.expr(se.X)
		if _, ok := isPtr(rt); ok {
			f.oblig(recv+" != 0", "nil pointer dereference", c)
		}
	}
	if t := extPureTable[name]; t != "" {
		var args []string
		if name == "fmt.Errorf" || name == "errors.New" {
			for _, a := range c.Args {
				f.expr(a)
			}
		} else {
			args = f.args(recv, rt, c, sig)
		}
		s, _ := extPureCall(f, name, args)
		return []string{s}
	}
	// external functions with an assumed contract
	key := "ext:" + name
	if ct := f.g.cs.M[key]; ct != nil {
		f.use(key)
		f.g.extFns[key] = fn
		args := f.args(recv, rt, c, sig)
		return f.callContract(c, key, ct, sig, args, "X_"+keyIdent(extIdent(name)))
	}
	bail("%s: external function %s has no contract", f.pos(c), name)
	return nil
}

// extPtr returns the name of the external type t points to, if any.
func extPtr(t types.Type) string {
	p, ok := isPtr(t)
	if !ok {
		return ""
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return extPath(n)
}

func extIdent(n string) string {
	return strings.NewReplacer("/", "_", "(", "", ")", "", "*", "").Replace(n)
}

func (f *fx) sprintf(c *ast.CallExpr) string {
	tv := f.pkg.Info.Types[c.Args[0]]
	if tv.Value == nil {
		bail("%s: variable format", f.pos(c))
	}
	format := constant.StringVal(tv.Value)
	parts := []string{}
	arg := 1
	simple := true
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, strLit(lit))
			lit = ""
		}
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i < len(format) && format[i] == '%' {
			lit += "%"
			continue
		}
		if i >= len(format) || (format[i] != 's' && format[i] != 'v') || arg >= len(c.Args) {
			simple = false
			break
		}
		b, ok := f.typeOf(c.Args[arg]).Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString == 0 {
			simple = false
			break
		}
		flush()
		parts = append(parts, f.expr(c.Args[arg]))
		arg++
	}
	flush()
	if !simple || arg != len(c.Args) {
		for _, a := range c.Args[1:] {
			if _, ok := f.typeOf(a).Underlying().(*types.Interface); !ok {
				f.expr(a)
			}
		}
		return "str_any()"
	}
	if len(parts) == 0 {
		return "Seq::<u8>::empty()"
	}
	return "(" + strings.Join(parts, " + ") + ")"
}

// extVar reads a variable of another module.
func (g *Gen) extVar(f *fx, v *types.Var, e ast.Expr) string {
	n := v.Pkg().Path() + "." + v.Name()
	if p, ok := isPtr(v.Type()); ok {
		if nt, ok := types.Unalias(p.Elem()).(*types.Named); ok && extPath(nt) == "unicode.RangeTable" {
			f.noteExt(n)
			name := v.Name()
			if name == "C" {
				name = "Other"
			}
			if name == "P" {
				name = "Punct"
			}
			if name == "Other" || name == "Punct" || name == "White_Space" || name == "Mn" {
				return "tbl_" + name + "()"
			}
			g.globals["tbl_"+name] = fmt.Sprintf("pub uninterp spec fn tbl_%s() -> RTable;", name)
			return "tbl_" + name + "()"
		}
	}
	bail("%s: external variable %s", f.pos(e), n)
	return ""
}

func (f *fx) extField(e *ast.SelectorExpr, sel *types.Selection) (string, bool) {
	t := f.typeOf(e.X)
	p, ok := isPtr(t)
	if !ok {
		return "", false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || f.g.prog.inModule(n.Obj().Pkg()) != nil {
		return "", false
	}
	name := extPath(n) + "." + e.Sel.Name
	x := f.expr(e.X)
	f.oblig(x+" != 0", "nil pointer dereference", e)
	switch name {
	case "github.com/dlclark/regexp2.Match.Index", "github.com/dlclark/regexp2.Capture.Index":
		return "m2_index(" + x + ")", true
	case "github.com/dlclark/regexp2.Match.Length", "github.com/dlclark/regexp2.Capture.Length":
		return "m2_length(" + x + ")", true
	}
	bail("%s: external field %s", f.pos(e), name)
	return "", false
}

// rangeTable translates a unicode.RangeTable literal.
func (f *fx) rangeTable(cl *ast.CompositeLit) string {
	var rs []string
	for _, el := range cl.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			bail("%s: range table", f.pos(cl))
		}
		switch kv.Key.(*ast.Ident).Name {
		case "R16", "R32":
			l, ok := kv.Value.(*ast.CompositeLit)
			if !ok {
				bail("%s: range table", f.pos(cl))
			}
			for _, r := range l.Elts {
				rl, ok := r.(*ast.CompositeLit)
				if !ok || len(rl.Elts) != 3 {
					bail("%s: range table", f.pos(cl))
				}
				var v []string
				for _, x := range rl.Elts {
					if kv, ok := x.(*ast.KeyValueExpr); ok {
						x = kv.Value
					}
					s, ok := f.constVal(x)
					if !ok {
						bail("%s: range table", f.pos(cl))
					}
					v = append(v, s)
				}
				rs = append(rs, "("+strings.Join(v, ", ")+")")
			}
		case "LatinOffset":
		default:
			bail("%s: range table", f.pos(cl))
		}
	}
	return "RTable { id: 0, r: seq![" + strings.Join(rs, ", ") + "] }"
}

// globalRead reads a package-level variable of the module.
func (g *Gen) globalRead(f *fx, v *types.Var, e ast.Expr) string {
	if f.isInit {
		if n, ok := f.names[v]; ok {
			return n
		}
	}
	p := g.prog.inModule(v.Pkg())
	name := "G_" + p.Name + "_" + v.Name()
	if _, ok := g.globals[name]; ok {
		return name + "()"
	}
	assigned, init := g.globalAssigned(p, v)
	if assigned {
		bail("%s: global %s is assigned outside init", f.pos(e), v.Name())
	}
	ty := g.ty(v.Type())
	var def string
	if init {
		def = fmt.Sprintf("pub uninterp spec fn %s() -> %s;", name, ty)
	} else {
		ie := g.globalInit(p, v)
		if ty == "int" && isError(v.Type()) {
			if ie == nil {
				def = fmt.Sprintf("pub open spec fn %s() -> int { 0 }", name)
			} else {
				def = fmt.Sprintf("pub open spec fn %s() -> int { %dint }", name, 1000+len(g.globals))
			}
		} else if ie == nil {
			def = fmt.Sprintf("pub open spec fn %s() -> %s { %s }", name, ty, g.zero(v.Type()))
		} else {
			n := &fx{g: g, key: f.key, pkg: p, spec: true, subst: map[types.Object]string{}, names: map[types.Object]string{},
				addr: map[types.Object]bool{}, tmpN: new(int), loopN: new(int), litN: new(int), callN: map[string]int{}, frames: map[int][2]int{}, c: &Contract{}}
			def = fmt.Sprintf("pub open spec fn %s() -> %s { %s }", name, ty, n.exprTo(ie, v.Type()))
		}
	}
	g.globals[name] = def
	return name + "()"
}

func isError(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func (g *Gen) globalInit(p *Pkg, v *types.Var) ast.Expr {
	for _, in := range p.Info.InitOrder {
		for i, l := range in.Lhs {
			if l == v && len(in.Lhs) == 1 {
				_ = i
				return in.Rhs
			}
		}
	}
	return nil
}

// globalAssigned reports whether v is assigned (or has its address taken)
// outside init functions, and whether it is assigned in one.
func (g *Gen) globalAssigned(p *Pkg, v *types.Var) (outside, inInit bool) {
	for _, pp := range g.prog.Order {
		for _, af := range pp.Files {
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				isInit := fd.Recv == nil && fd.Name.Name == "init"
				root := func(e ast.Expr) bool {
					for {
						switch x := e.(type) {
						case *ast.ParenExpr:
							e = x.X
						case *ast.IndexExpr:
							e = x.X
						case *ast.SelectorExpr:
							if pp.Info.Uses[x.Sel] == v {
								return true
							}
							e = x.X
						case *ast.StarExpr:
							e = x.X
						case *ast.SliceExpr:
							e = x.X
						case *ast.Ident:
							return pp.Info.Uses[x] == v
						default:
							return false
						}
					}
				}
				hit := func() {
					if isInit && pp == p {
						inInit = true
					} else {
						outside = true
					}
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.AssignStmt:
						for _, l := range n.Lhs {
							if root(l) {
								hit()
							}
						}
					case *ast.IncDecStmt:
						if root(n.X) {
							hit()
						}
					case *ast.UnaryExpr:
						if n.Op.String() == "&" && root(n.X) {
							hit()
						}
					case *ast.RangeStmt:
						if n.Key != nil && root(n.Key) || n.Value != nil && root(n.Value) {
							hit()
						}
					}
					return true
				})
			}
		}
	}
	return
}
