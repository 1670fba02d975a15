// mutate lists small changes of a Go source tree: mutate ROOT OUT writes
// OUT/NNNN.json {file, start, end, old, new, op, fn}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type Mut struct {
	File       string
	Start, End int
	Old, New   string
	Op, Fn     string
	Line       int
}

func main() {
	root, out := os.Args[1], os.Args[2]
	os.MkdirAll(out, 0o755)
	n := 0
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		fn := ""
		add := func(s, e token.Pos, nw, op string) {
			a, b := off(s), off(e)
			old := string(src[a:b])
			if old == nw {
				return
			}
			m := Mut{rel, a, b, old, nw, op, fn, fset.Position(s).Line}
			j, _ := json.Marshal(m)
			os.WriteFile(fmt.Sprintf("%s/%04d.json", out, n), j, 0o644)
			n++
		}
		txt := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = f.Name.Name + "."
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				fn += txt(t) + "."
			}
			fn += fd.Name.Name
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch e := x.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="}, token.EQL: {"!=", "<="}, token.NEQ: {"==", ">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}}
					for _, a := range alt[e.Op] {
						add(e.OpPos, e.OpPos+token.Pos(len(e.Op.String())), a, "binop")
					}
					if e.Op == token.LAND || e.Op == token.LOR || e.Op == token.ADD || e.Op == token.SUB {
						add(e.Pos(), e.End(), txt(e.X), "left")
						add(e.Pos(), e.End(), txt(e.Y), "right")
					}
				case *ast.BasicLit:
					if e.Kind == token.INT {
						v, err := strconv.ParseInt(e.Value, 0, 64)
						if err == nil {
							add(e.Pos(), e.End(), fmt.Sprint(v+1), "lit+1")
							add(e.Pos(), e.End(), fmt.Sprint(v-1), "lit-1")
						}
					}
					if e.Kind == token.CHAR {
						add(e.Pos(), e.End(), "("+e.Value+"+1)", "char+1")
					}
				case *ast.IfStmt:
					add(e.Cond.Pos(), e.Cond.End(), "!("+txt(e.Cond)+")", "ifneg")
					if e.Init == nil {
						add(e.Cond.Pos(), e.Cond.End(), "false && ("+txt(e.Cond)+")", "iffalse")
						add(e.Cond.Pos(), e.Cond.End(), "true || ("+txt(e.Cond)+")", "iftrue")
					}
				case *ast.AssignStmt:
					if e.Tok == token.ASSIGN && len(e.Lhs) == 1 {
						add(e.Pos(), e.End(), "_ = "+txt(e.Rhs[0]), "delassign")
					}
					if e.Tok == token.ADD_ASSIGN {
						add(e.TokPos, e.TokPos+2, "-=", "assignop")
						add(e.TokPos, e.TokPos+2, "=", "assignop")
					}
					if e.Tok == token.SUB_ASSIGN {
						add(e.TokPos, e.TokPos+2, "+=", "assignop")
					}
				case *ast.ExprStmt:
					add(e.Pos(), e.End(), "", "delcall")
				case *ast.IncDecStmt:
					if e.Tok == token.INC {
						add(e.Pos(), e.End(), txt(e.X)+"--", "incdec")
					} else {
						add(e.Pos(), e.End(), txt(e.X)+"++", "incdec")
					}
				case *ast.BranchStmt:
					if e.Tok == token.CONTINUE {
						add(e.Pos(), e.End(), "break", "branch")
					}
					if e.Tok == token.BREAK {
						add(e.Pos(), e.End(), "continue", "branch")
						add(e.Pos(), e.End(), "", "delbreak")
					}
				case *ast.SliceExpr:
					if e.Low != nil {
						add(e.Low.Pos(), e.Low.End(), "("+txt(e.Low)+")+1", "low+1")
						add(e.Low.Pos(), e.Low.End(), "("+txt(e.Low)+")-1", "low-1")
					}
					if e.High != nil {
						add(e.High.Pos(), e.High.End(), "("+txt(e.High)+")-1", "high-1")
						add(e.High.Pos(), e.High.End(), "("+txt(e.High)+")+1", "high+1")
					}
				case *ast.IndexExpr:
					add(e.Index.Pos(), e.Index.End(), "("+txt(e.Index)+")-1", "index-1")
					add(e.Index.Pos(), e.Index.End(), "("+txt(e.Index)+")+1", "index+1")
				case *ast.SelectorExpr:
					alt := map[string]string{"Start": "End", "End": "Start", "start": "end", "end": "start", "original": "normalized", "normalized": "original", "GetOriginal": "Get", "Get": "GetOriginal", "Len": "OriginalLen", "OriginalLen": "Len", "First": "Second", "Prev": "Next", "Next": "Prev", "left": "right", "right": "left"}
					if a := alt[e.Sel.Name]; a != "" {
						add(e.Sel.Pos(), e.Sel.End(), a, "field")
					}
				case *ast.Ident:
					if e.Name == "true" {
						add(e.Pos(), e.End(), "false", "bool")
					}
					if e.Name == "false" {
						add(e.Pos(), e.End(), "true", "bool")
					}
				case *ast.CompositeLit:
					for _, el := range e.Elts {
						if kv, ok := el.(*ast.KeyValueExpr); ok && len(e.Elts) > 1 {
							end := kv.End()
							s := string(src[off(end):])
							if strings.HasPrefix(s, ",") {
								end++
							}
							add(kv.Pos(), end, "", "delfield")
						}
					}
				case *ast.UnaryExpr:
					if e.Op == token.NOT {
						add(e.Pos(), e.End(), txt(e.X), "not")
					}
				case *ast.ForStmt:
					_ = e
				}
				return true
			})
		}
		return nil
	})
	fmt.Println(n)
}
