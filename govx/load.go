package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Pkg is one package of the module under verification, type-checked from its
// current source.
type Pkg struct {
	Path  string
	Name  string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info

	changed map[types.Object]bool
}

// changes reports whether a variable is written to after its declaration, or
// through an index of it.
func (p *Pkg) changes(v types.Object) bool {
	if p.changed == nil {
		p.changed = map[types.Object]bool{}
		var mark func(e ast.Expr)
		mark = func(e ast.Expr) {
			switch e := ast.Unparen(e).(type) {
			case *ast.Ident:
				if o := p.Info.Uses[e]; o != nil {
					p.changed[o] = true
				}
			case *ast.IndexExpr:
				mark(e.X)
			case *ast.SelectorExpr:
				if _, ptr := isPtr(p.Info.TypeOf(e.X)); !ptr {
					mark(e.X)
				}
			}
		}
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
					}
				case *ast.RangeStmt:
					if n.Tok == token.ASSIGN {
						mark(n.Key)
						if n.Value != nil {
							mark(n.Value)
						}
					}
				}
				return true
			})
		}
	}
	return p.changed[v]
}

type FuncInfo struct {
	Key  string
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
}

type Program struct {
	Root   string
	Module string
	Fset   *token.FileSet
	Pkgs   map[string]*Pkg // by path
	Order  []*Pkg
	Funcs  map[string]*FuncInfo      // by key
	ByObj  map[*types.Func]*FuncInfo // by object
	Src    map[string][]byte
}

// Packages of the standard library which are verified from their source too.
var sourcePkgs = map[string]bool{"container/heap": true}

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	Imports                       []string
	Module                        *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

func LoadProgram(root, clients string) (*Program, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json", "./...")
	cmd.Dir = root
	cmd.Env = goEnv()
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	var all []*listPkg
	exports := map[string]string{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		all = append(all, &p)
	}
	prog := &Program{Root: root, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{},
		Funcs: map[string]*FuncInfo{}, ByObj: map[*types.Func]*FuncInfo{}, Src: map[string][]byte{}}
	gcImp := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p := prog.Pkgs[path]; p != nil {
			return p.Types, nil
		}
		return gcImp.Import(path)
	})
	// Verified clients of the library, which are not part of it.
	if fs, _ := filepath.Glob(filepath.Join(clients, "*.go")); len(fs) > 0 {
		lp := &listPkg{Dir: clients, ImportPath: "client", Name: "client"}
		for _, f := range fs {
			lp.GoFiles = append(lp.GoFiles, filepath.Base(f))
		}
		all = append(all, lp)
	}
	for _, lp := range all {
		if !sourcePkgs[lp.ImportPath] && lp.ImportPath != "client" && (lp.Module == nil || !lp.Module.Main) {
			continue
		}
		if lp.Module != nil {
			prog.Module = lp.Module.Path
		}
		p := &Pkg{Path: lp.ImportPath, Name: lp.Name}
		for _, f := range lp.GoFiles {
			fn := filepath.Join(lp.Dir, f)
			src, err := os.ReadFile(fn)
			if err != nil {
				return nil, err
			}
			prog.Src[fn] = src
			af, err := parser.ParseFile(prog.Fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		check := func() (*types.Package, error) {
			p.Info = &types.Info{
				Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
				Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
				Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
				Instances: map[*ast.Ident]types.Instance{},
			}
			conf := types.Config{Importer: imp}
			return conf.Check(lp.ImportPath, prog.Fset, p.Files, p.Info)
		}
		tp, err := check()
		if err != nil {
			return nil, err
		}
		if lp.Module != nil && lp.Module.Main && etaExpand(p) {
			if tp, err = check(); err != nil {
				return nil, err
			}
		}
		p.Types = tp
		prog.Pkgs[p.Path] = p
		prog.Order = append(prog.Order, p)
		for _, af := range p.Files {
			ninit := 0
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				obj, _ := p.Info.Defs[fd.Name].(*types.Func)
				key := p.Name + "."
				if fd.Recv != nil && len(fd.Recv.List) > 0 {
					key += recvTypeName(fd.Recv.List[0].Type) + "."
				}
				key += fd.Name.Name
				if fd.Name.Name == "init" && fd.Recv == nil {
					ninit++
					if ninit > 1 {
						key += fmt.Sprintf("#%d", ninit)
					}
				}
				fi := &FuncInfo{Key: key, Pkg: p, Decl: fd, Obj: obj}
				prog.Funcs[key] = fi
				if obj != nil {
					prog.ByObj[obj] = fi
				}
			}
		}
	}
	sort.SliceStable(prog.Order, func(i, j int) bool { return false })
	return prog, nil
}

func recvTypeName(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.StarExpr:
		return recvTypeName(t.X)
	case *ast.ParenExpr:
		return recvTypeName(t.X)
	case *ast.IndexExpr:
		return recvTypeName(t.X)
	case *ast.Ident:
		return t.Name
	}
	return "?"
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// Pos renders a position relative to the root.
func (p *Program) Pos(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Program) inModule(pkg *types.Package) *Pkg {
	if pkg == nil {
		return nil
	}
	return p.Pkgs[pkg.Path()]
}
