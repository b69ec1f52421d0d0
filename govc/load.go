package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the repository as loaded from its working tree.
type Prog struct {
	Fset    *token.FileSet
	SSA     *ssa.Program
	Pkgs    []*packages.Package       // packages of the repository
	ByShort map[string]*types.Package // short name -> package (repo packages first)
	AllPkgs map[string]*types.Package // by path
	Repo    map[string]bool           // import paths that belong to the repository
	Funcs   map[string]*ssa.Function  // contract key -> function
	Keys    map[*ssa.Function]string  // reverse
	Stored  map[*ssa.Global]bool      // globals stored to (or whose address is taken) outside their initialiser
	Inits   map[*ssa.Global]ast.Expr  // initial value expressions
	Infos   map[*types.Package]*types.Info
	ModPath string
}

func goEnv(dir string) []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local")
}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps | packages.NeedExportFile,
		Dir: dir,
		Env: goEnv(dir),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	sp, _ := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{Fset: sp.Fset, SSA: sp, Pkgs: pkgs, ByShort: map[string]*types.Package{}, AllPkgs: map[string]*types.Package{},
		Repo: map[string]bool{}, Funcs: map[string]*ssa.Function{}, Keys: map[*ssa.Function]string{},
		Stored: map[*ssa.Global]bool{}, Inits: map[*ssa.Global]ast.Expr{}, Infos: map[*types.Package]*types.Info{}}
	for _, pk := range pkgs {
		p.Repo[pk.PkgPath] = true
		if pk.Module != nil {
			p.ModPath = pk.Module.Path
		}
	}
	var all []*types.Package
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		all = append(all, t)
		for _, i := range t.Imports() {
			visit(i)
		}
	}
	for _, pk := range pkgs {
		visit(pk.Types)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Path() < all[j].Path() })
	for _, t := range all {
		p.AllPkgs[t.Path()] = t
	}
	for _, t := range all {
		if p.Repo[t.Path()] {
			p.ByShort[p.short(t)] = t
		}
	}
	for _, t := range all {
		if _, ok := p.ByShort[t.Name()]; !ok && !p.Repo[t.Path()] {
			p.ByShort[t.Name()] = t
		}
		p.ByShort[t.Path()] = t
	}
	for fn := range ssautil.AllFunctions(sp) {
		k := p.key(fn)
		if k == "" {
			continue
		}
		if old, ok := p.Funcs[k]; ok && old.Blocks != nil && (fn.Blocks == nil || fn.Synthetic != "") {
			p.Keys[fn] = k
			continue
		}
		p.Funcs[k] = fn
		p.Keys[fn] = k
	}
	p.scanGlobals()
	return p, nil
}

// short name of a package used in contracts. The module root package is
// "oapi", the internal package of the same name "ioapi", commands "main".
func (p *Prog) short(t *types.Package) string {
	switch {
	case t.Path() == p.ModPath:
		return "root"
	case strings.HasSuffix(t.Path(), "internal/oapi/scan/types"):
		return "stypes"
	case strings.HasSuffix(t.Path(), "cmd/oapi"):
		return "main"
	}
	return t.Name()
}

// key of a function in contracts: pkg.Func, pkg.Type.Method, with $n for the
// n-th function literal inside.
func (p *Prog) key(fn *ssa.Function) string {
	if fn.Parent() != nil {
		pk := p.key(fn.Parent())
		if pk == "" {
			return ""
		}
		i := strings.LastIndex(fn.Name(), "$")
		if i < 0 {
			return pk + "$" + fn.Name()
		}
		return pk + fn.Name()[i:]
	}
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") && fn.Blocks != nil && fn.Object() == nil {
		return ""
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	}
	if pkg == nil {
		return ""
	}
	s := p.short(pkg)
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return s + "." + n.Obj().Name() + "." + fn.Name()
		}
		return ""
	}
	return s + "." + fn.Name()
}

func (p *Prog) scanGlobals() {
	for fn := range p.Keys {
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && isInit {
						_ = g
						continue
					}
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.DebugRef:
						continue
					case *ssa.FieldAddr:
						continue
					}
					p.Stored[g] = true
				}
			}
		}
	}
	for _, pk := range p.Pkgs {
		p.Infos[pk.Types] = pk.TypesInfo
		sp := p.SSA.Package(pk.Types)
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) != len(vs.Names) {
						continue
					}
					for i, n := range vs.Names {
						if g, ok := sp.Members[n.Name].(*ssa.Global); ok {
							p.Inits[g] = vs.Values[i]
						}
					}
				}
			}
		}
	}
}

// constStrings returns the strings of a composite literal of constants.
func (p *Prog) constStrings(g *ssa.Global) ([]string, bool) {
	cl, ok := p.Inits[g].(*ast.CompositeLit)
	if !ok || p.Stored[g] {
		return nil, false
	}
	info := p.Infos[g.Pkg.Pkg]
	var out []string
	for _, e := range cl.Elts {
		tv, ok := info.Types[e]
		if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
			return nil, false
		}
		out = append(out, constant.StringVal(tv.Value))
	}
	return out, true
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// regexpSource is the text a package variable is compiled from.
func (p *Prog) regexpSource(g *ssa.Global) (string, bool) {
	call, ok := p.Inits[g].(*ast.CallExpr)
	if !ok || p.Stored[g] || len(call.Args) != 1 {
		return "", false
	}
	info := p.Infos[g.Pkg.Pkg]
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return "", false
	}
	f, ok := info.Uses[sel.Sel].(*types.Func)
	if !ok || f.FullName() != "regexp.MustCompile" {
		return "", false
	}
	tv := info.Types[call.Args[0]]
	if tv.Value == nil || tv.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(tv.Value), true
}
