package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/matrix-org/sliding-sync"

type Engine struct {
	repo   string
	prog   *ssa.Program
	pkgs   map[string]*packages.Package // by path
	ssaPk  map[string]*ssa.Package
	byName map[string]*packages.Package // by short name (repo packages win)
	ext    map[string]*types.Package    // all reachable packages by name
	specs  *SpecDB
	fns    map[string]*ssa.Function // "pkg.Type.Method" / "pkg.Func"
	constG map[*ssa.Global]bool     // globals only written in init
	constV map[string]*ssa.Const    // their value, where init stores one constant
}

func repoEnv() []string {
	goroot := "/opt/veriftools/go1.23.12"
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "PATH", "GOMODCACHE", "GOCACHE", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	cache := os.Getenv("GOVC_GOCACHE")
	if cache == "" {
		cache = "/root/.cache/go-build"
	}
	if _, err := os.Stat(goroot); err == nil {
		env = append(env, "GOROOT="+goroot, "PATH="+goroot+"/bin:"+os.Getenv("PATH"))
	} else {
		env = append(env, "PATH="+os.Getenv("PATH"))
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "GONOSUMDB=*", "GOSUMDB=off")
	return env
}

func load(repo string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir:  repo,
		Env:  repoEnv(),
	}
	initial, err := packages.Load(cfg, ".", "./internal/...", "./pubsub/...", "./sqlutil/...", "./state/...", "./sync2/...", "./sync3/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog := ssa.NewProgram(initial[0].Fset, ssa.InstantiateGenerics)
	spkgs := make([]*ssa.Package, len(initial))
	made := map[*types.Package]bool{}
	for i, p := range initial {
		made[p.Types] = true
		spkgs[i] = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
	}
	var mk func(tp *types.Package)
	seenTP := map[*types.Package]bool{}
	mk = func(tp *types.Package) {
		if seenTP[tp] {
			return
		}
		seenTP[tp] = true
		for _, i := range tp.Imports() {
			mk(i)
		}
		if !made[tp] {
			made[tp] = true
			prog.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, p := range initial {
		mk(p.Types)
	}
	eng := &Engine{repo: repo, prog: prog, pkgs: map[string]*packages.Package{}, ssaPk: map[string]*ssa.Package{}, byName: map[string]*packages.Package{}, ext: map[string]*types.Package{}, fns: map[string]*ssa.Function{}, constG: map[*ssa.Global]bool{}}
	for i, p := range initial {
		eng.pkgs[p.PkgPath] = p
		eng.byName[p.Name] = p
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no ssa for %s (illtyped=%v types=%v)", p.PkgPath, p.IllTyped, p.Types != nil)
		}
		spkgs[i].Build()
		eng.ssaPk[p.PkgPath] = spkgs[i]
	}
	var visit func(tp *types.Package)
	seen := map[*types.Package]bool{}
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		if _, ok := eng.ext[tp.Name()]; !ok || strings.HasPrefix(tp.Path(), modPath) {
			eng.ext[tp.Name()] = tp
		}
		for _, i := range tp.Imports() {
			visit(i)
		}
	}
	for _, p := range initial {
		visit(p.Types)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil && fn.Origin() == nil {
			continue
		}
		if !inRepoFn(fn) {
			continue
		}
		eng.fns[fnKey(fn)] = fn
	}
	eng.findConstGlobals()
	return eng, nil
}

func inRepoFn(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	for f := fn; p == nil && f.Parent() != nil; f = f.Parent() {
		p = f.Parent().Pkg
	}
	return p != nil && p.Pkg != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

func pkgShort(p *types.Package) string {
	if p == nil {
		return ""
	}
	if strings.HasPrefix(p.Path(), modPath) {
		return p.Name()
	}
	return p.Path()
}

// fnKey gives a stable readable key: pkg.Func, pkg.Type.Method, plus $n for closures.
func fnKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	}
	name := fn.Name()
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if pkg == nil {
				pkg = n.Obj().Pkg()
			}
			return pkgShort(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + name
		}
	}
	return pkgShort(pkg) + "." + name
}

func (e *Engine) findConstGlobals() {
	e.constV = map[string]*ssa.Const{}
	inits := map[*ssa.Global][]ssa.Value{}
	written := map[*ssa.Global]bool{}
	taken := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(e.prog) {
		if !inRepoFn(fn) {
			continue
		}
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && !isInit {
						written[g] = true
					} else if ok {
						inits[g] = append(inits[g], st.Val)
					}
					if g, ok := st.Val.(*ssa.Global); ok {
						taken[g] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						if g, ok := a.(*ssa.Global); ok {
							taken[g] = true
						}
					}
				}
			}
		}
	}
	for _, p := range e.ssaPk {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !written[g] && !taken[g] {
				e.constG[g] = true
				if vs := inits[g]; len(vs) == 1 {
					if c, ok := vs[0].(*ssa.Const); ok {
						e.constV[pkgShort(g.Pkg.Pkg)+"."+g.Name()] = c
					}
				}
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
