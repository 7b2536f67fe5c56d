package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/ulule/loukoum/v3"
const specPath = repoModule + "/zzverifspec"

// World is the type-checked program under analysis.
type World struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by path; module packages only
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	Spec  *ssa.Package
	Files int
	Funcs []*ssa.Function // source functions of the repo (not the specification)

	compared     map[string]comparison
	globals      []*Obj
	globalIDs    map[*ssa.Global]int
	initializing bool
	initFailed   []string
}

// Load type-checks every package of the repository as it is on disk, plus the
// specification package, which is laid over the module (nothing is written to
// the repository).
func Load(repo, specDir string) (*World, error) {
	overlay := map[string][]byte{}
	specFiles, err := filepath.Glob(filepath.Join(specDir, "*.go"))
	if err != nil {
		return nil, err
	}
	if len(specFiles) == 0 {
		return nil, fmt.Errorf("no specification in %s", specDir)
	}
	for _, f := range specFiles {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(repo, "zzverifspec", filepath.Base(f))] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedTypesSizes,
		Dir:     repo,
		Overlay: overlay,
		Tests:   false,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...", specPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("the program does not type-check:\n  %s", strings.Join(errs, "\n  "))
	}
	prog, ssapkgs := createProgram(pkgs)
	w := &World{Repo: repo, Fset: prog.Fset, Pkgs: map[string]*packages.Package{}, Prog: prog, SSA: map[string]*ssa.Package{}}
	for i, p := range pkgs {
		w.Pkgs[p.PkgPath] = p
		w.SSA[p.PkgPath] = ssapkgs[i]
		if p.PkgPath == specPath {
			w.Spec = ssapkgs[i]
		} else {
			w.Files += len(p.GoFiles)
		}
	}
	// Build every package of the module, and the generic helpers of the
	// standard library that are interpreted rather than modelled.
	prog.Build()
	if w.Spec == nil {
		return nil, fmt.Errorf("the specification package was not loaded")
	}
	for path, p := range w.SSA {
		if p == nil || path == specPath {
			continue
		}
		for fn := range ssautil.AllFunctions(prog) {
			if fn.Pkg == p && fn.Synthetic == "" && fn.Syntax() != nil {
				w.Funcs = append(w.Funcs, fn)
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.Funcs[i].String() < w.Funcs[j].String() })
	w.initGlobals()
	return w, nil
}

// interpreted are the packages of the standard library whose functions are
// interpreted where no model of them is given.
var interpreted = map[string]bool{"slices": true, "maps": true, "cmp": true, "strings": true}

// createProgram is ssautil.Packages with the bodies of the interpreted packages.
func createProgram(pkgs []*packages.Package) (*ssa.Program, []*ssa.Package) {
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics|ssa.BuildSerially)
	initial := map[*packages.Package]bool{}
	for _, p := range pkgs {
		initial[p] = true
	}
	created := map[*packages.Package]*ssa.Package{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types == nil || p.IllTyped {
			return
		}
		if initial[p] || interpreted[p.PkgPath] {
			created[p] = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		} else {
			created[p] = prog.CreatePackage(p.Types, nil, nil, true)
		}
	})
	out := make([]*ssa.Package, len(pkgs))
	for i, p := range pkgs {
		out[i] = created[p]
	}
	return prog, out
}

// isInterpreted reports whether fn has a body that may be interpreted.
func isInterpreted(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && interpreted[p.Path()] && len(fn.Blocks) > 0
}

// inModule reports whether fn's code belongs to the repository or to the
// specification, and is therefore interpreted.
func inModule(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && (p.Path() == repoModule || strings.HasPrefix(p.Path(), repoModule+"/"))
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	// Synthetic wrappers: use the method's object.
	if fn.Signature != nil && fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil && n.Obj() != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	n, _ := t.(*types.Named)
	return n
}
