package gosym

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded, SSA-lowered code base (shared by all machines).
type Program struct {
	Prog     *ssa.Program
	Module   string
	Pkgs     map[string]*ssa.Package
	mu       sync.Mutex
	funcs    sync.Map // *ssa.Function -> *cfunc
	methods  sync.Map
	gids     map[*ssa.Global]int
	nglob    int
	initOrd  []*ssa.Package // module packages in dependency order
	Sizes    types.Sizes
	ErrT     types.Type // *errors.errorString
	PathErrT types.Type
	SrcDir   string
}

// Load loads the module in dir (all packages without tests).
func Load(dir string, patterns ...string) (*Program, error) {
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, append(patterns, "errors", "io/fs", "strings", "internal/oserror")...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, gids: map[*ssa.Global]int{}, Sizes: types.SizesFor("gc", "amd64"), SrcDir: dir}
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Main {
			P.Module = p.Module.Path
		}
	}
	prog.Build()
	for _, sp := range prog.AllPackages() {
		P.Pkgs[sp.Pkg.Path()] = sp
	}
	seen := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		for _, im := range tp.Imports() {
			visit(im)
		}
		if P.inModule(tp.Path()) {
			P.initOrd = append(P.initOrd, prog.Package(tp))
		}
	}
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Main {
			visit(p.Types)
		}
	}
	ep := P.Pkgs["errors"]
	P.ErrT = types.NewPointer(ep.Type("errorString").Type())
	P.PathErrT = types.NewPointer(P.Pkgs["io/fs"].Type("PathError").Type())
	return P, nil
}

func (P *Program) inModule(path string) bool {
	return path == P.Module || strings.HasPrefix(path, P.Module+"/") || path == "main" || path == "command-line-arguments"
}

// Func finds a package-level function of the module by relative package path.
func (P *Program) Func(pkg, name string) *ssa.Function {
	full := P.Module
	if pkg != "" {
		full = P.Module + "/" + pkg
	}
	sp := P.Pkgs[full]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (P *Program) gid(g *ssa.Global) int {
	P.mu.Lock()
	defer P.mu.Unlock()
	if id, ok := P.gids[g]; ok {
		return id
	}
	P.nglob++
	P.gids[g] = P.nglob
	return P.nglob
}

// ModuleFiles lists the Go source files of the module (for reports).
func (P *Program) ModuleFiles() []string {
	r, _ := filepath.Glob(filepath.Join(P.SrcDir, "*", "*.go"))
	return r
}
