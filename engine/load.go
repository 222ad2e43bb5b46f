package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the code under analysis in SSA form.
type Program struct {
	fset         *token.FileSet
	ssa          *ssa.Program
	pkgs         map[string]*ssa.Package
	modpath      string
	rtErrType    types.Type
	plainErrType types.Type
	mu           sync.Mutex
	initFail     map[string]string
	initVars     map[*ssa.Package]map[*ssa.Global]bool
	intr         sync.Map
	RepoDir      string
	types        map[string]types.Type
	mod          []*packages.Package
}

// ModPath is the module under analysis.
const ModPath = "github.com/squizzling/osmindex"

// HarnessPrefix is where harness packages are overlaid.
const HarnessPrefix = ModPath + "/internal/zzverif/"

// Overlay maps harness files into the repository.
func Overlay(repo, harnessDir string, names []string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for _, n := range names {
		fs, err := filepath.Glob(filepath.Join(harnessDir, n, "*.go"))
		if err != nil {
			return nil, err
		}
		if len(fs) == 0 {
			return nil, fmt.Errorf("no harness files in %s/%s", harnessDir, n)
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(repo, "internal", "zzverif", n, filepath.Base(f))] = b
		}
	}
	return ov, nil
}

// Load type-checks and builds the given packages and everything they import.
func Load(repo string, overlay map[string][]byte, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Fset:    token.NewFileSet(),
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{fset: cfg.Fset, ssa: prog, pkgs: map[string]*ssa.Package{}, modpath: ModPath, initFail: map[string]string{}, initVars: map[*ssa.Package]map[*ssa.Global]bool{}, RepoDir: repo, types: map[string]types.Type{}}
	packages.Visit(ps, nil, func(pk *packages.Package) {
		if strings.HasPrefix(pk.PkgPath, ModPath) {
			p.mod = append(p.mod, pk)
		}
	})
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	if rt := p.pkgs["runtime"]; rt != nil {
		p.rtErrType = rt.Pkg.Scope().Lookup("errorString").Type()
		if o := rt.Pkg.Scope().Lookup("plainError"); o != nil {
			p.plainErrType = o.Type()
		}
	} else {
		return nil, fmt.Errorf("package runtime not loaded")
	}
	return p, nil
}

// Func finds a package-level function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// HarnessFuncs lists the functions of a package whose name starts with prefix.
func (p *Program) HarnessFuncs(pkg, prefix string) []string {
	sp := p.pkgs[pkg]
	var out []string
	if sp == nil {
		return nil
	}
	for n, m := range sp.Members {
		if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.pkgs[pkg]
	if sp == nil {
		panic(unsup("package %s not loaded", pkg))
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsup("no %s.%s", pkg, name))
	}
	return o.Type()
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return obj.Pkg().Path()
	}
	return ""
}

func (p *Program) isModule(fn *ssa.Function) bool {
	path := fnPkgPath(fn)
	return (path == p.modpath || strings.HasPrefix(path, p.modpath+"/")) && !strings.HasPrefix(path, HarnessPrefix)
}

func (p *Program) ensureBuilt(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

func (p *Program) buildPkg(sp *ssa.Package) { sp.Build() }

var noInit = map[string]bool{
	HarnessPrefix + "v": true,
	"runtime":           true, "os": true, "syscall": true, "reflect": true, "time": true, "internal/reflectlite": true,
	"net": true, "os/signal": true, "os/exec": true, "os/user": true, "log": true, "testing": true, "flag": true,
	"golang.org/x/sys/unix": true, "sync/atomic": true, "unsafe": true, "internal/abi": true, "internal/cpu": true,
	"internal/runtime/atomic": true, "internal/poll": true, "internal/testlog": true, "internal/oserror": false,
	"text/template": true, "html/template": true, "runtime/pprof": true, "runtime/debug": true, "internal/godebug": true,
	"github.com/gdamore/tcell/terminfo": true, "internal/syscall/unix": true, "crypto": true, "runtime/trace": true,
	"internal/profilerecord": true, "internal/buildcfg": true, "internal/trace": true, "math/rand": true, "math/rand/v2": true,
	"github.com/jessevdk/go-flags": true, "internal/runtime/sys": true, "iter": true, "weak": true, "unique": true,
}

func (p *Program) wantInit(sp *ssa.Package) bool {
	path := sp.Pkg.Path()
	if noInit[path] {
		return false
	}
	for _, pre := range []string{"internal/runtime/", "runtime/", "golang.org/x/text/", "github.com/gdamore/tcell/terminfo/", "internal/race", "internal/asan", "internal/msan", "net/", "crypto/", "vendor/"} {
		if strings.HasPrefix(path, pre) {
			return false
		}
	}
	return true
}

func (p *Program) noteInitFail(path, msg string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if _, ok := p.initFail[path]; !ok {
		p.initFail[path] = msg
	}
}

// initSets tells if a package variable has an initial value that is not its zero value.
func (p *Program) initSets(v *ssa.Global) bool {
	p.buildPkg(v.Pkg)
	p.mu.Lock()
	defer p.mu.Unlock()
	set, ok := p.initVars[v.Pkg]
	if !ok {
		set = map[*ssa.Global]bool{}
		if f := v.Pkg.Func("init"); f != nil {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && g.Name() != "init$guard" {
							set[g] = true
						}
						continue
					}
					for _, op := range ins.Operands(nil) { // of parts of a variable
						switch ins.(type) {
						case *ssa.FieldAddr, *ssa.IndexAddr:
							if g, ok := (*op).(*ssa.Global); ok {
								set[g] = true
							}
						}
					}
				}
			}
		}
		p.initVars[v.Pkg] = set
	}
	return set[v]
}

// InitFailures lists packages whose initialisation could not be executed completely.
func (p *Program) InitFailures() map[string]string {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := map[string]string{}
	for k, v := range p.initFail {
		r[k] = v
	}
	return r
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

// methodNamed finds a method by name (exported methods).
func (p *Program) methodNamed(t types.Type, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return p.ssa.MethodValue(s)
		}
	}
	return nil
}
