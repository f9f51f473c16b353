package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/madkins23/go-slog"

// Modules that the sandbox cannot fetch are replaced, for type-checking only, by the
// declaration-only stand-ins under /verif/stubs.
var stubModules = map[string]string{
	"go.mrchanchal.com/zaphandler":   "zaphandler",
	"snqk.dev/slog/meld":             "meld",
	"go.seankhliao.com/svcrunner/v3": "svcrunner",
}

// Program is the loaded, type-checked and SSA-built view of /repo.
type Program struct {
	Repo    string
	Fset    *token.FileSet
	Pkgs    []*packages.Package          // repository packages, sorted by path
	ByPath  map[string]*packages.Package // every loaded package
	SSA     *ssa.Program
	SSAPkgs map[*types.Package]*ssa.Package
	Funcs   []*ssa.Function // all source functions of repository packages, incl. methods and closures
	LoadS   float64
	declOf  map[*ssa.Function]string
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOPATH", "GOMODCACHE", "HOME", "GO111MODULE", "GOWORK", "CGO_ENABLED":
		default:
			env = append(env, kv)
		}
	}
	env = append(env,
		"PATH=/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"),
		"HOME=/root", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "CGO_ENABLED=0", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
	return env
}

// Load type-checks every package of the repository (tests excluded) from its current source.
func Load(repo, verif string) (*Program, error) {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vstat-mod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	var b strings.Builder
	b.Write(mod)
	b.WriteString("\n")
	for m, dir := range stubModules {
		fmt.Fprintf(&b, "replace %s => %s\n", m, filepath.Join(verif, "stubs", dir))
	}
	modfile := filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(modfile, []byte(b.String()), 0o644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        goEnv(),
		BuildFlags: []string{"-modfile=" + modfile},
		Fset:       fset,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	p := &Program{Repo: repo, Fset: fset, ByPath: map[string]*packages.Package{}, SSAPkgs: map[*types.Package]*ssa.Package{}, declOf: map[*ssa.Function]string{}}
	var errs []string
	packages.Visit(pkgs, nil, func(pkg *packages.Package) {
		p.ByPath[pkg.PkgPath] = pkg
		if pkg.PkgPath == modPath || strings.HasPrefix(pkg.PkgPath, modPath+"/") {
			for _, e := range pkg.Errors {
				if strings.Contains(e.Msg, "build constraints exclude all Go files") || strings.Contains(e.Msg, "no non-test Go files") {
					continue
				}
				errs = append(errs, e.Error())
			}
			if len(pkg.Syntax) > 0 {
				p.Pkgs = append(p.Pkgs, pkg)
			}
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	seen := map[*ssa.Function]bool{}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if p.IsRepoFunc(fn) && !seen[fn] && fn.Blocks != nil {
			seen[fn] = true
			p.Funcs = append(p.Funcs, fn)
		}
	}
	// Functions not reached by AllFunctions (unused unexported ones) are added from the member lists.
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || fn.Blocks == nil {
			return
		}
		if !seen[fn] {
			seen[fn] = true
			p.Funcs = append(p.Funcs, fn)
		}
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, pkg := range p.Pkgs {
		sp := prog.Package(pkg.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkg.PkgPath)
		}
		p.SSAPkgs[pkg.Types] = sp
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil && p.IsRepoFunc(fn) {
							add(fn)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.FuncName(p.Funcs[i]) < p.FuncName(p.Funcs[j]) })
	p.LoadS = time.Since(start).Seconds()
	return p, nil
}

// IsRepoFunc reports whether fn was written in the repository (closures and generic instances included).
func (p *Program) IsRepoFunc(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil && fn.Parent() != nil {
		return p.IsRepoFunc(fn.Parent())
	}
	if pk == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return isRepoPath(o.Pkg().Path())
		}
		return false
	}
	return isRepoPath(pk.Pkg.Path())
}

func isRepoPath(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

// FuncName is a stable, position-free name of a function.
func (p *Program) FuncName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// Pkg returns the repository package with the given path relative to the module ("" for the root).
func (p *Program) Pkg(rel string) *packages.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	pkg := p.ByPath[path]
	if pkg == nil || len(pkg.Syntax) == 0 {
		return nil
	}
	return pkg
}

// InPkg lists the source functions (with closures) of the given repository packages (relative paths;
// a trailing "/..." matches the subtree).
func (p *Program) InPkg(rels ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		path := p.FuncPkgPath(fn)
		for _, rel := range rels {
			full := modPath + "/" + rel
			if path == full || (strings.HasSuffix(rel, "/...") && (path == strings.TrimSuffix(full, "/...") || strings.HasPrefix(path, strings.TrimSuffix(full, "...")))) {
				out = append(out, fn)
				break
			}
		}
	}
	return out
}

func (p *Program) FuncPkgPath(fn *ssa.Function) string {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg.Pkg.Path()
		}
		if fn.Origin() != nil && fn.Origin().Pkg != nil {
			return fn.Origin().Pkg.Pkg.Path()
		}
		if fn.Parent() == nil {
			if o := fn.Object(); o != nil && o.Pkg() != nil {
				return o.Pkg().Path()
			}
		}
		fn = fn.Parent()
	}
	return ""
}

// FileOf returns the syntax file of a position.
func (p *Program) FileOf(pkg *packages.Package, pos token.Pos) *ast.File {
	for _, f := range pkg.Syntax {
		if f.FileStart <= pos && pos < f.FileEnd {
			return f
		}
	}
	return nil
}

// PkgOf is the repository-relative path of the package a function belongs to.
func (p *Program) PkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return ""
	}
	return strings.TrimPrefix(fn.Pkg.Pkg.Path(), "github.com/madkins23/go-slog/")
}

// relSSA is the SSA form of a repository package.
func (p *Program) relSSA(rel string) *ssa.Package {
	if pkg := p.Pkg(rel); pkg != nil {
		return p.SSAPkgs[pkg.Types]
	}
	return nil
}
