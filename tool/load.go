package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bluenviron/mediacommon/v2"

// Repo is the loaded program.
type Repo struct {
	invs  map[string]*ssa.Function // type invariants, by the type of the pointer
	cuts  map[string]*ssa.Function // replacements of functions, by name
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	SPkgs []*ssa.Package
	Funcs []*ssa.Function // every source function, including anonymous ones, sorted by position
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// Load loads, type-checks and builds the SSA form of the current tree.
func Load() (*Repo, error) {
	dir := repoDir()
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Repo{Dir: dir, Fset: prog.Fset, Pkgs: pkgs, Prog: prog, SPkgs: spkgs}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		r.Funcs = append(r.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("package without SSA form")
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						mf := prog.MethodValue(ms.At(i))
						if mf != nil && mf.Synthetic == "" && mf.Pkg == sp {
							add(mf)
						}
					}
				}
			}
		}
	}
	sort.Slice(r.Funcs, func(i, j int) bool {
		pi, pj := r.Fset.Position(r.Funcs[i].Pos()), r.Fset.Position(r.Funcs[j].Pos())
		if pi.Filename != pj.Filename {
			return pi.Filename < pj.Filename
		}
		if pi.Offset != pj.Offset {
			return pi.Offset < pj.Offset
		}
		return r.Funcs[i].String() < r.Funcs[j].String()
	})
	return r, nil
}

// Pos renders a position relative to the repository.
func (r *Repo) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := r.Fset.Position(p)
	rel, err := filepath.Rel(r.Dir, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// IsRepo tells whether a package belongs to the repository.
func IsRepoPath(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func isRepoFn(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && IsRepoPath(f.Pkg.Pkg.Path())
}

// FName is a short stable name of a function.
func FName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/pkg/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// Func finds a function by short package path and name ("codecs/h264", "(*SPS).Unmarshal" or "Foo").
func (r *Repo) Func(short string) *ssa.Function {
	for _, f := range r.Funcs {
		if FName(f) == short {
			return f
		}
	}
	return nil
}

// SPkg finds a package by short path.
func (r *Repo) SPkg(short string) *ssa.Package {
	for _, p := range r.SPkgs {
		s := strings.TrimPrefix(p.Pkg.Path(), modPath+"/")
		if s == short || s == "pkg/"+short {
			return p
		}
	}
	return nil
}

// PkgOf returns the syntax package.
func (r *Repo) PkgOf(path string) *packages.Package {
	for _, p := range r.Pkgs {
		if p.PkgPath == path {
			return p
		}
	}
	return nil
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := strings.TrimPrefix(p.Path(), modPath+"/")
	return strings.TrimPrefix(s, "pkg/")
}

// exportedEntry tells whether f can be called by a user of the library.
func exportedEntry(f *ssa.Function) bool {
	if f.Parent() != nil || f.Synthetic != "" {
		return false
	}
	o := f.Object()
	if o == nil || !o.Exported() {
		return false
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
			return false
		}
	}
	return true
}

var _ = ast.Inspect
