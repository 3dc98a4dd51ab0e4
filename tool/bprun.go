package main

// The layout analysis: loading, package initialisation, drivers.

import (
	"embed"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed layout/*.go.txt
var layoutFS embed.FS

// LoadLayout loads the repository together with the drivers of the layout analysis and the library packages that are
// analysed by their source.
func LoadLayout() (*Repo, error) {
	return loadWith(layoutFS, "layout", "slices", "bytes", "encoding/binary", "math/bits", amp4Path)
}

// followed tells whether a library function is analysed by its source.
func followed(fn *ssa.Function, path string) bool {
	name := strings.SplitN(fn.Name(), "[", 2)[0]
	for f := fn; f.Parent() != nil; f = f.Parent() {
		name = strings.SplitN(f.Parent().Name(), "[", 2)[0]
	}
	switch path {
	case "slices":
		return !strings.HasPrefix(name, "Sort") && !strings.HasPrefix(name, "overlaps")
	case "bytes":
		return name == "HasPrefix" || name == "HasSuffix" || name == "Clone"
	case "encoding/binary":
		r := fn.Signature.Recv()
		return r != nil && (strings.HasSuffix(r.Type().String(), "binary.bigEndian") || strings.HasSuffix(r.Type().String(), "binary.littleEndian"))
	case amp4Path:
		return name == "GetType" || name == "StrToBoxType" || strings.HasPrefix(name, "BoxType") ||
			name == "GetBaseMediaDecodeTime" || name == "GetSampleOffset" || name == "GetVersion" || name == "GetFlags" || name == "IsSupportedType"
	case "math/bits":
		return !strings.HasPrefix(name, "Len") && !strings.HasPrefix(name, "Mul") && !strings.HasPrefix(name, "Div")
	}
	return false
}

var bpLimit = 8_000_000

func newBp(r *Repo) *bp {
	return &bp{
		r: r, globals: map[*ssa.Global]int{}, limit: bpLimit, asserts: map[string]int{}, fns: map[string]bool{},
		exts: map[string]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, track: true,
	}
}

func newSst() *sst {
	return &sst{
		objs: map[int]SV{}, lazy: map[string]int{}, rng: map[*T]srng{}, ne: map[*T][]int64{}, sub: map[*T]*T{},
	}
}

// layInit evaluates package initialisation.
func layInit(r *Repo) (*bp, *sst) {
	e := newBp(r)
	e.inInit = true
	st := newSst()
	var root *ssa.Function
	for _, p := range r.SPkgs {
		if p == nil || !IsRepoPath(p.Pkg.Path()) {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				e.globals[g] = e.alloc(st, e.zero(g.Type().(*types.Pointer).Elem()))
			}
		}
		if p.Pkg.Path() == driverPkg {
			root = p.Func("init")
		}
	}
	outs := e.call(root, nil, nil, st)
	if len(outs) != 1 {
		e.fail("package initialisation has %d outcomes", len(outs))
	}
	return e, outs[0].st
}

type layRun struct {
	name  string
	e     *bp
	dur   time.Duration
	fail  string
	outs  int
	viols []bpViol
}

func layDriver(r *Repo, base *bp, st *sst, f *ssa.Function) (lr *layRun) {
	e := newBp(r)
	e.globals = base.globals
	e.nobj = base.nobj
	e.initObj = base.nobj
	e.tables = strings.HasPrefix(f.Name(), "T_")
	e.strict = len(f.Name()) > 1 && f.Name()[1] == '_' && strings.ContainsRune("PRMS", rune(f.Name()[0]))
	e.marks = strings.HasPrefix(f.Name(), "H_annexb")
	e.exact = strings.HasPrefix(f.Name(), "H_")
	s := st.clone()
	s.conds = nil
	lr = &layRun{name: f.Name(), e: e}
	start := time.Now()
	defer func() {
		lr.dur = time.Since(start)
		lr.viols = e.viols
		if x := recover(); x != nil {
			if b, ok := x.(bpFail); ok {
				var p []string
				for _, f := range e.stack {
					p = append(p, FName(f))
				}
				lr.fail = b.msg + " in " + strings.Join(p, " > ")
				return
			}
			panic(x)
		}
	}()
	outs := e.call(f, nil, nil, s)
	lr.outs = len(outs)
	return lr
}

func init() {
	checks["lay"] = func(_ *Repo, _ string) *Result {
		r, err := LoadLayout()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		base, st := layInit(r)
		for _, f := range r.driverFns(os.Args[2]) {
			if n, err := strconv.Atoi(os.Getenv("VT_BPLIMIT")); err == nil {
				bpLimit = n
			}
			if os.Getenv("VT_BPPROF") != "" {
				bpProf = map[string]int{}
			}
			lr := layDriver(r, base, st, f)
			for k, n := range bpProf {
				if n > lr.e.steps/100 {
					fmt.Println("   prof", n, k)
				}
			}
			fmt.Printf("== %s: %d outcomes, %d steps, %.1fs %s\n", lr.name, lr.outs, lr.e.steps, lr.dur.Seconds(), lr.fail)
			var as []string
			for a, n := range lr.e.asserts {
				as = append(as, fmt.Sprintf("%s×%d", a, n))
			}
			sort.Strings(as)
			fmt.Println("   asserted:", strings.Join(as, ", "))
			var xs []string
			for a := range lr.e.exts {
				xs = append(xs, a)
			}
			sort.Strings(xs)
			if len(xs) > 0 {
				fmt.Println("   unknown calls:", strings.Join(xs, ", "))
			}
			for i, v := range lr.viols {
				if i > 12 {
					fmt.Println("   ...", len(lr.viols))
					break
				}
				fmt.Printf("   VIOL %s: %s\n        [%s]\n", r.Pos(v.pos), v.msg, v.path)
			}
		}
		return nil
	}
}
