package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = checkC13
	checks["C14"] = checkC14
	checks["C15"] = checkC15
}

// outParams are the parameters documented as output buffers: their bytes are meant to be written.
// function -> parameter indexes (receiver counted).
func isOutParam(f *ssa.Function, i int) bool {
	name := f.Name()
	p := f.Params[i]
	sl, ok := p.Type().Underlying().(*types.Slice)
	isBytes := ok && types.Identical(sl.Elem(), types.Typ[types.Byte])
	if !isBytes {
		return false
	}
	// encoders into a caller buffer, bit writers and io.Reader implementations
	if strings.HasPrefix(name, "Marshal") || strings.HasPrefix(name, "WriteBits") || strings.HasPrefix(name, "WriteFlag") {
		return true
	}
	if name == "Read" && f.Signature.Recv() != nil && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 2 {
		return true
	}
	return false
}

func isEncoderName(n string) bool {
	return strings.HasPrefix(n, "Marshal") || strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Fill") || strings.HasPrefix(n, "NewSample")
}

func containsBytes(t types.Type, depth int) bool {
	if depth > 3 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Byte
		}
		return containsBytes(u.Elem(), depth+1)
	}
	return false
}

type entryParam struct {
	i   int
	tag string
}

// runEffects analyses one entry with input objects for the selected parameters.
func runEffects(r *Repo, f *ssa.Function, sel func(i int) bool) *pta {
	p := newPTA(r)
	for i, prm := range f.Params {
		tag := "param " + prm.Name()
		if sel(i) {
			tag = "input " + prm.Name()
		} else {
			tag = "other " + prm.Name()
		}
		for _, lf := range leaves(prm.Type()) {
			p.fillLeaf(p.node(prm, lf), [3]any{f, i, lf}, leafType(prm.Type(), lf), tag+lf, 0)
		}
	}
	p.reach(f)
	p.solve()
	return p
}

func describeWrite(r *Repo, w writeEv) string {
	return fmt.Sprintf("%s in %s", w.what, FName(w.fn))
}

func checkC13(r *Repo, tier string) *Result {
	res := &Result{Rule: "Points-to and effect analysis: for every exported function taking byte slices (encoders and documented output buffers apart), no store, copy, append or library call reachable from it may write memory reachable from those slices."}
	reach := map[*ssa.Function]bool{}
	stores := 0
	for _, f := range r.Funcs {
		if !exportedEntry(f) || isEncoderName(f.Name()) {
			continue
		}
		var ins []int
		for i, prm := range f.Params {
			if i == 0 && f.Signature.Recv() != nil {
				// byte-slice receivers passed by value are inputs as well
				if _, ok := prm.Type().Underlying().(*types.Slice); !ok {
					continue
				}
			}
			if containsBytes(prm.Type(), 0) && !isOutParam(f, i) {
				ins = append(ins, i)
			}
		}
		if len(ins) == 0 {
			continue
		}
		isIn := map[int]bool{}
		for _, i := range ins {
			isIn[i] = true
		}
		p := runEffects(r, f, func(i int) bool { return isIn[i] })
		res.count("entry points", 1)
		res.Obl += len(p.writes)
		stores += len(p.writes)
		for g := range p.reached {
			reach[g] = true
		}
		if len(res.Samples) < 12 {
			res.Samples = append(res.Samples, fmt.Sprintf("%s: %d functions reached, %d possible writes, none may touch the input", FName(f), len(p.reached), len(p.writes)))
		}
		for _, w := range p.writes {
			if w.loc.o.kind == "input" && strings.HasPrefix(w.loc.o.tag, "input ") {
				res.add(fmt.Sprintf("C13:%s:%s:%s", FName(f), FName(w.fn), w.what), r.Pos(w.instr.Pos()),
					"%s may modify the bytes passed to %s (%s): %s", FName(w.fn), FName(f), w.loc.o.tag, w.what)
			}
		}
	}
	res.count("functions", len(reach))
	res.count("possible writes", stores)
	res.min("entry points", 50)
	res.min("functions", 75)
	res.Assume = []string{"library functions outside the repository write only through the arguments listed in the tool (copy-like, Read, PutUint, sort); others are pure with respect to their arguments"}
	return res
}

// writable receiver state: objects whose purpose is to change when written to.
func c14Allowed(f *ssa.Function, w writeEv) bool {
	tag := w.loc.o.tag
	// unexported bookkeeping fields of numeric or boolean type, recomputed by every call (pmp4.Sample offsets)
	if n, ok := w.loc.o.typ.(*types.Named); ok && n.Obj().Name() == "Sample" && scratchField(n, lastField(w.loc.path)) {
		return true
	}
	// streaming writers and buffers update their own receiver, and the destination writer
	if f.Signature.Recv() != nil {
		rt := f.Params[0].Type()
		if p, ok := rt.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				switch n.Obj().Name() {
				case "Writer", "Buffer":
					// own fields, and unexported bookkeeping fields of the tracks registered with the writer;
					// not what the caller passed in
					if last := lastField(w.loc.path); last != "" && !token.IsExported(last) {
						if n, ok := w.loc.o.typ.(*types.Named); ok && n.Obj().Name() == "Track" {
							return true
						}
					}
					return strings.HasPrefix(tag, "input "+f.Params[0].Name()) && !strings.Contains(tag, ".Tracks")
				}
			}
		}
	}
	return false
}

func scratchField(n *types.Named, name string) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok || name == "" || token.IsExported(name) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == name {
			b, ok := f.Type().Underlying().(*types.Basic)
			return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
		}
	}
	return false
}

func lastField(path string) string {
	if i := strings.LastIndex(path, "."); i >= 0 {
		return strings.TrimSuffix(path[i+1:], "[]")
	}
	return ""
}

func checkC14(r *Repo, tier string) *Result {
	res := &Result{Rule: "Points-to and effect analysis: for every exported encoding function (Marshal*, Write*, Fill*), no store, copy, append or library call reachable from it may write memory reachable from the receiver or the arguments, output buffers and a streaming writer's own fields apart."}
	reach := map[*ssa.Function]bool{}
	for _, f := range r.Funcs {
		if !exportedEntry(f) || !isEncoderName(f.Name()) {
			continue
		}
		if f.Signature.Recv() == nil && len(f.Params) == 0 {
			continue
		}
		p := runEffects(r, f, func(i int) bool {
			if isOutParam(f, i) {
				return false
			}
			// bit cursor of the bit writers, destination writers
			if n := f.Params[i].Name(); f.Pkg.Pkg.Name() == "bits" && n == "pos" {
				return false
			}
			if strings.HasPrefix(f.Name(), "Fill") && i == 0 {
				return false // fills its receiver by definition
			}
			if _, ok := f.Params[i].Type().Underlying().(*types.Interface); ok {
				t := f.Params[i].Type().String()
				if strings.Contains(t, "io.") {
					return false
				}
			}
			return true
		})
		res.count("entry points", 1)
		res.Obl += len(p.writes)
		for g := range p.reached {
			reach[g] = true
		}
		if len(res.Samples) < 12 {
			res.Samples = append(res.Samples, fmt.Sprintf("%s: %d functions reached, %d possible writes", FName(f), len(p.reached), len(p.writes)))
		}
		for _, w := range p.writes {
			if w.loc.o.kind == "input" && strings.HasPrefix(w.loc.o.tag, "input ") && !c14Allowed(f, w) {
				res.add(fmt.Sprintf("C14:%s:%s:%s", FName(f), FName(w.fn), w.loc.o.tag+w.loc.path), r.Pos(w.instr.Pos()),
					"%s may modify what %s is encoding (%s%s): %s", FName(w.fn), FName(f), w.loc.o.tag, w.loc.path, w.what)
			}
		}
	}
	res.count("functions", len(reach))
	res.min("entry points", 40)
	res.Assume = []string{"same library effect table as C13; destination io.Writer implementations are not analysed"}
	return res
}

func checkC15(r *Repo, tier string) *Result {
	res := &Result{Rule: "Effect analysis over the whole repository: outside package initialisation, no store, map update, copy, append or library call may write memory of a package-level variable or memory reachable from one."}
	p := newPTA(r)
	nglob := 0
	for _, f := range r.Funcs {
		if f.Parent() == nil {
			p.reach(f)
		}
	}
	for _, sp := range r.SPkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				if strings.HasPrefix(g.Name(), "init$") {
					continue
				}
				nglob++
				p.node(g, "")
			}
		}
	}
	p.solve()
	// objects reachable from globals
	shared := map[*pobj]string{}
	var mark func(o *pobj, via string)
	byObj := map[*pobj][]*pnode{}
	for k, n := range p.nodes {
		if o, ok := k.v.(*pobj); ok {
			byObj[o] = append(byObj[o], n)
		}
	}
	mark = func(o *pobj, via string) {
		if _, ok := shared[o]; ok || o.kind == "func" || o.kind == "input" {
			return
		}
		shared[o] = via
		for _, n := range byObj[o] {
			for l := range n.pts {
				mark(l.o, via)
			}
		}
	}
	var gl []*pobj
	for _, o := range p.objs {
		if o.kind == "global" && o.glob != nil && o.glob.Pkg != nil && IsRepoPath(o.glob.Pkg.Pkg.Path()) {
			gl = append(gl, o)
		}
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].label < gl[j].label })
	for _, o := range gl {
		mark(o, o.label)
	}
	inInit := initOnly(r)
	for _, w := range p.writes {
		res.Obl++
		via, ok := shared[w.loc.o]
		if !ok || inInit[w.fn] {
			continue
		}
		if w.loc.o.kind == "global" && w.loc.o.glob == nil {
			continue
		}
		res.add(fmt.Sprintf("C15:%s:%s", FName(w.fn), via), r.Pos(w.instr.Pos()), "%s may modify package-level state %s: %s",
			FName(w.fn), strings.ReplaceAll(via, modPath+"/", ""), w.what)
	}
	res.count("package-level variables", nglob)
	res.count("functions", len(p.reached))
	res.min("package-level variables", 15)
	res.min("functions", 280)
	for _, o := range gl {
		if len(res.Samples) < 12 {
			res.Samples = append(res.Samples, "written only during initialisation: "+strings.ReplaceAll(o.label, modPath+"/", ""))
		}
	}
	res.Assume = []string{"dependencies are not analysed for package-level state of their own"}
	return res
}

// initOnly returns the functions that run only during package initialisation.
func initOnly(r *Repo) map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range r.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().StaticCallee()
					if callee != nil {
						callers[callee] = append(callers[callee], f)
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && g != callee {
						if _, isMC := in.(*ssa.MakeClosure); !isMC {
							escapes[g] = true
						}
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	isInit := func(f *ssa.Function) bool {
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	for _, f := range r.Funcs {
		if f.Parent() == nil && isInit(f) {
			out[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range r.Funcs {
			if out[f] || exportedEntry(f) || escapes[f] || len(callers[f]) == 0 {
				continue
			}
			all := true
			for _, c := range callers[f] {
				if !out[c] {
					all = false
				}
			}
			if all {
				out[f] = true
				changed = true
			}
		}
	}
	return out
}
