package main

// A small path-sensitive executor over SSA with callees inlined, used by the protocol checks:
// it enumerates the paths of a function, tracking only constants, nilness and tagged values, and a
// monitor state that hooks update at calls.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pxVal struct {
	kind string // "", "const", "nil", "nonnil", "tag"
	c    constant.Value
	tag  string
	// closures and functions
	fn    *ssa.Function
	bind  []pxVal
	cell  *pxCell // address of a cell
	tup   []pxVal
	iface types.Type // dynamic type, when boxed
}

type pxCell struct{ id int }

func (v pxVal) String() string {
	switch v.kind {
	case "const":
		return v.c.ExactString()
	case "nil", "nonnil":
		return v.kind
	case "tag":
		return "#" + v.tag
	case "fn":
		return "fn:" + v.fn.String()
	case "cell":
		return fmt.Sprintf("cell%d", v.cell.id)
	case "tup":
		var s []string
		for _, t := range v.tup {
			s = append(s, t.String())
		}
		return "(" + strings.Join(s, ",") + ")"
	}
	return "?"
}

type pxState struct {
	mon   map[string]string
	cells map[*pxCell]pxVal
}

func (s pxState) clone() pxState {
	n := pxState{mon: map[string]string{}, cells: map[*pxCell]pxVal{}}
	for k, v := range s.mon {
		n.mon[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func (s pxState) key() string {
	var k []string
	for a, b := range s.mon {
		k = append(k, a+"="+b)
	}
	sort.Strings(k)
	var c []string
	for a, b := range s.cells {
		if b.kind != "" {
			c = append(c, fmt.Sprintf("%d=%s", a.id, b))
		}
	}
	sort.Strings(c)
	return strings.Join(k, ";") + "|" + strings.Join(c, ";")
}

type pxOut struct {
	st  pxState
	ret []pxVal
	pos token.Pos
}

type px struct {
	r      *Repo
	steps  int
	over   bool
	nc     int
	cellOf map[string]*pxCell
	// hook sees every call first; handled=true replaces the call by the given outcomes
	hook func(x *px, fn *ssa.Function, call *ssa.CallCommon, pos token.Pos, callee pxVal, args []pxVal, st pxState) (outs []pxOut, handled bool)
	// load may give values to loads of fields ("tag:path")
	field func(base pxVal, t types.Type, name string) pxVal
	// store observes stores through fields
	store           func(x *px, fn *ssa.Function, pos token.Pos, base pxVal, t types.Type, name string, v pxVal, st *pxState)
	inline          func(f *ssa.Function) bool
	lenVal, sizeVal *pxVal
}

func (x *px) cell(key string) *pxCell {
	if x.cellOf == nil {
		x.cellOf = map[string]*pxCell{}
	}
	if c := x.cellOf[key]; c != nil {
		return c
	}
	x.nc++
	c := &pxCell{id: x.nc}
	x.cellOf[key] = c
	return c
}

type pxFrame struct {
	fn   *ssa.Function
	vals map[ssa.Value]pxVal
	id   string
}

func (x *px) get(f *pxFrame, v ssa.Value) pxVal {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			switch c.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return pxVal{}
			}
			return pxVal{kind: "nil"}
		}
		return pxVal{kind: "const", c: c.Value}
	case *ssa.Function:
		return pxVal{kind: "fn", fn: c}
	case *ssa.Global:
		return pxVal{kind: "tag", tag: "global " + c.RelString(nil)}
	}
	return f.vals[v]
}

// exec enumerates the outcomes of fn.
func (x *px) exec(fn *ssa.Function, args []pxVal, bind []pxVal, st pxState, id string, depth int) []pxOut {
	type item struct {
		b, from *ssa.BasicBlock
		st      pxState
		vals    map[ssa.Value]pxVal
	}
	if depth > 12 {
		return []pxOut{{st: st, ret: make([]pxVal, fn.Signature.Results().Len())}}
	}
	init := map[ssa.Value]pxVal{}
	for i, p := range fn.Params {
		if i < len(args) {
			init[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			init[p] = bind[i]
		}
	}
	var out []pxOut
	outSeen := map[string]bool{}
	seen := map[string]bool{}
	work := []item{{fn.Blocks[0], nil, st.clone(), init}}
	rep := repeatedConds(fn)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		x.steps++
		if x.steps > 400000 {
			x.over = true
			return out
		}
		vals := map[ssa.Value]pxVal{}
		for k, v := range it.vals {
			vals[k] = v
		}
		if it.from != nil {
			pi := 0
			for i, p := range it.b.Preds {
				if p == it.from {
					pi = i
				}
			}
			fr := &pxFrame{fn: fn, vals: it.vals}
			loop := inLoop(it.b)
			for _, in := range it.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := x.get(fr, ph.Edges[pi])
				back := it.b.Dominates(it.from)
				if loop && (back || x.sizeVal == nil) && v.kind == "const" && v.c.Kind() == constant.Int {
					v = pxVal{} // loop counters are not tracked
				}
				vals[ph] = v
			}
		}
		var vk []string
		for v, q := range vals {
			if q.kind != "" {
				if n, ok := v.(interface{ Name() string }); ok {
					vk = append(vk, n.Name()+"="+q.String())
				}
			}
		}
		sort.Strings(vk)
		k := fmt.Sprintf("%d|%s|%s", it.b.Index, it.st.key(), strings.Join(vk, ","))
		if seen[k] {
			continue
		}
		seen[k] = true
		type run struct {
			st   pxState
			vals map[ssa.Value]pxVal
		}
		runs := []run{{it.st.clone(), vals}}
		for _, in := range it.b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			var next []run
			for _, rn := range runs {
				fr := &pxFrame{fn: fn, vals: rn.vals, id: id}
				switch in := in.(type) {
				case *ssa.Call:
					outs := x.call(fr, in, rn.st, id, depth)
					for _, o := range outs {
						nv := rn.vals
						if len(outs) > 1 {
							nv = map[ssa.Value]pxVal{}
							for a, b := range rn.vals {
								nv[a] = b
							}
						}
						if len(o.ret) == 1 {
							nv[in] = o.ret[0]
						} else if len(o.ret) > 1 {
							nv[in] = pxVal{kind: "tup", tup: o.ret}
						} else {
							delete(nv, in)
						}
						next = append(next, run{o.st, nv})
					}
				case *ssa.Return:
					var rv []pxVal
					for _, r := range in.Results {
						rv = append(rv, x.get(fr, r))
					}
					kk := rn.st.key()
					for _, r := range rv {
						kk += "," + r.String()
					}
					if !outSeen[kk] {
						outSeen[kk] = true
						out = append(out, pxOut{rn.st, rv, in.Pos()})
					}
				case *ssa.Panic:
				case *ssa.Jump:
					work = append(work, item{it.b.Succs[0], it.b, rn.st, rn.vals})
				case *ssa.If:
					c := x.cond(fr, in.Cond)
					ck := rep[in.Cond]
					if c < 0 && ck != "" {
						switch rn.st.mon["?"+id+ck] {
						case "t":
							c = 1
						case "f":
							c = 0
						}
					}
					for i := 0; i < 2; i++ {
						if c == i { // c==1 keeps Succs[0]; c==0 keeps Succs[1]
							continue
						}
						st2, v2 := rn.st.clone(), map[ssa.Value]pxVal{}
						for a, b := range rn.vals {
							v2[a] = b
						}
						x.assume(fn, in.Cond, i == 0, v2)
						if c < 0 && ck != "" {
							st2.mon["?"+id+ck] = map[bool]string{true: "t", false: "f"}[i == 0]
						}
						work = append(work, item{it.b.Succs[i], it.b, st2, v2})
					}
				default:
					x.instr(fr, in, &rn.st, id)
					next = append(next, rn)
				}
			}
			runs = next
		}
	}
	for i := range out {
		for k := range out[i].st.mon {
			if strings.HasPrefix(k, "?"+id) {
				delete(out[i].st.mon, k)
			}
		}
	}
	return out
}

func (x *px) assume(fn *ssa.Function, c ssa.Value, truth bool, vals map[ssa.Value]pxVal) {
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			x.assume(fn, c.X, !truth, vals)
			return
		}
	case *ssa.BinOp:
		a, b := c.X, c.Y
		if isNilConst(a) {
			a, b = b, a
		}
		if isNilConst(b) && (c.Op == token.EQL || c.Op == token.NEQ) {
			v := vals[a]
			if (c.Op == token.EQL) == truth {
				if v.kind == "" || v.kind == "tag" {
					vals[a] = pxVal{kind: "nil"}
				}
			} else if v.kind == "" {
				vals[a] = pxVal{kind: "nonnil"}
			} else if v.kind == "tag" && !strings.HasSuffix(v.tag, "!") {
				v.tag += "!" // a tagged value known to be non-nil
				vals[a] = v
			}
		}
	}
	if _, ok := c.(*ssa.Const); !ok {
		vals[c] = pxVal{kind: "const", c: constant.MakeBool(truth)}
	}
}

func (x *px) cond(f *pxFrame, c ssa.Value) int {
	v := x.get(f, c)
	if v.kind == "const" && v.c.Kind() == constant.Bool {
		if constant.BoolVal(v.c) {
			return 1
		}
		return 0
	}
	return -1
}

func isNonNilTag(v pxVal) bool {
	return v.kind == "nonnil" || v.kind == "fn" || v.kind == "cell" || (v.kind == "tag" && (strings.HasSuffix(v.tag, "!") || strings.HasPrefix(v.tag, "global ")))
}

func (x *px) instr(f *pxFrame, in ssa.Instruction, st *pxState, id string) {
	switch in := in.(type) {
	case *ssa.Alloc:
		c := x.cell(id + "/" + in.Name())
		delete(st.cells, c)
		switch t := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsBoolean != 0 {
				st.cells[c] = pxVal{kind: "const", c: constant.MakeBool(false)}
			}
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature:
			st.cells[c] = pxVal{kind: "nil"}
		}
		f.vals[in] = pxVal{kind: "cell", cell: c}
	case *ssa.Store:
		a := x.get(f, in.Addr)
		v := x.get(f, in.Val)
		if a.kind == "cell" {
			if v.kind == "const" && v.c.Kind() == constant.Int && inLoop(in.Block()) {
				v = pxVal{}
			}
			st.cells[a.cell] = v
		}
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok && x.store != nil {
			x.store(x, f.fn, in.Pos(), x.get(f, fa.X), fa.X.Type(), faName(fa), v, st)
		}
	case *ssa.FieldAddr:
		b := x.get(f, in.X)
		if b.kind == "cell" {
			f.vals[in] = pxVal{kind: "cell", cell: x.cell(fmt.Sprintf("%d.%d", b.cell.id, in.Field))}
		} else if x.field != nil {
			f.vals[in] = x.field(b, in.X.Type(), faName(in))
		} else {
			delete(f.vals, in)
		}
	case *ssa.Field:
		delete(f.vals, in)
	case *ssa.UnOp:
		delete(f.vals, in)
		switch in.Op {
		case token.MUL:
			a := x.get(f, in.X)
			if a.kind == "cell" {
				f.vals[in] = st.cells[a.cell]
			} else if a.kind == "tag" {
				if strings.HasPrefix(a.tag, "global ") {
					if isErrorT(in.Type()) {
						f.vals[in] = pxVal{kind: "tag", tag: strings.TrimPrefix(a.tag, "global ") + "!"}
					}
				} else {
					f.vals[in] = pxVal{kind: "tag", tag: "*" + a.tag}
				}
			}
		case token.NOT:
			if c := x.cond(f, in.X); c >= 0 {
				f.vals[in] = pxVal{kind: "const", c: constant.MakeBool(c == 0)}
			}
		}
	case *ssa.BinOp:
		delete(f.vals, in)
		a, b := x.get(f, in.X), x.get(f, in.Y)
		if a.kind == "const" && b.kind == "const" {
			switch in.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if a.c.Kind() == b.c.Kind() {
					f.vals[in] = pxVal{kind: "const", c: constant.MakeBool(constant.Compare(a.c, in.Op, b.c))}
				}
			case token.ADD, token.SUB:
				if x.sizeVal != nil && a.c.Kind() == constant.Int && b.c.Kind() == constant.Int {
					f.vals[in] = pxVal{kind: "const", c: constant.BinaryOp(a.c, in.Op, b.c)}
				}
			}
			return
		}
		if in.Op == token.EQL || in.Op == token.NEQ {
			if b.kind != "nil" {
				a, b = b, a
			}
			if b.kind == "nil" {
				switch {
				case a.kind == "nil":
					f.vals[in] = pxVal{kind: "const", c: constant.MakeBool(in.Op == token.EQL)}
				case isNonNilTag(a):
					f.vals[in] = pxVal{kind: "const", c: constant.MakeBool(in.Op == token.NEQ)}
				}
			}
		}
	case *ssa.Extract:
		t := x.get(f, in.Tuple)
		if t.kind == "tup" && in.Index < len(t.tup) {
			f.vals[in] = t.tup[in.Index]
		} else {
			delete(f.vals, in)
		}
	case *ssa.MakeClosure:
		v := pxVal{kind: "fn", fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			v.bind = append(v.bind, x.get(f, b))
		}
		f.vals[in] = v
	case *ssa.MakeInterface:
		v := x.get(f, in.X)
		if v.kind == "" || v.kind == "nil" || v.kind == "const" {
			v = pxVal{kind: "nonnil"}
		}
		f.vals[in] = v
	case *ssa.ChangeInterface:
		f.vals[in] = x.get(f, in.X)
	case *ssa.ChangeType:
		f.vals[in] = x.get(f, in.X)
	case *ssa.Convert:
		f.vals[in] = x.get(f, in.X)
	default:
		if v, ok := in.(ssa.Value); ok {
			delete(f.vals, v)
		}
	}
}

func (x *px) call(f *pxFrame, in *ssa.Call, st pxState, id string, depth int) []pxOut {
	c := &in.Call
	var args []pxVal
	for _, a := range c.Args {
		args = append(args, x.get(f, a))
	}
	var callee pxVal
	if c.IsInvoke() {
		callee = x.get(f, c.Value)
	} else {
		callee = x.get(f, c.Value)
	}
	if x.hook != nil {
		if outs, ok := x.hook(x, f.fn, c, in.Pos(), callee, args, st.clone()); ok {
			return outs
		}
	}
	n := c.Signature().Results().Len()
	if callee.kind == "fn" {
		g := callee.fn
		if makesError(g) {
			return []pxOut{{st: st, ret: []pxVal{{kind: "tag", tag: "made!"}}}}
		}
		if isRepoFn(g) && g.Blocks != nil && (x.inline == nil || x.inline(g)) {
			return x.exec(g, args, callee.bind, st, id+">"+in.Name(), depth+1)
		}
	}
	// unknown call: cells passed by address are forgotten
	for _, a := range args {
		if a.kind == "cell" {
			for k, cc := range x.cellOf {
				if cc == a.cell || strings.HasPrefix(k, fmt.Sprintf("%d.", a.cell.id)) {
					delete(st.cells, cc)
				}
			}
		}
	}
	return []pxOut{{st: st, ret: make([]pxVal, n)}}
}
