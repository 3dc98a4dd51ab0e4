package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

type boxWalk struct{}

func (m *Mach) boxAssert(st *State, in *ssa.TypeAssert, v VIface) bool { return false }
func (m *Mach) mp4Call(x *fexec, st *State, in ssa.CallInstruction, f *ssa.Function, name string, args []Val) ([]callOut, bool) {
	return nil, false
}

// Allocations: a fixed number of elements, or a multiple of the length of a slice that exists.
const (
	memLimit  = 1 << 24
	memFactor = 16
)

var memSizes = types.SizesFor("gc", "amd64")

// bounder tells whether a length, or each part of it, is small or a small multiple of a given one.
func (m *Mach) bounder(st *State, parts []Lin, lim int64) func(Lin) bool {
	good := make([]bool, len(parts))
	for i, p := range parts {
		good[i] = st.num.rng(p).hi <= lim
	}
	return func(l Lin) bool {
		b, fit := l.scale(memFactor)
		if !fit {
			return false
		}
		rest := len(parts) > 1
		for i, p := range parts {
			good[i] = good[i] || st.num.prove(lsub(laddc(b, 4096), p))
			if i > 0 && !good[i] {
				rest = false
			}
		}
		return good[0] || rest
	}
}

// boundedLoop tells whether a list grows outside of loops, in a loop that ends by something else than a count (C08), or in
// one whose count is bounded.
func (m *Mach) boundedLoop(x *fexec, st *State, in ssa.Instruction, lim int64) bool {
	b := in.Block()
	var loop map[*ssa.BasicBlock]bool
	for _, h := range x.fi.fn.Blocks {
		if !h.Dominates(b) {
			continue
		}
		body := map[*ssa.BasicBlock]bool{h: true}
		var add func(p *ssa.BasicBlock)
		add = func(p *ssa.BasicBlock) {
			if !body[p] {
				body[p] = true
				for _, q := range p.Preds {
					add(q)
				}
			}
		}
		for _, p := range h.Preds {
			if h.Dominates(p) {
				add(p)
			}
		}
		if len(body) == 1 && !slices.Contains(h.Succs, h) {
			continue
		}
		if body[b] && (loop == nil || len(body) < len(loop)) {
			loop = body
		}
	}
	if loop == nil {
		return true
	}
	counted := false
	for lb := range loop {
		c, ok := lb.Instrs[len(lb.Instrs)-1].(*ssa.If)
		if !ok || loop[lb.Succs[0]] && loop[lb.Succs[1]] {
			continue
		}
		bo, ok := c.Cond.(*ssa.BinOp)
		if !ok || !isCmp(bo.Op) || !isInt(bo.X.Type()) {
			continue
		}
		inv := func(v ssa.Value) bool {
			i, ok := v.(ssa.Instruction)
			return !ok || !loop[i.Block()]
		}
		bound := bo.Y
		if inv(bo.X) {
			bound = bo.X
		}
		// a counter: changed by a constant on every turn
		if !inv(bound) || inv(bo.X) && inv(bo.Y) || !isCounter(bo.X) && !isCounter(bo.Y) {
			continue
		}
		counted = true
		v, ok := m.eval(st, bound).(VInt)
		if !ok {
			continue
		}
		ok2 := m.bounder(st, []Lin{v.l}, lim)
		if l, has := st.ghost["input"]; has && ok2(l) || st.num.rng(v.l).hi <= lim {
			return true
		}
	}
	return !counted
}

// isCounter tells a variable that a constant is added to, or the sum itself.
func isCounter(v ssa.Value) bool {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			break
		}
		v = c.X
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		_, isC := b.Y.(*ssa.Const)
		return isC
	}
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, isC := b.Y.(*ssa.Const); isC {
				return true
			}
		}
	}
	return false
}

func (m *Mach) needSize(x *fexec, st *State, in ssa.Instruction, n Lin, et types.Type, what string) {
	size := memSizes.Sizeof(et)
	if size == 0 {
		size = 1
	}
	kind := "mem-" + what
	lim := int64(memLimit)
	if r := st.num.rng(n); r.hi <= lim || st.num.prove(lsub(K(lim), n)) {
		m.record(in, kind, true, "", x.ctx)
		return
	}
	// a sum of lengths is bounded when each of them is
	parts := []Lin{n}
	if len(n.t) > 1 {
		var ps []Lin
		for _, t := range n.t {
			if t.k > 0 {
				p, _ := V(t.s).scale(t.k)
				ps = append(ps, p)
			} else if st.num.bounds(t.s).lo < 0 {
				ps = nil
				break
			}
		}
		if n.c <= 4096 && len(ps) > 1 {
			parts = append(parts, ps...)
		}
	}
	bounded := m.bounder(st, parts, lim)
	ok := false
	tried := map[string]bool{}
	try := func(v Val) {
		s, isS := v.(VSlice)
		if !isS || ok || s.ln.isConst() || len(tried) > 200 {
			return
		}
		k := s.ln.key()
		if tried[k] {
			return
		}
		tried[k] = true
		ok = bounded(s.ln)
	}
	if l, has := st.ghost["input"]; has {
		try(VSlice{ln: l})
	}
	// a list that grows is not bounded by its own length
	for i := len(st.fr) - 1; i >= 0 && !ok && what != "append"; i-- {
		for _, v := range st.fr[i].vals {
			if v != nil {
				try(v)
			}
		}
	}
	for _, o := range sortObjs(st.mem) {
		if ok || what == "append" {
			break
		}
		switch v := st.mem[o].(type) {
		case VStruct:
			for _, f := range v.f {
				try(f)
			}
		default:
			try(v)
		}
	}
	if !ok && what == "append" && m.boundedLoop(x, st, in, lim) {
		ok = true
	}
	d := ""
	if _, isS := et.Underlying().(*types.Slice); !ok && isS && what == "append" {
		kind = "mem-list" // of units cut from the input, see C08
	}
	if !ok && what == "make" && memSizes.Sizeof(et) == 1 && m.driver == "A_mpeg4audio_ame" {
		kind = "mem-sum" // the length of a payload is a sum of bytes of the input, at most 255 for each
	}
	if !ok {
		r := st.num.rng(n)
		if m.trace {
			fmt.Println("memfail", n.key(), tried, st.num.cons)
		}
		d = fmt.Sprintf("allocation (%s) of up to %d elements of %d bytes: bounded neither by %d nor by the length of the input", what, r.hi, size, memLimit)
	}
	m.record(in, kind, ok, d, x.ctx)
}
