package main

// Loops of the layout analysis. A loop whose number of iterations is a term (the length of a collection, a quotient) is
// evaluated once, for any iteration; what it adds to each counter is summed over the iterations, what it writes becomes
// one region, and the conditions that hold of every element are kept for the following loops over the same elements.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bedge struct {
	fr   *bfr
	p, q *ssa.BasicBlock
	st   *sst
}

type bloopRun struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	backs  []bedge
	exits  []bedge
}

// loopsOf finds the natural loops of a function.
func (e *bp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := e.loops[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			body := l[s]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{s: true}
				l[s] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	e.loops[fn] = l
	return l
}

// a quantity the loop changes
type bvar struct {
	phi   *ssa.Phi // or
	obj   int
	path  []pstep
	typ   types.Type
	part  int // 0: the value; 1, 2: offset and length of a slice
	v     *T  // generic value
	init  *T
	slice *SSlice
}

func substT(t *T, m map[*T]*T, memo map[*T]*T) *T {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var s sst
	r := t
	switch t.k {
	case tLin:
		l := lcomb{m: map[*T]int64{}, c: t.c}
		for i, a := range t.args {
			l.addT(substT(a, m, memo), t.co[i])
		}
		r = l.term()
	case tBits:
		bs := make([]Bit, len(t.bits))
		for i, b := range t.bits {
			bs[i] = b
			if b.k == 2 {
				bs[i] = s.bitOf(substT(b.t, m, memo), b.i)
			}
		}
		r = s.normBits(bs)
	case tOp:
		as := make([]*T, len(t.args))
		for i, a := range t.args {
			as[i] = substT(a, m, memo)
		}
		switch t.name {
		case "div", "mod":
			r = s.divmod(t.name, as[0], as[1].c)
		default:
			r = top_(t.name, t.lo, t.hi, as...)
		}
	}
	memo[t] = r
	return r
}

// summarise evaluates a loop for any iteration; false: to be followed iteration by iteration.
func (e *bp) summarise(fr *bfr, p, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *sst) (outs []bout, ok bool) {
	e.ndepth++
	defer func() { e.ndepth-- }()
	if e.ndepth > 5 || e.constLoop(fr, p, h, body, st) {
		return nil, false
	}
	nv, ns := len(e.viols), len(e.stack)
	if bpProf != nil {
		s0 := e.steps
		defer func() {
			bpProf[fmt.Sprintf("summary of %s at %s: %v", FName(fr.fn), e.r.Pos(posOfBlock(h)), ok)] += e.steps - s0
		}()
	}
	track := e.track
	e.track = false
	budget := e.sumLimit
	if l := e.steps + 150_000; budget == 0 || l < budget {
		e.sumLimit = l
	}
	defer func() {
		e.track = track
		e.sumLimit = budget
		if x := recover(); x != nil {
			if _, is := x.(bpFail); !is {
				panic(x)
			}
			if e.steps > e.limit {
				panic(x)
			}
			e.viols = e.viols[:nv]
			e.stack = e.stack[:ns]
			outs, ok = nil, false
		}
		if !ok {
			e.viols = e.viols[:nv]
		}
	}()

	k := predIndex(h, p)
	var vars []*bvar
	inits := map[*ssa.Phi]SV{}
	nphi := 0
	for _, in := range h.Instrs {
		phi, isPhi := in.(*ssa.Phi)
		if !isPhi {
			break
		}
		nphi++
		v := e.get(fr, st, phi.Edges[k])
		inits[phi] = v
		switch x := v.(type) {
		case *T:
			vars = append(vars, &bvar{phi: phi, typ: phi.Type(), init: st.res(x)})
		case *SSlice:
			if x.arr != nil {
				vars = append(vars, &bvar{phi: phi, part: 1, typ: types.Typ[types.Int], init: st.res(x.off), slice: x},
					&bvar{phi: phi, part: 2, typ: types.Typ[types.Int], init: st.res(x.ln), slice: x})
			}
		}
	}
	depth := st.depth + 1
	index := tatom(fmt.Sprintf("i@%d", depth), 0, 1<<40)
	isV := map[*T]bool{}
	var ind *bvar // induction variable and its step
	var step int64
	var limit *T
	junk := map[int]bool{}

	// run evaluates the body for any iteration
	run := func(phase int) (*bloopRun, []bout, []int) {
		var starts []*sst
		s0 := st.clone()
		s0.depth = depth
		s0.conds = nil
		f0 := fr.clone()
		for i, v := range vars {
			if v == ind {
				v.v = tadd(v.init, tmulc(index, step))
			} else {
				lo, hi := typeRange(v.typ)
				if v.part > 0 {
					lo, hi = 0, 1<<40
				}
				v.v = tatom(fmt.Sprintf("v%d@%d#%d", i, depth, e.nsum), lo, hi)
				isV[v.v] = true
			}
			if v.phi == nil {
				e.store(s0, &SPtr{obj: v.obj, path: v.path}, v.v)
			}
		}
		for phi, v := range inits {
			f0.vals[phi] = v
		}
		for _, v := range vars {
			if v.phi == nil {
				continue
			}
			switch v.part {
			case 0:
				f0.vals[v.phi] = v.v
			default:
				o := *(f0.vals[v.phi].(*SSlice))
				if v.part == 1 {
					o.off = v.v
				} else {
					o.ln = v.v
				}
				f0.vals[v.phi] = &o
			}
		}
		for id := range junk {
			if a, isA := s0.objs[id].(*SArr); isA {
				a = a.clone()
				a.junk = true
				a.el = map[string]arrEl{}
				s0.objs[id] = a
			}
		}
		starts = []*sst{s0}
		if limit != nil {
			if !s0.assume(s0.cmp("lt0", tsub(index, limit)), true) {
				starts = nil
			}
			for _, fa := range st.foralls {
				if fa.depth != depth || st.res(fa.n) != limit {
					continue
				}
				var next []*sst
				for _, s := range starts {
				cases:
					for _, cs := range fa.cases {
						c := s.clone()
						for _, x := range cs {
							if !c.assume(x.t, x.truth) {
								continue cases
							}
						}
						next = append(next, c)
					}
				}
				starts = next
			}
		}
		lr := &bloopRun{header: h, body: body}
		var os []bout
		for _, s := range starts {
			f := f0.clone()
			f.runs = append(append([]*bloopRun{}, fr.runs...), lr)
			f.iter = map[*ssa.BasicBlock]int{}
			os = append(os, e.from(f, h, nphi, s)...)
		}
		// objects changed
		ch := map[int]bool{}
		for _, b := range lr.backs {
			for id, v := range st.objs {
				if w, has := b.st.objs[id]; has && !sameSV(w, v) {
					ch[id] = true
				}
			}
		}
		var cl []int
		for id := range ch {
			cl = append(cl, id)
		}
		sort.Ints(cl)
		return lr, os, cl
	}

	e.nsum++
	var lr *bloopRun
	var rets []bout
	var changed []int
	for round := 0; ; round++ {
		if round > 6 {
			e.fail("loop variables do not settle")
		}
		e.viols = e.viols[:nv]
		lr, rets, changed = run(1)
		again := false
		for _, id := range changed {
			for _, b := range lr.backs {
				before := st.objs[id]
				for _, v := range vars { // compare with what the iteration started from
					if v.phi == nil && v.obj == id && v.v != nil {
						before = e.upd(st, before, v.path, v.v)
					}
				}
				e.diff(st, before, b.st.objs[id], nil, func(path []pstep, x, y SV) {
					if _, isInt := x.(*T); isInt {
						for _, v := range vars {
							if v.obj == id && fmt.Sprint(v.path) == fmt.Sprint(path) {
								return
							}
						}
						_, isT := y.(*T)
						if !isT {
							e.fail("changed in kind")
						}
						x0 := e.load(st, &SPtr{obj: id, path: path}).(*T)
						vars = append(vars, &bvar{obj: id, path: path, typ: types.Typ[types.Int], init: st.res(x0)})
						again = true
						return
					}
					if a, isA := x.(*SArr); isA && a.b == nil && len(path) == 0 {
						if !junk[id] {
							junk[id] = true
							again = true
						}
						return
					}
					if fmt.Sprintf("%T", x) == fmt.Sprintf("%T", y) {
						if same, _ := e.same(st, x, y); same {
							return
						}
					}
					e.fail("a loop changes a %T", x)
				})
			}
		}
		if again {
			ind, limit = nil, nil
			continue
		}
		if len(lr.backs) == 0 {
			e.fail("no iteration")
		}
		if ind != nil && limit != nil {
			break
		}
		if ind == nil {
			// a counter with a constant step that decides the exit
			for _, ex := range lr.exits {
				iff, isIf := ex.p.Instrs[len(ex.p.Instrs)-1].(*ssa.If)
				if !isIf {
					continue
				}
				c, isT := ex.fr.vals[iff.Cond].(*T)
				if !isT {
					continue
				}
				for _, v := range vars {
					if !c.mentions(func(a *T) bool { return a == v.v }) {
						continue
					}
					d, okd := e.delta(lr, v)
					if okd && d.isC() && d.c != 0 {
						ind, step = v, d.c
					}
				}
			}
			if ind == nil {
				e.fail("no counter decides the exit of the loop")
			}
			continue
		}
		limit = e.tripCount(st, lr, ind, step, index, isV)
		if limit == nil {
			e.fail("number of iterations not known")
		}
		if limit.isC() {
			return nil, false
		}
	}
	limit0 := limit
	// invariants: the other φs keep their value
	for phi, v := range inits {
		switch v.(type) {
		case *T:
			continue
		}
		for _, b := range lr.backs {
			w := e.get(b.fr, b.st, phi.Edges[predIndex(h, b.p)])
			if sl, isS := v.(*SSlice); isS && sl.arr != nil {
				ws, isW := w.(*SSlice)
				if !isW || ws.arr == nil || ws.arr.obj != sl.arr.obj || ws.arr.name != sl.arr.name {
					e.fail("slice moves to another array")
				}
				continue
			}
			if fmt.Sprintf("%T", v) != fmt.Sprintf("%T", w) {
				e.fail("variable changes kind")
			}
			if same, why := e.same(b.st, v, w); !same {
				// variables set before they are used in each iteration do not matter
				_ = why
				inits[phi] = SAny{"changed by a loop"}
				break
			}
		}
	}
	// guards
	cases := make([][]scond, len(lr.backs))
	noV := func(t *T) bool { return !t.mentions(func(a *T) bool { return isV[a] }) }
	for i, b := range lr.backs {
		for _, c := range b.st.conds {
			if noV(c.t) && c.t.mentions(func(a *T) bool { return a == index || strings.Contains(a.name, index.name) }) {
				cases[i] = append(cases[i], c)
			}
		}
	}
	after := st.clone()
	f := fr.clone()
	sumOf := func(ds []*T) *T {
		for i := range ds {
			if !noV(ds[i]) {
				return nil
			}
		}
		all := true
		for _, d := range ds[1:] {
			if d != ds[0] {
				all = false
			}
		}
		d := ds[0]
		if !all {
			d = e.caseTerm(after, cases, ds)
			if d == nil {
				return nil
			}
		}
		return e.sum(after, limit0, index, depth, d)
	}
	final := map[*T]*T{} // generic value -> final value
	nextOf := make([]map[*T]*T, len(lr.backs))
	for i := range nextOf {
		nextOf[i] = map[*T]*T{index: tadd(index, tk(1))}
	}
	first := map[*T]*T{index: tk(0)}
	for _, v := range vars {
		var ds []*T
		for i, b := range lr.backs {
			w := e.after(b, h, v)
			if w == nil {
				e.fail("loop variable lost")
			}
			w = b.st.res(w)
			if v != ind {
				nextOf[i][v.v] = w
			}
			ds = append(ds, b.st.res(tsub(w, v.v)))
		}
		if v != ind {
			first[v.v] = v.init
		}
		var fin *T
		if v == ind {
			fin = tadd(v.init, tmulc(limit0, step))
		} else if s := sumOf(ds); s != nil {
			fin = tadd(v.init, s)
		} else {
			lo, hi := typeRange(v.typ)
			fin = e.fresh("loop result", lo, hi)
		}
		final[v.v] = fin
		switch {
		case v.phi == nil:
			e.store(after, &SPtr{obj: v.obj, path: v.path}, fin)
		case v.part == 0:
			f.vals[v.phi] = fin
		default:
			o := *inits[v.phi].(*SSlice)
			if v.part == 2 {
				if p, has := f.vals[v.phi].(*SSlice); has {
					o = *p
				}
				o.ln = fin
				o.cp = fin
			} else {
				o.off = fin
			}
			f.vals[v.phi] = &o
		}
	}
	for phi, v := range inits {
		isVar := false
		for _, x := range vars {
			if x.phi == phi {
				isVar = true
			}
		}
		if !isVar {
			f.vals[phi] = v
		}
	}
	for id := range junk {
		if a, isA := after.objs[id].(*SArr); isA {
			a = a.clone()
			a.junk = true
			a.el = map[string]arrEl{}
			after.objs[id] = a
		}
	}
	// what was written
	for _, id := range changed {
		old, isA := st.objs[id].(*SArr)
		if !isA || old.b == nil {
			continue
		}
		var start *T
		var ds []*T
		gap := ""
		for i, b := range lr.backs {
			cur, isA := b.st.objs[id].(*SArr)
			if !isA {
				e.fail("array replaced")
			}
			spans := e.spans(b.st, cur, old)
			if len(spans) == 0 {
				ds = append(ds, tk(0))
				continue
			}
			// the first span: all others follow it
			var from, to *T
			for _, s := range spans {
				if end, w := e.chain(b.st, s.pos, spans); w == "" {
					from, to = s.pos, end
					break
				}
			}
			for _, s := range spans {
				if s.gap != "" {
					gap = s.gap
				}
			}
			if from == nil {
				gap = "writes of one iteration do not follow each other"
				ds = append(ds, tk(0))
				continue
			}
			if start == nil {
				start = from
			} else if start != from {
				gap = "writes start at different places"
			}
			nx := substT(from, nextOf[i], map[*T]*T{})
			if b.st.res(nx) != b.st.res(to) {
				gap = fmt.Sprintf("one iteration writes up to bit %s, the next starts at bit %s", b.st.res(to), b.st.res(nx))
			}
			ds = append(ds, b.st.res(tsub(to, from)))
		}
		if start == nil && gap == "" {
			continue
		}
		a := after.objs[id].(*SArr).clone()
		if gap == "" {
			n := sumOf(ds)
			if n == nil {
				gap = "amount written not known"
			} else {
				a.b.regs = append(a.b.regs, bregion{pos: after.res(substT(start, first, map[*T]*T{})), n: n})
			}
		}
		if gap != "" {
			a.b.regs = append(a.b.regs, bregion{pos: tk(0), n: tk(0), gap: gap})
		}
		after.objs[id] = a
	}
	after.foralls = append(after.foralls, sforall{limit0, depth, cases})
	f.iter[h] = 300
	outs = append(outs, rets...)
	// exits other than by the counter
	for _, ex := range lr.exits {
		if e.countedExit(ex, index, ind) {
			continue
		}
		ex.fr.runs = fr.runs
		x := ex.st
		x.depth = st.depth
		x.conds = append(append([]scond{}, st.conds...), x.conds...)
		outs = append(outs, e.goTo(ex.fr, ex.p, ex.q, x)...)
	}
	for i := range rets {
		rets[i].st.depth = st.depth
		rets[i].st.conds = append(append([]scond{}, st.conds...), rets[i].st.conds...)
	}
	e.track = track
	outs = append(outs, e.from(f, h, nphi, after)...)
	return outs, true
}

// caseTerm is the term whose value is one of several, by the conditions of each: a decision tree over the conditions in a
// fixed order, without those that do not matter.
func (e *bp) caseTerm(st *sst, cases [][]scond, ds []*T) *T {
	var leaves []*T
	bad := false
	type node struct {
		c    *T
		a, b *node
		leaf *T
		key  string
	}
	var build func(cs [][]scond, ds []*T) *node
	build = func(cs [][]scond, ds []*T) *node {
		if len(ds) == 0 {
			return nil
		}
		same := true
		for _, d := range ds {
			same = same && d == ds[0]
		}
		if same {
			return &node{leaf: ds[0], key: fmt.Sprint(ds[0].id)}
		}
		var c *T
		for _, x := range cs {
			for _, y := range x {
				if c == nil || y.t.id < c.id {
					c = y.t
				}
			}
		}
		if c == nil {
			bad = true
			return nil
		}
		var ca, cb [][]scond
		var da, db []*T
		for i, x := range cs {
			var rest []scond
			ina, inb := true, true
			for _, y := range x {
				if y.t != c {
					rest = append(rest, y)
				} else if y.truth {
					inb = false
				} else {
					ina = false
				}
			}
			if ina {
				ca, da = append(ca, rest), append(da, ds[i])
			}
			if inb {
				cb, db = append(cb, rest), append(db, ds[i])
			}
		}
		x, y := build(ca, da), build(cb, db)
		switch {
		case x == nil:
			return y
		case y == nil || x.key == y.key:
			return x
		}
		return &node{c: c, a: x, b: y, key: fmt.Sprintf("(%d %s %s)", c.id, x.key, y.key)}
	}
	root := build(cases, ds)
	if bad || root == nil {
		return nil
	}
	var collect func(n *node)
	collect = func(n *node) {
		if n.leaf != nil {
			leaves = append(leaves, n.leaf)
			return
		}
		collect(n.a)
		collect(n.b)
	}
	collect(root)
	// the common part and factor go out
	base := leaves[0]
	for _, l := range leaves {
		if d := tsub(l, base); d.isC() && d.c < 0 {
			base = l
		}
	}
	var g int64
	for _, l := range leaves {
		_, co, c := tsub(l, base).parts()
		g = gcd64(g, c)
		for _, k := range co {
			g = gcd64(g, k)
		}
	}
	if g == 0 {
		return base
	}
	var term func(n *node) *T
	term = func(n *node) *T {
		if n.leaf != nil {
			l := lcomb{m: map[*T]int64{}}
			ts, co, c := tsub(n.leaf, base).parts()
			l.c = c / g
			for i, t := range ts {
				l.m[t] += co[i] / g
			}
			return l.term()
		}
		x, y := term(n.a), term(n.b)
		xl, xh := st.rg(x)
		yl, yh := st.rg(y)
		return top_("if", min(xl, yl), max(xh, yh), n.c, x, y)
	}
	return tadd(base, tmulc(term(root), g))
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// after is the value of a loop variable at the end of an iteration.
func (e *bp) after(b bedge, h *ssa.BasicBlock, v *bvar) *T {
	if v.phi == nil {
		t, _ := e.load(b.st, &SPtr{obj: v.obj, path: v.path}).(*T)
		return t
	}
	w := e.get(b.fr, b.st, v.phi.Edges[predIndex(h, b.p)])
	switch x := w.(type) {
	case *T:
		return x
	case *SSlice:
		if v.part == 1 {
			return x.off
		}
		return x.ln
	}
	return nil
}

// delta is the change of a variable, when it is the same on every way.
func (e *bp) delta(lr *bloopRun, v *bvar) (*T, bool) {
	var d *T
	for _, b := range lr.backs {
		w := e.after(b, lr.header, v)
		if w == nil {
			return nil, false
		}
		x := b.st.res(tsub(b.st.res(w), v.v))
		if d == nil {
			d = x
		} else if d != x {
			return nil, false
		}
	}
	return d, d != nil
}

func (e *bp) countedExit(ex bedge, index *T, ind *bvar) bool {
	iff, isIf := ex.p.Instrs[len(ex.p.Instrs)-1].(*ssa.If)
	if !isIf {
		return false
	}
	c, isT := ex.fr.vals[iff.Cond].(*T)
	if !isT {
		return false
	}
	for c.k == tLin && len(c.args) == 1 && c.co[0] == -1 && c.c == 1 {
		c = c.args[0]
	}
	if c.k != tOp || (c.name != "lt0" && c.name != "eq0") {
		return false
	}
	ts, co, _ := c.args[0].parts()
	for i, t := range ts {
		if t == index && co[i] != 0 {
			return true
		}
	}
	return false
}

// tripCount finds how many times the way back is taken.
func (e *bp) tripCount(st *sst, lr *bloopRun, ind *bvar, step int64, index *T, isV map[*T]bool) *T {
	for _, ex := range lr.exits {
		if !e.countedExit(ex, index, ind) {
			continue
		}
		iff := ex.p.Instrs[len(ex.p.Instrs)-1].(*ssa.If)
		c := ex.fr.vals[iff.Cond].(*T)
		exitTruth := ex.p.Succs[0] == ex.q
		for c.k == tLin && len(c.args) == 1 && c.co[0] == -1 && c.c == 1 {
			c = c.args[0]
			exitTruth = !exitTruth
		}
		d := c.args[0]
		ts, co, _ := d.parts()
		var k int64
		for i, t := range ts {
			if t == index {
				k = co[i]
			}
		}
		rest := st.res(tsub(d, tmulc(index, k))) // d = rest + k*i
		if rest.mentions(func(a *T) bool { return isV[a] || a == index }) {
			continue
		}
		if c.name == "eq0" {
			if exitTruth && (k == 1 || k == -1) { // exit when i = -rest/k
				n := tmulc(rest, -k)
				if st.decide(st.cmp("lt0", n)) == 0 {
					return st.res(n)
				}
			}
			continue
		}
		// continue while d < 0, or while d >= 0
		if !exitTruth { // continue while rest + k*i < 0
			if k <= 0 {
				continue
			}
			n := st.divmod("div", tadd(tmulc(rest, -1), tk(k-1)), k)
			if st.decide(st.cmp("lt0", n)) == 0 {
				return st.res(n)
			}
			continue
		}
		if k >= 0 { // continue while rest + k*i >= 0
			continue
		}
		n := st.divmod("div", tadd(rest, tk(-k)), -k)
		if st.decide(st.cmp("lt0", n)) == 0 {
			return st.res(n)
		}
	}
	return nil
}

// sum adds a term over the iterations.
func (e *bp) sum(st *sst, n, index *T, depth int, d *T) *T {
	ts, co, c := d.parts()
	l := lcomb{m: map[*T]int64{}}
	l.addT(n, c)
	for i, t := range ts {
		lo, _ := st.rg(t)
		rl := -tInf
		if lo >= 0 {
			rl = 0
		}
		if !t.mentions(func(a *T) bool { return strings.Contains(a.name, index.name) }) {
			a, b := n, t
			if a.id > b.id {
				a, b = b, a
			}
			l.addT(top_("mul", rl, tInf, a, b), co[i])
			continue
		}
		l.addT(top_(fmt.Sprintf("sum@%d", depth), rl, tInf, n, t), co[i])
	}
	return l.term()
}

// diff calls f for each part that differs.
func (e *bp) diff(st *sst, x, y SV, path []pstep, f func([]pstep, SV, SV)) {
	if x == y {
		return
	}
	switch a := x.(type) {
	case *T:
		b, ok := y.(*T)
		if ok && st.res(a) == st.res(b) {
			return
		}
		f(path, x, y)
		return
	case *SStruct:
		if b, ok := y.(*SStruct); ok && len(a.f) == len(b.f) {
			for i := range a.f {
				e.diff(st, a.f[i], b.f[i], append(append([]pstep{}, path...), pstep{f: i}), f)
			}
			return
		}
	case *SArr:
		if b, ok := y.(*SArr); ok {
			if a.b != nil && b.b != nil {
				return // handled as regions
			}
			if len(a.el) == len(b.el) && a.junk == b.junk {
				same := true
				for k, el := range a.el {
					o, has := b.el[k]
					if !has || o.v != el.v {
						same = false
					}
				}
				if same {
					return
				}
			}
		}
	}
	f(path, x, y)
}

// constLoop tells whether a loop counts to a constant: it is then followed iteration by iteration.
func (e *bp) constLoop(fr *bfr, p, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *sst) bool {
	if len(h.Instrs) == 0 {
		return false
	}
	i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var konst func(v ssa.Value) bool
	konst = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Convert:
			if body[x.Block()] {
				return konst(x.X)
			}
		case *ssa.UnOp:
			// a field that holds a constant when the loop starts
			if a, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && body[x.Block()] {
				if in, ok := a.X.(ssa.Instruction); ok && body[in.Block()] {
					return false
				}
				if p, ok := e.get(fr, st, a.X).(*SPtr); ok && p.obj != 0 {
					if t, ok := e.load(st, e.ptrAdd(p, pstep{f: a.Field})).(*T); ok {
						t = st.res(t)
						return t.isC() && t.c <= 300
					}
				}
				return false
			}
		case *ssa.BinOp:
			if body[x.Block()] && (x.Op == token.ADD || x.Op == token.SUB) {
				return konst(x.X) && konst(x.Y)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && body[x.Block()] {
				a := x.Call.Args[0]
				if in, ok := a.(ssa.Instruction); ok && body[in.Block()] {
					return false
				}
				if s, ok := e.get(fr, st, a).(*SSlice); ok {
					t := st.res(s.ln)
					return t.isC() && t.c <= 300
				}
				return false
			}
		}
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			return false
		}
		if _, ok := v.(*ssa.Const); !ok {
			if _, ok := fr.vals[v]; !ok {
				return false
			}
		}
		t, ok := e.get(fr, st, v).(*T)
		if !ok {
			return false
		}
		t = st.res(t)
		return t.isC() && t.c <= 300 && t.c >= -300
	}
	counter := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok && b.Block() == h {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
				v = b.X
			}
		}
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() != h {
			return false
		}
		if !konst(phi.Edges[predIndex(h, p)]) {
			return false
		}
		// stepped by a constant
		for j, ed := range phi.Edges {
			if !body[h.Preds[j]] {
				continue
			}
			b, ok := ed.(*ssa.BinOp)
			if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
				return false
			}
			if k, ok := b.Y.(*ssa.Const); !ok || k.Value == nil {
				return false
			}
		}
		return true
	}
	return counter(c.X) && konst(c.Y) || counter(c.Y) && konst(c.X)
}
