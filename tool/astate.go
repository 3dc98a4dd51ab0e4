package main

// States of the abstract interpreter: frames, memory, numeric constraints; garbage collection and joins.

import (
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fi   *fnInfo
	ctx  int
	vals []Val // by value number
	own  *State
	keep []fieldCache // fields read before a call that writes nothing
}

type State struct {
	m     *Mach
	fr    []*Frame
	mem   map[ObjID]Val
	num   *Num
	memo  map[string]Lin    // results of pure operations
	sfact map[string]string // facts about strings: identity key -> constant, or "!c1,!c2"
	ghost map[string]Lin
	tags  string       // known boolean results that keep states apart
	past  bool         // the list of results has been allocated, see outside
	lc    []elemCache  // elements read since the start of the block; never survives a write or a join
	vc    []fieldCache // fields of unidentified structures read since the start of the block
}

// fieldCache is the content of a field of a structure that may be one of several objects, identified by the pointer it was
// reached from.
type fieldCache struct {
	root  ssa.Value
	path  string
	names []ssa.Value // the loads that gave this content
	tg    []Tgt
	v     Val
}

// elemCache is an element of an array that may be one of several objects.
type elemCache struct {
	tg    []Tgt
	v     Val
	whole bool // v is a slice, read as it is
}

func (st *State) top() *Frame { return st.fr[len(st.fr)-1] }

func (st *State) clone() *State {
	o := &State{m: st.m, num: st.num.clone(), vc: st.vc, tags: st.tags, past: st.past}
	o.fr = append([]*Frame(nil), st.fr...)
	o.mem = make(map[ObjID]Val, len(st.mem))
	for k, v := range st.mem {
		o.mem[k] = v
	}
	o.memo = make(map[string]Lin, len(st.memo))
	for k, v := range st.memo {
		o.memo[k] = v
	}
	if len(st.sfact) > 0 {
		o.sfact = map[string]string{}
		for k, v := range st.sfact {
			o.sfact[k] = v
		}
	}
	if len(st.ghost) > 0 {
		o.ghost = map[string]Lin{}
		for k, v := range st.ghost {
			o.ghost[k] = v
		}
	}
	// the top frame is shared until written
	if f := o.fr[len(o.fr)-1]; f != nil {
		f.own = nil
	}
	return o
}

// wtop returns the top frame, private to the state.
func (st *State) wtop() *Frame {
	f := st.fr[len(st.fr)-1]
	if f.own != st {
		g := &Frame{fi: f.fi, ctx: f.ctx, vals: append([]Val(nil), f.vals...), own: st, keep: f.keep}
		st.fr = append([]*Frame(nil), st.fr...)
		st.fr[len(st.fr)-1] = g
		return g
	}
	return f
}

func (st *State) set(v ssa.Value, x Val) {
	f := st.wtop()
	f.vals[f.fi.num[v]] = x
}

func (st *State) bot() bool { return st.num.bot }

// roots collects the symbols held by values.
func (st *State) roots() map[Sym]bool {
	r := map[Sym]bool{}
	add := func(s Sym) { r[s] = true }
	for _, f := range st.fr {
		for _, v := range f.vals {
			if v != nil {
				symsOf(v, add)
			}
		}
		for _, c := range f.keep {
			symsOf(c.v, add)
		}
	}
	for _, v := range st.mem {
		symsOf(v, add)
	}
	for _, l := range st.ghost {
		for _, t := range l.t {
			add(t.s)
		}
	}
	return r
}

// gc drops unreachable objects and projects dead symbols away.
func (st *State) gc() {
	live := map[ObjID]bool{}
	var work []ObjID
	w := walker{obj: func(o ObjID) {
		if !live[o] {
			live[o] = true
			work = append(work, o)
		}
	}}
	for _, f := range st.fr {
		for _, v := range f.vals {
			if v != nil {
				w.val(v)
			}
		}
		for _, c := range f.keep {
			w.val(c.v)
		}
	}
	for _, o := range st.m.pinned {
		w.obj(o)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if v, ok := st.mem[o]; ok {
			w.val(v)
		} else if v, ok := st.m.globals[o]; ok {
			w.val(v)
		}
	}
	for o := range st.mem {
		if !live[o] {
			if _, g := st.m.globals[o]; !g {
				delete(st.mem, o)
			}
		}
	}
	st.projectTo(st.roots())
}

func (st *State) projectTo(r map[Sym]bool) {
	n := st.num
	keep := func(s Sym) bool { return r[s] }
	dead := false
	for _, c := range n.cons {
		for _, t := range c.l.t {
			if !r[t.s] {
				dead = true
			}
		}
	}
	for _, d := range n.neq {
		for _, t := range d.t {
			if !r[t.s] {
				dead = true
			}
		}
	}
	if dead {
		cons := project(n.cons, keep, n.bounds)
		o := newNum()
		o.bot = n.bot
		for s, v := range n.iv {
			if r[s] {
				o.iv[s] = v
			}
		}
		for _, d := range n.neq {
			ok := true
			for _, t := range d.t {
				if !r[t.s] {
					ok = false
				}
			}
			if ok {
				o.neq = append(o.neq, d)
			}
		}
		for _, c := range cons {
			if c.eq {
				o.EQ(c.l)
			} else {
				o.GE(c.l)
			}
		}
		st.num = o
	} else {
		for s := range n.iv {
			if !r[s] {
				delete(n.iv, s)
			}
		}
	}
	for k, l := range st.memo {
		for _, t := range l.t {
			if !r[t.s] {
				delete(st.memo, k)
				break
			}
		}
	}
}

// prune drops the values of the top frame that are not live at the start of a block.
func (st *State) prune(live []bool) {
	f := st.wtop()
	for i := range f.vals {
		if f.vals[i] != nil && !live[i] {
			f.vals[i] = nil
		}
	}
}

// ---- join

type joinPair struct {
	la, lb Lin
	q      Sym
}

type joinLin struct{ a, b, r Lin }

type joiner struct {
	m       *Mach
	filled  []joinLin
	a, b    *State
	pairs   []joinPair
	byKey   map[string]int
	byLa    map[string][]int
	widen   bool
	iter    int
	changed bool // the result is weaker than a
	inTmpl  bool
	why     string
}

func newJoiner(m *Mach, a, b *State) *joiner {
	return &joiner{m: m, a: a, b: b, byKey: map[string]int{}, byLa: map[string][]int{}}
}

func (j *joiner) ch(why string) {
	if !j.changed {
		j.why = why
	}
	j.changed = true
}

var widenSteps = []int64{0, 1, 8, 255, 65535, 1<<32 - 1, maxLen, maxLen * 8, maxMake, big}
var lastSteps = []int64{0, 1<<32 - 1, maxLen * 8, maxMake, big}
var endSteps = []int64{0, maxMake, big}

func widenHi(steps []int64, old, new int64) int64 {
	if new <= old {
		return old
	}
	for _, s := range steps {
		if new <= s {
			return s
		}
	}
	return posInf
}

func widenLo(steps []int64, old, new int64) int64 {
	if new >= old {
		return old
	}
	for _, s := range lastSteps {
		if new >= -s {
			return -s
		}
	}
	return negInf
}

// steps are the widening thresholds: general ones and those of the function under analysis.
func (j *joiner) steps() []int64 {
	if j.iter > 8 {
		return endSteps
	}
	if j.iter > 5 {
		return lastSteps
	}
	if n := len(j.m.stack); n > 0 {
		if fi := j.m.info[j.m.stack[n-1]]; fi != nil && fi.steps != nil {
			return fi.steps
		}
	}
	return widenSteps
}

func (j *joiner) lin(la, lb Lin) Lin {
	if la.eq(lb) {
		return la
	}
	k := la.key() + "|" + lb.key()
	if i, ok := j.byKey[k]; ok {
		return V(j.pairs[i].q)
	}
	// the same value under another form
	if d, ok := lb.sub(la); ok && j.b.num.proveEQ(d) {
		return la
	}
	if d, ok := la.sub(lb); ok && len(lb.t) > 0 && j.a.num.proveEQ(d) {
		return lb
	}
	// constant distance from another pair
	for _, i := range j.byLa[(Lin{t: la.t}).key()] {
		p := j.pairs[i]
		if p.la.sameTerms(la) && p.lb.sameTerms(lb) && la.c-p.la.c == lb.c-p.lb.c {
			return laddc(V(p.q), la.c-p.la.c)
		}
	}
	ra, rb := j.a.num.rng(la), j.b.num.rng(lb)
	if rb.hi > big && ra.hi < big {
		// the interval may be implied by relations
		for _, h := range []int64{maxLen * 8, maxMake} {
			if d, ok := K(h).sub(lb); ok && ra.hi <= h && j.b.num.prove(d) {
				rb.hi = h
				break
			}
		}
	}
	iv := Iv{min(ra.lo, rb.lo), max(ra.hi, rb.hi)}
	if iv != ra {
		// the interval may be provably unchanged
		if rb.hi > ra.hi && ra.hi < big {
			if d, ok := K(ra.hi).sub(lb); ok && j.b.num.prove(d) {
				iv.hi = ra.hi
			}
		}
		if rb.lo < ra.lo && ra.lo > -big {
			if d, ok := lb.sub(K(ra.lo)); ok && j.b.num.prove(d) {
				iv.lo = ra.lo
			}
		}
	}
	if iv != ra {
		if j.widen {
			iv.hi = widenHi(j.steps(), ra.hi, iv.hi)
			iv.lo = widenLo(j.steps(), ra.lo, iv.lo)
		}
		j.ch("interval")
	}
	q := freshSym("", iv)
	j.byKey[k] = len(j.pairs)
	lk := (Lin{t: la.t}).key()
	j.byLa[lk] = append(j.byLa[lk], len(j.pairs))
	j.pairs = append(j.pairs, joinPair{la, lb, q})
	return V(q)
}

func (j *joiner) boolean(a, b VBool) Val {
	if a.k == b.k && a.l.eq(b.l) {
		return a
	}
	la, oka := bit01(j.a.num, a)
	lb, okb := bit01(j.b.num, b)
	if !oka || !okb {
		// same condition over joined expressions
		if a.k == b.k && !a.l.isConst() && !b.l.isConst() {
			return VBool{a.k, j.lin(a.l, b.l)}
		}
		if !oka {
			la = fresh(Iv{0, 1})
		}
		if !okb {
			lb = fresh(Iv{0, 1})
		}
	}
	q := j.lin(la, lb)
	return VBool{cGE, laddc(q, -1)}
}

// bit01 expresses a condition as a 0/1 expression.
func bit01(n *Num, b VBool) (Lin, bool) {
	switch evalBool(n, b) {
	case 1:
		return K(1), true
	case 0:
		return K(0), true
	}
	if b.k == cGE && len(b.l.t) == 1 {
		s := b.l.t[0]
		iv := n.bounds(s.s)
		if iv.lo >= 0 && iv.hi <= 1 {
			if s.k == 1 && b.l.c == -1 {
				return V(s.s), true
			}
			if s.k == -1 && b.l.c == 0 {
				return lsub(K(1), V(s.s)), true
			}
		}
	}
	return Lin{}, false
}

// evalBool returns 1, 0 or -1 (unknown).
func evalBool(n *Num, b VBool) int {
	if b.l.isConst() {
		ok := false
		switch b.k {
		case cGE:
			ok = b.l.c >= 0
		case cEQ:
			ok = b.l.c == 0
		case cNE:
			ok = b.l.c != 0
		}
		if ok {
			return 1
		}
		return 0
	}
	switch b.k {
	case cGE:
		if n.prove(b.l) {
			return 1
		}
		neg, ok := b.l.scale(-1)
		if ok && n.prove(laddc(neg, -1)) {
			return 0
		}
	case cEQ, cNE:
		r := -1
		if n.proveEQ(b.l) {
			r = 1
		} else if n.proveNE(b.l) {
			r = 0
		}
		if r >= 0 && b.k == cNE {
			r = 1 - r
		}
		return r
	}
	return -1
}

func sameSel(a, b []Sel) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].field != b[i].field || a[i].any != b[i].any {
			return false
		}
		if a[i].field < 0 && !a[i].any && !a[i].idx.eq(b[i].idx) {
			return false
		}
	}
	return true
}

func (j *joiner) tgts(a, b []Tgt) []Tgt {
	if len(a) == 1 && len(b) == 1 && a[0].o == b[0].o && len(a[0].p) == len(b[0].p) {
		// same shape: join indexes
		ok := true
		for i := range a[0].p {
			if a[0].p[i].field != b[0].p[i].field {
				ok = false
			}
		}
		if ok {
			out := Tgt{o: a[0].o}
			for i := range a[0].p {
				s := a[0].p[i]
				t := b[0].p[i]
				if s.field < 0 {
					if s.any || t.any {
						if !s.any {
							j.ch("sel")
						}
						s.any, s.idx = true, Lin{}
					} else {
						s.idx = j.lin(s.idx, t.idx)
					}
				}
				out.p = append(out.p, s)
			}
			return []Tgt{out}
		}
	}
	widenSel := func(t Tgt) Tgt {
		o := Tgt{o: t.o}
		for _, s := range t.p {
			if s.field < 0 && !s.idx.isConst() {
				s.any, s.idx = true, Lin{}
			}
			o.p = append(o.p, s)
		}
		return o
	}
	var out []Tgt
	for _, t := range a {
		out = append(out, widenSel(t))
	}
	for _, t := range b {
		t = widenSel(t)
		found := false
		for _, x := range out {
			if x.o == t.o && sameSel(x.p, t.p) {
				found = true
				break
			}
		}
		if !found {
			j.ch("target")
			out = append(out, t)
		}
	}
	return out
}

func (j *joiner) roots() map[Sym]bool { return nil }

func (j *joiner) val(a, b Val) Val {
	if a == nil || b == nil {
		if a != nil {
			j.ch("dead")
		}
		return nil
	}
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return VInt{j.lin(x.l, y.l)}
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			return j.boolean(x, y)
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			return VPtr{j.lin(x.nn, y.nn), j.tgts(x.tg, y.tg)}
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			// an empty side takes the offset of the other
			if len(x.arr) == 0 && x.ln.isConst() && len(y.arr) > 0 && y.off.isConst() {
				x.off = y.off
			} else if len(y.arr) == 0 && y.ln.isConst() && len(x.arr) > 0 && x.off.isConst() {
				y.off = x.off
			}
			r := VSlice{j.lin(x.nn, y.nn), j.tgts(x.arr, y.arr), j.lin(x.off, y.off), j.lin(x.ln, y.ln), j.lin(x.cp, y.cp)}
			if !j.inTmpl && !r.nn.isConst() && !r.ln.isConst() {
				// a slice that is not nil may be known not to be empty
				j.filled = append(j.filled, joinLin{lsub(x.ln, x.nn), lsub(y.ln, y.nn), lsub(r.ln, r.nn)})
			}
			return r
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			if x.cst != nil && y.cst != nil && *x.cst == *y.cst {
				return x
			}
			if x.cst == nil && y.cst == nil && x.id.eq(y.id) {
				return VStr{ln: j.lin(x.ln, y.ln), id: x.id}
			}
			if x.cst != nil {
				j.ch("string")
			}
			ia, ib := x.id, y.id
			if x.cst != nil {
				ia = fresh(fullIv)
			}
			if y.cst != nil {
				ib = fresh(fullIv)
			}
			return VStr{ln: j.lin(x.ln, y.ln), id: j.lin(ia, ib)}
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			o := VIface{nn: j.lin(x.nn, y.nn), open: x.open || y.open}
			if y.open && !x.open {
				j.ch("iface open")
			}
			used := make([]bool, len(y.alts))
			for _, p := range x.alts {
				v := p.v
				for i, q := range y.alts {
					if types.Identical(p.t, q.t) {
						used[i] = true
						v = j.val(p.v, q.v)
					}
				}
				o.alts = append(o.alts, IfAlt{p.t, v})
			}
			for i, q := range y.alts {
				if !used[i] {
					if o.open {
						continue
					}
					if len(o.alts) > 16 {
						o.open = true
						j.ch("iface alts")
						continue
					}
					j.ch("iface alt")
					// the value exists only on the second side
					o.alts = append(o.alts, IfAlt{q.t, j.oneSide(q.v)})
				}
			}
			if o.open {
				o.alts = nil
				if len(x.alts) > 0 && x.open {
					j.ch("iface open alts")
				}
			}
			// values that exist only on the first side
			for i := range o.alts {
				if i < len(x.alts) {
					found := false
					for _, q := range y.alts {
						if types.Identical(q.t, o.alts[i].t) {
							found = true
						}
					}
					if !found {
						o.alts[i].v = j.oneSide2(o.alts[i].v)
					}
				}
			}
			return o
		}
	case VFunc:
		if y, ok := b.(VFunc); ok {
			o := VFunc{nn: j.lin(x.nn, y.nn), open: x.open || y.open}
			if y.open && !x.open {
				j.ch("func open")
			}
			used := make([]bool, len(y.alts))
			for _, p := range x.alts {
				c := p
				for i, q := range y.alts {
					if !used[i] && p.fn == q.fn && len(p.binds) == len(q.binds) {
						used[i] = true
						c = FnAlt{fn: p.fn}
						if p.recv != nil {
							c.recv = j.val(p.recv, q.recv)
						}
						for k := range p.binds {
							c.binds = append(c.binds, j.val(p.binds[k], q.binds[k]))
						}
						break
					}
				}
				o.alts = append(o.alts, c)
			}
			for i, q := range y.alts {
				if !used[i] {
					j.ch("func alt")
					o.alts = append(o.alts, q)
				}
			}
			return o
		}
	case VMap:
		if y, ok := b.(VMap); ok {
			o := VMap{nn: j.lin(x.nn, y.nn), o: append([]ObjID(nil), x.o...)}
			for _, q := range y.o {
				found := false
				for _, p := range o.o {
					if p == q {
						found = true
					}
				}
				if !found {
					j.ch("map")
					o.o = append(o.o, q)
				}
			}
			return o
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			o := VStruct{make([]Val, len(x.f))}
			for i := range x.f {
				o.f[i] = j.val(x.f[i], y.f[i])
			}
			return o
		}
	case *VArr:
		if y, ok := b.(*VArr); ok {
			return j.arr(x, y)
		}
	case *VTmpl:
		if y, ok := b.(*VTmpl); ok {
			return j.tmpl(x, y)
		}
	case VTuple:
		if y, ok := b.(VTuple); ok && len(x) == len(y) {
			o := make(VTuple, len(x))
			for i := range x {
				o[i] = j.val(x[i], y[i])
			}
			return o
		}
	case VIter:
		if y, ok := b.(VIter); ok {
			return VIter{j.val(x.m, y.m)}
		}
	case VFlt:
		if y, ok := b.(VFlt); ok {
			if y == x {
				return x
			}
			if !j.widen {
				if z := (VFlt{math.Min(x.lo, y.lo), math.Max(x.hi, y.hi)}); z != x {
					j.ch("float")
					return z
				}
				return x
			}
		}
	case VTop:
		return x
	}
	j.ch("shape")
	return VTop{}
}

// oneSide keeps a value that exists on one side only: its symbols are free on the other side.
func (j *joiner) oneSide(v Val) Val { return v }

func (j *joiner) oneSide2(v Val) Val { return v }

func elemsGet(e []arrElem, i int64) (Val, bool) {
	k := sort.Search(len(e), func(k int) bool { return e[k].i >= i })
	if k < len(e) && e[k].i == i {
		return e[k].v, true
	}
	return nil, false
}

func (j *joiner) arr(x, y *VArr) Val {
	if x == y {
		return x
	}
	o := &VArr{et: x.et}
	if x.seg != y.seg {
		if x.seg {
			j.ch("segment")
		}
		x, y = j.m.flat(j.a, x), j.m.flat(j.b, y)
	}
	if x.seg {
		o.seg, o.pos = true, j.lin(x.pos, y.pos)
		if x.pfx == nil && y.pfx != nil {
			j.ch("segment")
			o.pfx = y.pfx
		} else if y.pfx == nil {
			o.pfx = x.pfx
		} else {
			o.pfx = j.tmpl(x.pfx, y.pfx)
		}
	}
	// both rests
	xr, yr := x.rest, y.rest
	inst := func(s *State, e Val, ok bool, r *VTmpl) Val {
		if ok {
			return e
		}
		if r == nil {
			return nil
		}
		return j.m.instantiate(s, r)
	}
	if len(x.elems)+len(y.elems) > 0 {
		keys := map[int64]bool{}
		var order []int64
		for _, l := range [][]arrElem{x.elems, y.elems} {
			for _, e := range l {
				if !keys[e.i] {
					keys[e.i] = true
					order = append(order, e.i)
				}
			}
		}
		sort.Slice(order, func(a, b int) bool { return order[a] < order[b] })
		for _, i := range order {
			ex, okx := elemsGet(x.elems, i)
			ey, oky := elemsGet(y.elems, i)
			if okx && !oky && yr != nil && yr.ext || oky && !okx && xr != nil && xr.ext {
				// memoised element of an unknown array: forget
				if okx && !(xr != nil && xr.ext) {
					j.ch("elem")
				}
				if oky && !(yr != nil && yr.ext) {
					j.ch("elem")
				}
				if okx && xr != nil && xr.ext {
					continue
				}
				if oky && yr != nil && yr.ext && xr != nil && xr.ext {
					continue
				}
			}
			// an element that one side never wrote keeps the value of the other
			if !okx && xr == nil {
				j.ch("elem new")
				o.elems = append(o.elems, arrElem{i, j.oneSide(ey)})
				continue
			}
			if !oky && yr == nil {
				o.elems = append(o.elems, arrElem{i, j.oneSide2(ex)})
				continue
			}
			o.elems = append(o.elems, arrElem{i, j.val(inst(j.a, ex, okx, xr), inst(j.b, ey, oky, yr))})
		}
	}
	if x.cell != nil {
		if y.cell != nil {
			o.cell = &arrCell{j.lin(x.cell.idx, y.cell.idx), j.val(x.cell.v, y.cell.v)}
		} else {
			j.ch("cell")
		}
	}
	switch {
	case xr == nil && yr == nil:
	case xr == nil:
		j.ch("rest new")
		o.rest = j.sideTmpl(yr, j.b)
	case yr == nil:
		o.rest = j.sideTmpl(xr, j.a)
	default:
		o.rest = j.tmpl(xr, yr)
	}
	return o
}

// sideTmpl: a template known on one side only; ambient symbols must mean the same on the other side, where
// nothing constrains the template, so that it can be kept as is.
func (j *joiner) sideTmpl(t *VTmpl, s *State) *VTmpl { return t }

func (j *joiner) tmpl(x, y *VTmpl) *VTmpl {
	if x == y {
		return x
	}
	if x == nil {
		j.ch("tmpl")
		return y
	}
	if y == nil || x.ext {
		return x
	}
	if y.ext {
		j.ch("tmpl ext")
		return y
	}
	if len(x.loc) == 0 && len(y.loc) == 0 && sameConstVal(x.v, y.v) {
		return x
	}
	sa, sb := &State{num: j.a.num.clone(), mem: j.a.mem, m: j.m}, &State{num: j.b.num.clone(), mem: j.b.mem, m: j.m}
	va, vb := j.m.instantiate(sa, x), j.m.instantiate(sb, y)
	roots := map[Sym]bool{}
	// ambient symbols used by either
	w := walker{lin: func(l Lin) {
		for _, t := range l.t {
			roots[t.s] = true
		}
	}}
	w.tm(x)
	w.tm(y)
	r, ch := j.m.joinTmplStates(sa, va, sb, vb, roots, j.widen)
	if ch {
		j.ch("tmpl weaker")
		return r
	}
	return x
}

func sameConstVal(a, b Val) bool {
	return showVal(a, nil) == showVal(b, nil)
}

// solve computes the numeric part of the join over the kept symbols (the new ones included).
func (j *joiner) solve(keepRes func(Sym) bool) *Num {
	isQ := map[Sym]bool{}
	for _, p := range j.pairs {
		isQ[p.q] = true
	}
	build := func(s *State, side int) *Num {
		n := s.num.clone()
		for _, p := range j.pairs {
			l := p.la
			if side == 1 {
				l = p.lb
			}
			d, ok := V(p.q).sub(l)
			if !ok {
				continue
			}
			n.EQ(d)
		}
		return n
	}
	na, nb := build(j.a, 0), build(j.b, 1)
	// kept symbols unknown to one side are chosen there as the other side has them
	free := func(st *State, n, o *Num) {
		known := map[Sym]bool{}
		for _, c := range n.cons {
			for _, t := range c.l.t {
				known[t.s] = true
			}
		}
		for _, d := range n.neq {
			for _, t := range d.t {
				known[t.s] = true
			}
		}
		for s := range n.iv {
			known[s] = true
		}
		fr := map[Sym]bool{}
		look := func(s Sym) {
			if !known[s] && !isQ[s] && keepRes(s) {
				fr[s] = true
			}
		}
		for _, c := range o.cons {
			for _, t := range c.l.t {
				look(t.s)
			}
		}
		for s := range o.iv {
			look(s)
		}
		if len(fr) == 0 {
			return
		}
		for s := range st.roots() {
			delete(fr, s)
		}
		for s := range fr {
			if b := o.bounds(s); b != n.bounds(s) {
				n.setIv(s, b)
			}
		}
		add := func(cs []Con) {
			for _, c := range cs {
				if c.eq {
					n.EQ(c.l)
				} else {
					n.GE(c.l)
				}
			}
		}
		// relations with symbols of both sides hold if they leave the common symbols alone
		if len(fr) <= 8 {
			var mix []Con
			for _, c := range project(o.cons, func(s Sym) bool { return fr[s] || known[s] && keepRes(s) && !isQ[s] }, o.bounds) {
				hit, unit := false, true
				for _, t := range c.l.t {
					if fr[t.s] {
						hit = true
						if t.k != 1 && t.k != -1 {
							unit = false
						}
					}
				}
				if hit && unit && len(c.l.t) <= 3 {
					mix = append(mix, c)
				}
			}
			pure := project(o.cons, func(s Sym) bool { return fr[s] }, o.bounds)
			// plain orders that the projection may have missed
			var com, fl []Sym
			cs := map[Sym]bool{}
			for _, c := range coneCons(o, fr) {
				for _, t := range c.l.t {
					if !fr[t.s] && known[t.s] && keepRes(t.s) && !isQ[t.s] && !cs[t.s] {
						cs[t.s] = true
						com = append(com, t.s)
					}
				}
			}
			for s := range fr {
				fl = append(fl, s)
			}
			sort.Slice(com, func(i, k int) bool { return com[i] < com[k] })
			sort.Slice(fl, func(i, k int) bool { return fl[i] < fl[k] })
			for i, c := range com {
				if i >= 6 {
					break
				}
				for _, f := range fl {
					for _, l := range []Lin{lsub(V(c), V(f)), lsub(V(f), V(c))} {
						if len(l.t) == 2 && o.prove(l) {
							mix = append(mix, Con{l: l})
						}
					}
				}
			}
			ok := func(cs []Con) bool {
				left, ok := elimAll(cs, fr, o.bounds)
				if !ok {
					return false
				}
				for _, l := range left {
					if !n.prove(l) {
						return false
					}
				}
				return true
			}
			if len(mix) > 0 && len(mix) <= 40 {
				all := append(append([]Con(nil), pure...), mix...)
				if ok(all) {
					add(all)
					return
				}
				// otherwise one by one, possibly weakened
				acc := append([]Con(nil), pure...)
				if ok(acc) {
					for _, c := range mix {
						if c.eq {
							continue
						}
						try := []Con{c}
						if c.l.c < 0 {
							try = append(try, Con{l: Lin{t: c.l.t}})
						}
						for _, x := range try {
							if ok(append(acc[:len(acc):len(acc)], x)) {
								acc = append(acc, x)
								break
							}
						}
					}
					add(acc)
					return
				}
			}
		}
		add(project(o.cons, func(s Sym) bool { return fr[s] }, o.bounds))
	}
	var nac *Num
	if !na.bot && !nb.bot {
		nac = na.clone()
	}
	out := newNum()
	if nac != nil && j.a.fr != nil && j.b.fr != nil {
		free(j.a, na, nb)
		free(j.b, nb, nac)
	}
	if na.bot {
		// the first side is impossible
		j.ch("bottom")
	}
	// symbols the pairs are expressed with carry relations between old and new values
	via := map[Sym]bool{}
	if !j.widen && !j.inTmpl {
		for _, p := range j.pairs {
			for _, t := range p.la.t {
				if !keepRes(t.s) && len(via) < 12 {
					via[t.s] = true
				}
			}
		}
	}
	keep := func(s Sym) bool { return isQ[s] || keepRes(s) }
	ca := project(na.cons, keep, na.bounds)
	cb := project(nb.cons, keep, nb.bounds)
	if j.inTmpl && len(j.pairs) > 1 && len(j.pairs) < 12 {
		// relations between the slots that are otherwise implied through kept symbols
		for _, o := range append([]Sym{-1}, j.oldest(na, nb, isQ, keepRes)...) {
			own := func(s Sym) bool { return isQ[s] || s == o }
			ca = append(ca, project(coneCons(na, isQ), own, na.bounds)...)
			cb = append(cb, project(coneCons(nb, isQ), own, nb.bounds)...)
		}
	}
	var cva, cvb []Con
	if len(via) > 0 {
		pv := func(n *Num) (out []Con) {
			for _, c := range project(n.cons, func(s Sym) bool { return via[s] || keep(s) }, n.bounds) {
				for _, t := range c.l.t {
					if via[t.s] {
						out = append(out, c)
						break
					}
				}
			}
			return
		}
		cva, cvb = pv(na), pv(nb)
	}

	// intervals of kept symbols common to both sides
	for s, va := range na.iv {
		if !keep(s) || isQ[s] {
			continue
		}
		vb := nb.bounds(s)
		iv := Iv{min(va.lo, vb.lo), max(va.hi, vb.hi)}
		if iv != va {
			if vb.hi > va.hi && va.hi < big && nb.prove(lsub(K(va.hi), V(s))) {
				iv.hi = va.hi
			}
			if vb.lo < va.lo && va.lo > -big && nb.prove(laddc(V(s), -va.lo)) {
				iv.lo = va.lo
			}
		}
		if iv != va {
			j.ch("common interval")
			if j.widen {
				iv.hi = widenHi(j.steps(), va.hi, iv.hi)
				iv.lo = widenLo(j.steps(), va.lo, iv.lo)
			}
		}
		out.setIv(s, iv)
	}

	// late iterations: what is lost but still implied by the result does not make it weaker
	var lost []Con
	lose := func(c Con, why string) {
		if j.iter > 12 && j.widen {
			lost = append(lost, c)
		} else {
			j.ch(why)
		}
	}
	defer func() {
		for _, c := range lost {
			if j.changed {
				return
			}
			if c.eq && !out.proveEQ(c.l) {
				j.ch("eq " + c.key())
			} else if !c.eq && !out.prove(c.l) {
				j.ch("ge " + c.key())
			}
		}
	}()
	has := map[string]bool{}
	try := func(c Con, other *Num, fromA bool) {
		if len(c.l.t) > 6 {
			return
		}
		k := c.key()
		if has[k] {
			return
		}
		if c.eq {
			if other.proveEQ(c.l) {
				has[k] = true
				out.EQ(c.l)
				return
			}
			if fromA {
				lose(c, "eq "+k)
			}
			neg, ok := c.l.scale(-1)
			if other.prove(c.l) {
				out.GE(c.l)
			} else if ok && other.prove(neg) {
				out.GE(neg)
			}
			return
		}
		if other.prove(c.l) {
			has[k] = true
			out.GE(c.l)
			return
		}
		if fromA {
			lose(c, "ge "+k)
		}
		if !fromA && j.inTmpl && c.l.c < 0 && len(c.l.t) <= 3 {
			if z := (Lin{t: c.l.t}); other.prove(z) {
				out.GE(z)
			}
		}
		if fromA {
			// a weaker constant may hold
			if j.widen && c.l.c < 0 && len(c.l.t) <= 3 {
				if z := (Lin{t: c.l.t}); other.prove(z) {
					out.GE(z)
				}
			}
			if !j.widen && len(c.l.t) <= 3 {
				for _, d := range []int64{1, 2, 4, 8} {
					if other.prove(laddc(c.l, d)) {
						out.GE(laddc(c.l, d))
						break
					}
				}
			}
		}
	}
	// affine relations between pairs
	if !j.inTmpl || len(j.pairs) < 12 {
		for i := 0; i < len(j.pairs) && i < 40; i++ {
			for k := i + 1; k < len(j.pairs) && k < 40; k++ {
				j.relate(out, na, nb, j.pairs[i], j.pairs[k])
			}
		}
	}
	if !j.widen && !j.inTmpl && len(j.pairs) <= 24 {
		kept := func(l Lin) bool {
			for _, t := range l.t {
				if !keepRes(t.s) {
					return false
				}
			}
			return true
		}
		bound := func(z, ea, eb Lin) {
			// z equals ea in a and eb in b
			if !kept(ea) {
				return
			}
			d, ok := eb.sub(ea)
			if !ok || d.isConst() && d.c == 0 {
				return
			}
			zz, ok := z.sub(ea)
			if !ok {
				return
			}
			if nb.prove(d) {
				out.GE(zz)
			} else if n, ok := d.scale(-1); ok && nb.prove(n) {
				out.GE(mustNeg(zz))
			}
		}
		// a symbol whose bounds differ between the sides may go along with a pair of constants
		var diff []Sym
		for s := range na.iv {
			if keepRes(s) && !isQ[s] && na.bounds(s) != nb.bounds(s) {
				diff = append(diff, s)
			}
		}
		for s := range nb.iv {
			if _, ok := na.iv[s]; !ok && keepRes(s) && !isQ[s] && na.bounds(s) != nb.bounds(s) {
				diff = append(diff, s)
			}
		}
		sort.Slice(diff, func(i, k int) bool { return diff[i] < diff[k] })
		if len(diff) <= 8 {
			for _, p := range j.pairs {
				if !p.la.isConst() || !p.lb.isConst() {
					continue
				}
				for _, s := range diff {
					a, b := na.bounds(s), nb.bounds(s)
					// the line through both points
					if d, e := p.la.c-p.lb.c, a.lo-b.lo; e != 0 && a.lo > -big && b.lo > -big && d%e == 0 && d/e > 1 && d/e <= 64 {
						if z, ok := comb(V(s), d/e, V(p.q), -1); ok {
							out.GE(laddc(z, p.la.c-d/e*a.lo))
						}
					}
					if (a.lo-b.lo)*(p.la.c-p.lb.c) > 0 && a.lo > -big && b.lo > -big {
						out.GE(lsub(laddc(V(s), -min(a.lo-p.la.c, b.lo-p.lb.c)), V(p.q)))
					}
					if (a.hi-b.hi)*(p.la.c-p.lb.c) > 0 && a.hi < big && b.hi < big {
						out.GE(lsub(laddc(V(p.q), max(a.hi-p.la.c, b.hi-p.lb.c)), V(s)))
					}
				}
			}
		}
		for i, p := range j.pairs {
			if !p.la.isConst() {
				bound(V(p.q), p.la, p.lb)
			}
			for _, q := range j.pairs[:i] {
				for _, sg := range []int64{1, -1} {
					ea, ok1 := comb(p.la, 1, q.la, sg)
					eb, ok2 := comb(p.lb, 1, q.lb, sg)
					z, ok3 := comb(V(p.q), 1, V(q.q), sg)
					if ok1 && ok2 && ok3 {
						bound(z, ea, eb)
					}
				}
			}
		}
	}
	if !j.widen && !j.inTmpl {
		j.counters(out, na, nb)
	}
	for _, c := range ca {
		try(c, nb, true)
	}
	if !j.widen && !j.inTmpl {
		// constraints on the sums that pairs stand for
		for _, c := range j.sums(j.a.num, 0, keep) {
			ch, why := j.changed, j.why
			try(c, nb, true)
			j.changed, j.why = ch, why
		}
		for _, c := range j.sums(j.b.num, 1, keep) {
			try(c, na, false)
		}
	}
	for _, c := range cva {
		ch, why := j.changed, j.why
		try(c, nb, true)
		j.changed, j.why = ch, why
	}
	for _, c := range cvb {
		try(c, na, false)
	}
	if !j.widen {
		for _, c := range cb {
			try(c, na, false)
		}
	}
	for _, f := range j.filled {
		if na.prove(f.a) {
			if nb.prove(f.b) {
				out.GE(f.r)
			} else {
				j.ch("empty")
			}
		}
	}
	// disequalities
	for _, d := range na.neq {
		ok := true
		for _, t := range d.t {
			if !keep(t.s) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if nb.proveNE(d) {
			out.NE(d)
		} else {
			j.ch("ne")
		}
	}
	for _, d := range nb.neq {
		ok := true
		for _, t := range d.t {
			if !keep(t.s) {
				ok = false
			}
		}
		if ok && na.proveNE(d) {
			out.NE(d)
		}
	}
	return out
}

// sums rewrites the constraints of a side that contain the sum of symbols a pair stands for.
func (j *joiner) sums(n *Num, side int, keep func(Sym) bool) (out []Con) {
	for _, p := range j.pairs {
		l := p.la
		if side == 1 {
			l = p.lb
		}
		if len(l.t) < 1 || len(l.t) > 3 {
			continue
		}
	next:
		for _, c := range n.cons {
			if c.eq {
				continue
			}
			k := int64(0)
			for _, t := range c.l.t {
				if t.s == p.q {
					continue next
				}
				if t.s == l.t[0].s && t.k%l.t[0].k == 0 {
					k = t.k / l.t[0].k
				}
			}
			if k == 0 {
				continue
			}
			for _, t := range l.t {
				if c.l.coef(t.s) != k*t.k {
					continue next
				}
			}
			x, ok := comb(c.l, 1, l, -k)
			if !ok {
				continue
			}
			if x, ok = comb(x, 1, V(p.q), k); !ok {
				continue
			}
			for _, t := range x.t {
				if !keep(t.s) {
					continue next
				}
			}
			if len(out) < 24 {
				out = append(out, Con{l: x})
			}
		}
	}
	return out
}

// oldest returns the oldest kept symbols tied to the slots, such as the length of an input.
func (j *joiner) oldest(na, nb *Num, isQ map[Sym]bool, keepRes func(Sym) bool) []Sym {
	all := map[Sym]bool{}
	for _, n := range []*Num{na, nb} {
		for _, c := range coneCons(n, isQ) {
			for _, t := range c.l.t {
				if !isQ[t.s] && keepRes(t.s) {
					all[t.s] = true
				}
			}
		}
	}
	var l []Sym
	for s := range all {
		l = append(l, s)
	}
	sort.Slice(l, func(i, k int) bool { return l[i] < l[k] })
	if len(l) > 3 {
		l = l[:3]
	}
	return l
}

// elimAll eliminates symbols exactly; it gives up rather than lose a constraint.
func elimAll(cons []Con, dead map[Sym]bool, bounds func(Sym) Iv) ([]Lin, bool) {
	var ls []Lin
	for _, c := range cons {
		ls = append(ls, c.l)
		if c.eq {
			n, ok := c.l.scale(-1)
			if !ok {
				return nil, false
			}
			ls = append(ls, n)
		}
	}
	var syms []Sym
	for s := range dead {
		syms = append(syms, s)
		b := bounds(s)
		if b.lo > -big {
			ls = append(ls, laddc(V(s), -b.lo))
		}
		if b.hi < big {
			ls = append(ls, lsub(K(b.hi), V(s)))
		}
	}
	sort.Slice(syms, func(i, k int) bool { return syms[i] < syms[k] })
	for _, s := range syms {
		var P, N, R []Lin
		for _, l := range ls {
			switch k := l.coef(s); {
			case k > 0:
				P = append(P, l)
			case k < 0:
				N = append(N, l)
			default:
				R = append(R, l)
			}
		}
		if len(P)*len(N) > 400 {
			return nil, false
		}
		seen := map[string]bool{}
		for _, p := range P {
			for _, m := range N {
				x, ok := comb(p, -m.coef(s), m, p.coef(s))
				if !ok {
					return nil, false
				}
				x = x.tighten()
				if x.isConst() && x.c >= 0 {
					continue
				}
				if k := x.key(); !seen[k] {
					seen[k] = true
					R = append(R, x)
				}
			}
		}
		if len(R) > 200 {
			return nil, false
		}
		ls = R
	}
	return ls, true
}

// counters bounds the slots that grow by the slots that step by a constant.
func (j *joiner) counters(out, na, nb *Num) {
	var cnt, mov []joinPair
	for _, p := range j.pairs {
		d, ok := p.lb.sub(p.la)
		if !ok {
			continue
		}
		if d.isConst() {
			if d.c != 0 && abs64(d.c) <= 8 && len(cnt) < 8 {
				cnt = append(cnt, p)
			}
			continue
		}
		ra, rb := na.bounds(p.q), nb.bounds(p.q)
		if (rb.hi > ra.hi || rb.lo < ra.lo) && len(mov) < 8 {
			mov = append(mov, p)
		}
	}
	for _, p := range mov {
		for _, q := range cnt {
			d, _ := q.lb.sub(q.la)
			k := int64(1)
			if d.c < 0 {
				k = -1
			}
			for _, sg := range []int64{-1, 1} {
				// p + sg*k*q: upper bound for sg == -1, lower bound for sg == 1
				ea, ok1 := comb(p.la, 1, q.la, sg*k)
				eb, ok2 := comb(p.lb, 1, q.lb, sg*k)
				z, ok3 := comb(V(p.q), 1, V(q.q), sg*k)
				if !ok1 || !ok2 || !ok3 {
					continue
				}
				r := na.rng(ea)
				if sg < 0 && r.hi < big {
					if x, ok := K(r.hi).sub(eb); ok && nb.prove(x) {
						if y, ok := K(r.hi).sub(z); ok {
							out.GE(y)
						}
					}
				}
				if sg > 0 && r.lo > -big {
					if x, ok := eb.sub(K(r.lo)); ok && nb.prove(x) {
						if y, ok := z.sub(K(r.lo)); ok {
							out.GE(y)
						}
					}
				}
			}
		}
	}
}

func (j *joiner) relate(out, na, nb *Num, p, q joinPair) {
	dp, ok1 := p.lb.sub(p.la)
	dq, ok2 := q.lb.sub(q.la)
	if !ok1 || !ok2 {
		return
	}
	if dp.isConst() != dq.isConst() {
		p.la, p.lb, q.la, q.lb = na.fixed(p.la), nb.fixed(p.lb), na.fixed(q.la), nb.fixed(q.lb)
		dp, ok1 = p.lb.sub(p.la)
		dq, ok2 = q.lb.sub(q.la)
		if !ok1 || !ok2 {
			return
		}
	}
	add := func(kp, kq int64) {
		x, ok := comb(p.la, kp, q.la, kq)
		y, ok2 := comb(p.lb, kp, q.lb, kq)
		if !ok || !ok2 || !x.eq(y) {
			return
		}
		z, ok := comb(V(p.q), kp, V(q.q), kq)
		if !ok {
			return
		}
		if z, ok = z.sub(x); ok {
			out.EQ(z)
		}
	}
	if dp.isConst() && dq.isConst() && dp.c != 0 && dq.c != 0 {
		g := gcd(dp.c, dq.c)
		if g < 0 {
			g = -g
		}
		kp, kq := dq.c/g, -dp.c/g
		if abs64(kp) < 1<<30 && abs64(kq) < 1<<30 {
			add(kp, kq)
		}
		return
	}
	if dp.isConst() != dq.isConst() {
		return
	}
	add(1, -1)
	add(1, 1)
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// joinStates joins two states at the same program point. changed tells that the result is weaker than a.
func joinStates(m *Mach, a, b *State, widen bool) (*State, bool, *joiner) {
	return joinIter(m, a, b, widen, 0)
}

func joinIter(m *Mach, a, b *State, widen bool, iter int) (*State, bool, *joiner) {
	j := newJoiner(m, a, b)
	j.widen = widen
	j.iter = iter
	// a and b may get instantiations
	a, b = a.clone(), b.clone()
	j.a, j.b = a, b
	out := &State{m: m, mem: map[ObjID]Val{}, memo: map[string]Lin{}}
	out.past = a.past && b.past
	if a.tags == b.tags {
		out.tags = a.tags
	}
	for i := range a.fr {
		fa, fb := a.fr[i], b.fr[i]
		if fa == fb {
			out.fr = append(out.fr, fa)
			continue
		}
		f := &Frame{fi: fa.fi, ctx: fa.ctx, vals: make([]Val, len(fa.vals))}
		if len(fa.keep) > 0 && len(fa.keep) == len(fb.keep) && &fa.keep[0] == &fb.keep[0] {
			f.keep = fa.keep
		}
		for k := range fa.vals {
			f.vals[k] = j.val(fa.vals[k], fb.vals[k])
		}
		out.fr = append(out.fr, f)
	}
	// objects
	objs := map[ObjID]Val{}
	for o, v := range a.mem {
		objs[o] = v
	}
	for o, v := range b.mem {
		objs[o] = v
	}
	for _, o := range sortObjs(objs) {
		va, oka := a.mem[o]
		vb, okb := b.mem[o]
		if !oka || !okb {
			if _, g := m.globals[o]; g || objTab[o].ext {
				if !oka {
					va = m.content(a, o)
				}
				if !okb {
					vb = m.content(b, o)
				}
			} else if oka {
				// exists on one side only: nothing on the other side refers to it
				out.mem[o] = va
				continue
			} else {
				j.ch("object " + objTab[o].name)
				out.mem[o] = vb
				continue
			}
		}
		out.mem[o] = j.val(va, vb)
	}
	if len(a.ghost) > 0 {
		out.ghost = map[string]Lin{}
		var ks []string
		for k := range a.ghost {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if lb, ok := b.ghost[k]; ok {
				out.ghost[k] = j.lin(a.ghost[k], lb)
			} else {
				j.ch("ghost")
			}
		}
	}
	r := out.roots()
	out.num = j.solve(func(s Sym) bool { return r[s] })
	for k, l := range a.memo {
		if lb, ok := b.memo[k]; ok && l.eq(lb) {
			out.memo[k] = l
		}
	}
	for k, v := range a.sfact {
		if b.sfact[k] == v {
			if out.sfact == nil {
				out.sfact = map[string]string{}
			}
			out.sfact[k] = v
		} else {
			j.ch("sfact")
		}
	}
	out.fr[len(out.fr)-1] = out.wtop()
	return out, j.changed, j
}
