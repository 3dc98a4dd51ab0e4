package main

// The abstract interpreter proper: a fixpoint over the control flow graph of each function, entered again at each call
// site, with states kept apart by the nilness of live values and by the outcome of calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type wElem struct {
	b    *ssa.BasicBlock
	body []wElem
	loop bool
	in   map[*ssa.BasicBlock]bool // blocks of the component
}

type fnInfo struct {
	fn       *ssa.Function
	num      map[ssa.Value]int
	n        int
	liveIn   [][]bool // per block, includes its phis
	wto      []wElem
	after    map[ssa.Instruction][]bool
	instrNum map[ssa.Instruction]int
	steps    []int64 // widening thresholds
	// loads of captured variables that never change, done by an earlier load
	again map[ssa.Instruction]bool
}

type oblKey struct {
	in   ssa.Instruction
	kind string
}

type obl struct {
	ok     bool
	n      int
	detail string
	ctx    int
}

type buffer struct {
	obls  map[oblKey]*obl
	calls map[*ssa.Function]int
	loops map[ssa.Instruction]*obl
}

func newBuffer() *buffer {
	return &buffer{map[oblKey]*obl{}, map[*ssa.Function]int{}, map[ssa.Instruction]*obl{}}
}

func (b *buffer) merge(o *buffer) {
	for k, v := range o.obls {
		if e, ok := b.obls[k]; ok {
			e.n += v.n
			if !v.ok && e.ok {
				e.ok, e.detail, e.ctx = false, v.detail, v.ctx
			}
		} else {
			b.obls[k] = v
		}
	}
	for k, v := range o.calls {
		b.calls[k] += v
	}
	for k, v := range o.loops {
		if e, ok := b.loops[k]; ok {
			e.n += v.n
			if !v.ok && e.ok {
				e.ok, e.detail, e.ctx = false, v.detail, v.ctx
			}
		} else {
			b.loops[k] = v
		}
	}
}

type ctxInfo struct {
	parent int
	call   ssa.Instruction
	fn     *ssa.Function
}

// Mach is the interpreter.
type Mach struct {
	r        *Repo
	info     map[*ssa.Function]*fnInfo
	globals  map[ObjID]Val
	pinned   []ObjID
	buf      *buffer
	ctxs     []ctxInfo
	ctxIDs   map[string]int
	stack    []*ssa.Function
	gaps     map[string]int // constructs handled by an unknown value
	errs     []string
	steps    int
	maxSteps int

	unroll    bool // keep states with different small integer constants apart (C06)
	checkTerm bool
	checkMem  bool
	driver    string
	checkFill bool // copies must be complete (C05)
	noBits    bool // enter the bit readers instead of using their contracts (C06)
	inInit    bool
	exts      map[string]int
	inputs    map[ObjID]bool
	inLens    []Sym // lengths of the inputs
	trace     bool
	traceFn   string
	maxKeys   int
	nameLen   int // calls give a name to slice lengths of more terms than this (0: never)
	onCall    func(m *Mach, st *State, in ssa.CallInstruction, callee *ssa.Function, args []Val) ([]callOut, bool)
	iterMax   int
	loopCache map[string][]keyed
	loopRuns  map[string]int
	pastMake  bool // see State.past
	sticky    bool // keep states apart by the boolean results of calls
	pure      map[*ssa.Function]bool
	cellKeys  bool // values of captured state variables keep states apart
	cells     []ObjID
	cutNames  map[string]bool // replacements in force
	handlers  map[string]*boxWalk
	cur       ssa.Instruction
	invAssert bool
	invAt     ssa.Instruction
	invCtx    int
}

type callOut struct {
	st  *State
	res []Val
}

func newMach(r *Repo) *Mach {
	m := &Mach{r: r, info: map[*ssa.Function]*fnInfo{}, globals: map[ObjID]Val{}, buf: newBuffer(), ctxIDs: map[string]int{},
		gaps: map[string]int{}, inputs: map[ObjID]bool{}, maxSteps: 30_000_000, maxKeys: 8, nameLen: 1, loopCache: map[string][]keyed{}, loopRuns: map[string]int{}, pure: map[*ssa.Function]bool{}}
	m.ctxs = append(m.ctxs, ctxInfo{})
	return m
}

func (m *Mach) ctx(parent int, call ssa.Instruction, fn *ssa.Function) int {
	k := fmt.Sprintf("%d|%p|%p", parent, call, fn)
	if c, ok := m.ctxIDs[k]; ok {
		return c
	}
	m.ctxs = append(m.ctxs, ctxInfo{parent, call, fn})
	m.ctxIDs[k] = len(m.ctxs) - 1
	return len(m.ctxs) - 1
}

func (m *Mach) ctxPath(c int) string {
	var parts []string
	for c > 0 {
		i := m.ctxs[c]
		if i.call != nil {
			parts = append(parts, m.r.Pos(i.call.Pos()))
		} else {
			parts = append(parts, FName(i.fn))
		}
		c = i.parent
	}
	if len(parts) > 5 {
		parts = append(parts[:4:4], "...", parts[len(parts)-1])
	}
	return strings.Join(parts, " <- ")
}

// ---- function preparation

// earlierLoad finds a load, always done before, of the same captured variable, when it is assigned once, before the capture.
func earlierLoad(u *ssa.UnOp) *ssa.UnOp {
	fv, ok := u.X.(*ssa.FreeVar)
	if !ok || !isInt(u.Type()) || !constCapture(fv) {
		return nil
	}
	for _, r := range *fv.Referrers() {
		w, ok := r.(*ssa.UnOp)
		if !ok || w == u {
			continue
		}
		if w.Block() != u.Block() && w.Block().Dominates(u.Block()) {
			if first := earlierLoad(w); first != nil {
				return first
			}
			return w
		}
		if w.Block() == u.Block() {
			for _, in := range u.Block().Instrs {
				if in == ssa.Instruction(u) {
					break
				}
				if in == ssa.Instruction(w) {
					if first := earlierLoad(w); first != nil {
						return first
					}
					return w
				}
			}
		}
	}
	return nil
}

func constCapture(fv *ssa.FreeVar) bool {
	fn := fv.Parent()
	for _, r := range *fv.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return false
		}
	}
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			n++
			al, ok := mc.Bindings[idx].(*ssa.Alloc)
			if !ok {
				return false
			}
			stores := 0
			for _, r := range *al.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr != ssa.Value(al) || !r.Block().Dominates(mc.Block()) {
						return false
					}
					stores++
				case *ssa.UnOp:
				case *ssa.MakeClosure:
					if r != mc {
						return false
					}
				default:
					return false
				}
			}
			if stores > 1 {
				return false
			}
		}
	}
	return n == 1
}

func (m *Mach) fnInfo(fn *ssa.Function) *fnInfo {
	if fi, ok := m.info[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, after: map[ssa.Instruction][]bool{}, instrNum: map[ssa.Instruction]int{},
		again: map[ssa.Instruction]bool{}}
	m.info[fn] = fi
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	k := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.instrNum[in] = k
			k++
			if v, ok := in.(ssa.Value); ok {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if w := earlierLoad(u); w != nil {
						if i, ok := fi.num[w]; ok {
							fi.num[u] = i
							fi.again[in] = true
							continue
						}
					}
				}
				add(v)
			}
		}
	}
	// liveness
	nb := len(fn.Blocks)
	liveIn := make([][]bool, nb)
	liveOut := make([][]bool, nb)
	for i := range liveIn {
		liveIn[i] = make([]bool, fi.n)
		liveOut[i] = make([]bool, fi.n)
	}
	use := func(set []bool, v ssa.Value) {
		if i, ok := fi.num[v]; ok {
			set[i] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := make([]bool, fi.n)
			for _, s := range b.Succs {
				for j, x := range liveIn[s.Index] {
					if x {
						out[j] = true
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					out[fi.num[phi]] = false
				}
			}
			for _, s := range b.Succs {
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
						for _, in := range s.Instrs {
							phi, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							use(out, phi.Edges[pi])
						}
					}
				}
			}
			copy(liveOut[i], out)
			cur := out
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						cur[fi.num[v]] = fi.again[in]
					}
				}
				if phi, ok := in.(*ssa.Phi); ok {
					cur[fi.num[phi]] = true // phis belong to the live set of their block
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op != nil && *op != nil {
						use(cur, *op)
					}
				}
			}
			for j := range cur {
				if cur[j] != liveIn[i][j] {
					changed = true
					liveIn[i] = append([]bool(nil), cur...)
					break
				}
			}
		}
	}
	fi.liveIn = liveIn
	// live sets after calls
	for i, b := range fn.Blocks {
		cur := append([]bool(nil), liveOut[i]...)
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			in := b.Instrs[k]
			if _, ok := in.(ssa.CallInstruction); ok {
				fi.after[in] = append([]bool(nil), cur...)
			}
			if v, ok := in.(ssa.Value); ok {
				cur[fi.num[v]] = fi.again[in]
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			var ops [16]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if op != nil && *op != nil {
					use(cur, *op)
				}
			}
		}
	}
	if rc := fn.Signature.Recv(); rc != nil && m.r.invs[rc.Type().String()] != nil {
		for i := range fi.liveIn {
			fi.liveIn[i][0] = true
		}
		for _, l := range fi.after {
			l[0] = true
		}
	}
	fi.wto = wtoOf(fn)
	set := map[int64]bool{}
	for _, s := range widenSteps {
		set[s] = true
	}
	addC := func(c int64) {
		if c >= 0 && c < 1<<40 {
			set[c] = true
			set[c+1] = true
			if c > 0 {
				set[c-1] = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && isCmp(bo.Op) {
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil && isInt(c.Type()) {
						if i, ok := constVal(c).(VInt); ok && i.l.isConst() {
							addC(i.l.c)
						}
					}
				}
			}
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if p, ok := ia.X.Type().Underlying().(*types.Pointer); ok {
					if a, ok := p.Elem().Underlying().(*types.Array); ok {
						addC(a.Len())
					}
				}
			}
		}
	}
	for s := range set {
		fi.steps = append(fi.steps, s)
	}
	sort.Slice(fi.steps, func(i, j int) bool { return fi.steps[i] < fi.steps[j] })
	return fi
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

// wtoOf computes a weak topological order (Bourdoncle).
func wtoOf(fn *ssa.Function) []wElem {
	dfn := map[*ssa.BasicBlock]int{}
	const inf = 1 << 30
	num := 0
	var stack []*ssa.BasicBlock
	var visit func(v *ssa.BasicBlock, part *[]wElem) int
	var component func(v *ssa.BasicBlock) wElem
	prepend := func(p *[]wElem, e wElem) { *p = append([]wElem{e}, *p...) }
	component = func(v *ssa.BasicBlock) wElem {
		var part []wElem
		for _, s := range v.Succs {
			if dfn[s] == 0 {
				visit(s, &part)
			}
		}
		e := wElem{b: v, body: part, loop: true, in: map[*ssa.BasicBlock]bool{v: true}}
		var addAll func(l []wElem)
		addAll = func(l []wElem) {
			for _, x := range l {
				e.in[x.b] = true
				addAll(x.body)
			}
		}
		addAll(part)
		return e
	}
	visit = func(v *ssa.BasicBlock, part *[]wElem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range v.Succs {
			var mn int
			if dfn[s] == 0 {
				mn = visit(s, part)
			} else {
				mn = dfn[s]
			}
			if mn <= head {
				head = mn
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				prepend(part, component(v))
			} else {
				prepend(part, wElem{b: v})
			}
		}
		return head
	}
	var out []wElem
	if len(fn.Blocks) > 0 {
		visit(fn.Blocks[0], &out)
	}
	return out
}

// ---- function execution

type keyed struct {
	key string
	st  *State
}

type outEdge struct {
	b  *ssa.BasicBlock // nil: return
	st *State
	rv []Val
}

type fexec struct {
	m    *Mach
	fi   *fnInfo
	ctx  int
	pend map[*ssa.BasicBlock][]keyed
	outs []callOut
	// innermost component under iteration
	comp  []wElem
	stash [][]outEdge
}

func (m *Mach) step() {
	m.steps++
	if m.steps > m.maxSteps {
		panic(fmt.Sprintf("step limit reached in %v", m.stackNames()))
	}
}

func (m *Mach) stackNames() string {
	var s []string
	for _, f := range m.stack {
		s = append(s, FName(f))
	}
	return strings.Join(s, " > ")
}

// run executes a function whose frame is on top of the state.
func (m *Mach) run(fi *fnInfo, ctx int, st *State) []callOut {
	x := &fexec{m: m, fi: fi, ctx: ctx, pend: map[*ssa.BasicBlock][]keyed{}}
	m.stack = append(m.stack, fi.fn)
	m.buf.calls[fi.fn]++
	x.pend[fi.fn.Blocks[0]] = []keyed{{"", st}}
	x.elems(fi.wto)
	m.stack = m.stack[:len(m.stack)-1]
	return x.outs
}

func (x *fexec) elems(l []wElem) {
	for _, e := range l {
		if e.loop {
			x.loop(e)
		} else {
			sts := x.pend[e.b]
			delete(x.pend, e.b)
			for _, k := range sts {
				x.block(e.b, k.st)
			}
		}
	}
}

// cellKey spells the values of state variables: captured variables to which only constants are assigned.
func (m *Mach) cellKey(st *State) string {
	k := ""
	for _, o := range m.cells {
		if v, ok := st.mem[o].(VInt); ok && v.l.isConst() {
			k += fmt.Sprintf("{s%d}", v.l.c)
		}
	}
	return k
}

func containsObj(l []ObjID, o ObjID) bool {
	for _, x := range l {
		if x == o {
			return true
		}
	}
	return false
}

// stateCell tells whether a variable is shared with function literals and only assigned constants.
func stateCell(al *ssa.Alloc) bool {
	if b, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	captured := false
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if _, ok := u.Val.(*ssa.Const); !ok || u.Addr != v {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				captured = true
				f := u.Fn.(*ssa.Function)
				for i, b := range u.Bindings {
					if b == v && !walk(f.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return walk(al) && captured
}

// key of a state at a block: what keeps it apart from the others.
func (x *fexec) key(st *State, b *ssa.BasicBlock) string {
	var sb strings.Builder
	sb.WriteString(st.tags)
	if st.past {
		sb.WriteByte('*')
	}
	if x.m.cellKeys {
		sb.WriteString(x.m.cellKey(st))
	}
	f := st.top()
	live := x.fi.liveIn[b.Index]
	bit := func(l Lin) byte {
		if l.isConst() {
			return byte('0' + l.c)
		}
		r := st.num.rng(l)
		if r.lo == r.hi {
			return byte('0' + r.lo)
		}
		return '?'
	}
	for i, v := range f.vals {
		if v == nil || !live[i] {
			continue
		}
		switch v := v.(type) {
		case VPtr:
			sb.WriteByte(bit(v.nn))
		case VSlice:
			sb.WriteByte(bit(v.nn))
		case VIface:
			sb.WriteByte(bit(v.nn))
			if len(v.alts) == 1 && !v.open {
				sb.WriteString(v.alts[0].t.String())
			}
		case VFunc:
			sb.WriteByte(bit(v.nn))
		case VBool:
			l, ok := VInt{}, false
			_ = l
			_ = ok
			if v.l.isConst() {
				sb.WriteByte(byte('0' + evalBool(st.num, v)))
			} else {
				r := st.num.rng(v.l)
				switch {
				case v.k == cGE && r.lo >= 0, v.k == cEQ && r.lo == 0 && r.hi == 0, v.k == cNE && (r.lo > 0 || r.hi < 0):
					sb.WriteByte('1')
				case v.k == cGE && r.hi < 0, v.k == cNE && r.lo == 0 && r.hi == 0, v.k == cEQ && (r.lo > 0 || r.hi < 0):
					sb.WriteByte('0')
				default:
					sb.WriteByte('?')
				}
			}
		case VInt:
			if x.m.unroll && v.l.isConst() && v.l.c >= -2 && v.l.c <= 130 {
				fmt.Fprintf(&sb, "i%d", v.l.c)
			}
		}
	}
	if x.m.unroll {
		for _, o := range sortObjs(st.mem) {
			if v, ok := st.mem[o].(VInt); ok && v.l.isConst() {
				fmt.Fprintf(&sb, "m%d", v.l.c)
			}
		}
	}
	return sb.String()
}

func (x *fexec) push(from, to *ssa.BasicBlock, st *State) {
	if st.bot() {
		return
	}
	// phis
	var phis []*ssa.Phi
	var vals []Val
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
			break
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, x.m.eval(st, phi.Edges[pi]))
	}
	if len(phis) > 0 {
		f := st.wtop()
		for i, p := range phis {
			f.vals[x.fi.num[p]] = vals[i]
		}
	}
	st.lc = nil
	if len(to.Preds) > 1 {
		st.vc = nil
	}
	st.prune(x.fi.liveIn[to.Index])
	if n := len(x.comp); n > 0 && !x.comp[n-1].in[to] {
		x.stash[n-1] = append(x.stash[n-1], outEdge{b: to, st: st})
		return
	}
	x.enqueue(to, st)
}

func (x *fexec) enqueue(to *ssa.BasicBlock, st *State) {
	n := len(x.comp)
	if n > 0 && !x.comp[n-1].in[to] {
		x.stash[n-1] = append(x.stash[n-1], outEdge{b: to, st: st})
		return
	}
	if len(to.Preds) > 1 {
		st.gc()
	}
	if st.bot() {
		return
	}
	if st.tags != "" {
		for _, p := range to.Preds {
			if to.Dominates(p) {
				st.tags = ""
			}
		}
	}
	k := x.key(st, to)
	l := x.pend[to]
	for i := range l {
		if l[i].key == k || l[i].key == "*" {
			j, _, _ := joinStates(x.m, l[i].st, st, false)
			if x.m.traceFn != "" && strings.Contains(FName(x.fi.fn), x.m.traceFn) && os.Getenv("VT_JOIN") != "" {
				fmt.Println("JOIN at block", to.Index, "A:\n"+l[i].st.show()+"B:\n"+st.show()+"=\n"+j.show())
			}
			l[i].st = j
			return
		}
	}
	l = append(l, keyed{k, st})
	limit := x.m.maxKeys
	if x.m.unroll {
		limit = 140
	}
	if len(l) > limit {
		m := l[0].st
		for _, o := range l[1:] {
			m, _, _ = joinStates(x.m, m, o.st, false)
		}
		l = []keyed{{"*", m}}
	}
	x.pend[to] = l
}

func (x *fexec) ret(st *State, rv []Val) {
	if st.bot() {
		return
	}
	if f := x.recvInv(); f != nil && len(rv) > 0 {
		if e, ok := rv[len(rv)-1].(VIface); ok {
			if r := st.num.rng(e.nn); r.lo == 0 && r.hi == 0 {
				if p, ok := st.top().vals[0].(VPtr); ok {
					x.m.invAt = x.m.cur
					x.m.invCtx = x.ctx
					x.m.applyInv(st, f, p, true)
					if st.bot() {
						return
					}
				}
			}
		}
	}
	if n := len(x.comp); n > 0 {
		x.stash[n-1] = append(x.stash[n-1], outEdge{st: st, rv: rv})
		return
	}
	x.outs = append(x.outs, callOut{st, rv})
}

// recvInv returns the invariant that a method must establish for its receiver when it succeeds.
func (x *fexec) recvInv() *ssa.Function {
	rc := x.fi.fn.Signature.Recv()
	if rc == nil || len(x.m.r.invs) == 0 {
		return nil
	}
	return x.m.r.invs[rc.Type().String()]
}

func (x *fexec) loop(e wElem) {
	init := x.pend[e.b]
	delete(x.pend, e.b)
	if len(init) == 0 {
		return
	}
	m := x.m
	var H []keyed
	for _, k := range init {
		k.st.gc()
		H = append(H, keyed{k.key, k.st})
	}
	// a previous fixpoint that covers the entry is reused
	ck := fmt.Sprintf("%d|%d", x.ctx, e.b.Index)
	if m.checkTerm {
		var gs []string
		for g := range H[0].st.ghost {
			gs = append(gs, g)
		}
		sort.Strings(gs)
		ck += "|" + strings.Join(gs, ",")
	}
	if prev, ok := m.loopCache[ck]; ok {
		all := true
		for _, h := range H {
			found := false
			for _, p := range prev {
				if p.key == h.key || p.key == "*" {
					if sameUpper(p.st, h.st) {
						if _, ch, _ := joinStates(m, p.st, h.st, false); !ch {
							found = true
						}
					}
				}
			}
			if !found {
				all = false
			}
		}
		if all {
			H = nil
			for _, p := range prev {
				H = append(H, p)
			}
		} else if m.loopRuns[ck]++; m.loopRuns[ck] > loopRunMax && !m.unroll {
			// entered too often: start from the previous fixpoint
			for i, h := range H {
				for _, p := range prev {
					if p.key == h.key && sameUpper(p.st, h.st) {
						j, _, _ := joinStates(m, p.st, h.st, m.loopRuns[ck] > 2*loopRunMax)
						j.gc()
						H[i].st = j
					}
				}
			}
		}
	}
	saved := m.buf
	widened := false
	narrowed := 0
	var stable *loopPass
	born := map[string]int{} // when a key was first seen (state variables: keys appear one after the other)
	for iter := 0; ; iter++ {
		m.buf = newBuffer()
		back, edges := x.pass(e, H)
		changed := false
		newH := append([]keyed(nil), H...)
		for _, b := range back {
			b.st.gc()
			if b.st.bot() {
				continue
			}
			found := false
			for i := range newH {
				if newH[i].key == b.key || newH[i].key == "*" || b.key == "*" {
					found = true
					ki := iter - born[newH[i].key]
					j, ch, jn := joinIter(m, newH[i].st, b.st, ki >= 3, ki)
					if ch {
						if ki >= 3 {
							widened = true
						}
						if m.trace {
							fmt.Printf("%sloop %s block %d iter %d: changed (%s)\n", strings.Repeat(" ", len(m.stack)), FName(x.fi.fn), e.b.Index, iter, jn.why)
						}
						j.gc()
						newH[i].st = j
						changed = true
						if m.traceFn != "" && strings.Contains(FName(x.fi.fn), m.traceFn) {
							fmt.Println(j.show())
						}
					}
					break
				}
			}
			if !found {
				newH = append(newH, keyed{b.key, b.st})
				if m.cellKeys {
					born[b.key] = iter
				}
				changed = true
			}
		}
		limit := m.maxKeys
		maxIter := 20
		if m.cellKeys {
			maxIter = 100
		}
		if m.unroll {
			limit = 140
		}
		if len(newH) > limit || (iter > maxIter && len(newH) > 1 && !m.unroll) {
			s := newH[0].st
			for _, o := range newH[1:] {
				s, _, _ = joinStates(m, s, o.st, iter >= 3)
			}
			s.gc()
			newH = []keyed{{"*", s}}
			changed = true
		}
		if !changed && widened && narrowed < 2 {
			// narrowing: a descending step, kept if it is inductive again
			narrowed++
			if nh := x.narrow(init, H, back); nh != nil {
				stable = &loopPass{H, back, edges, m.buf}
				H = nh
				continue
			}
		}
		if changed && stable != nil {
			// the narrowed state is not inductive
			H, back, edges, m.buf = stable.H, stable.back, stable.edges, stable.buf
			changed = false
			narrowed = 2
		}
		if !changed {
			saved.merge(m.buf)
			m.buf = saved
			if m.checkTerm {
				x.rank(e, H)
			}
			for _, o := range edges {
				if o.b == nil {
					x.ret(o.st, o.rv)
				} else {
					x.enqueue(o.b, o.st)
				}
			}
			m.loopCache[ck] = H
			return
		}
		H = newH
		if iter > 60 && !m.unroll || iter > 400 {
			panic(fmt.Sprintf("no fixpoint at a loop of %s (block %d)", FName(x.fi.fn), e.b.Index))
		}
	}
}

// pass executes the body of a loop once from the given states.
func (x *fexec) pass(e wElem, H []keyed) (back []keyed, edges []outEdge) {
	x.comp = append(x.comp, e)
	x.stash = append(x.stash, nil)
	for _, h := range H {
		x.block(e.b, h.st.clone())
	}
	x.elems(e.body)
	back = x.pend[e.b]
	delete(x.pend, e.b)
	for b := range e.in {
		delete(x.pend, b)
	}
	n := len(x.comp) - 1
	edges = x.stash[n]
	x.comp, x.stash = x.comp[:n], x.stash[:n]
	return back, edges
}

// loopRunMax is how many times a loop is analysed from scratch in a context.
const loopRunMax = 100000

// loopPass is the outcome of one pass over a loop.
type loopPass struct {
	H, back []keyed
	edges   []outEdge
	buf     *buffer
}

// narrow joins the entry states with the states of the back edges again, without widening.
func (x *fexec) narrow(init, H, back []keyed) []keyed {
	m := x.m
	cover := func(key string) string {
		for _, h := range H {
			if h.key == key {
				return key
			}
		}
		for _, h := range H {
			if h.key == "*" {
				return "*"
			}
		}
		return key
	}
	var out []keyed
	add := func(k keyed) {
		if k.st.bot() {
			return
		}
		key := cover(k.key)
		for i := range out {
			if out[i].key == key {
				j, _, _ := joinStates(m, out[i].st, k.st, false)
				j.gc()
				out[i].st = j
				return
			}
		}
		out = append(out, keyed{key, k.st})
	}
	for _, k := range init {
		add(k)
	}
	for _, k := range back {
		add(k)
	}
	// nothing gained
	for i := range out {
		same := false
		for _, h := range H {
			if h.key == out[i].key && x.same(h.st, out[i].st) {
				same = true
			}
		}
		if !same {
			return out
		}
	}
	return nil
}

// same tells that narrowing brought nothing.
func (x *fexec) same(a, b *State) bool {
	if !sameUpper(a, b) {
		return false
	}
	_, ch, _ := joinStates(x.m, b, a, false)
	return !ch
}

func sameUpper(a, b *State) bool {
	if len(a.fr) != len(b.fr) {
		return false
	}
	for i := range a.fr {
		if a.fr[i].fi != b.fr[i].fi || a.fr[i].ctx != b.fr[i].ctx {
			return false
		}
	}
	return true
}

// block executes a block from its first non-phi instruction.
func (x *fexec) block(b *ssa.BasicBlock, st *State) {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	x.from(b, i, st)
}

func (x *fexec) from(b *ssa.BasicBlock, i int, st *State) {
	m := x.m
	for ; i < len(b.Instrs); i++ {
		if st.bot() {
			return
		}
		m.step()
		in := b.Instrs[i]
		m.cur = in
		switch in := in.(type) {
		case *ssa.Jump:
			x.push(b, b.Succs[0], st)
			return
		case *ssa.If:
			c, ok := m.eval(st, in.Cond).(VBool)
			if !ok {
				c = unkBool()
			}
			switch evalBool(st.num, c) {
			case 1:
				m.assume(st, c)
				x.push(b, b.Succs[0], st)
			case 0:
				m.assume(st, c.not())
				x.push(b, b.Succs[1], st)
			default:
				t := st.clone()
				m.assume(t, c)
				x.push(b, b.Succs[0], t)
				m.assume(st, c.not())
				x.push(b, b.Succs[1], st)
			}
			return
		case *ssa.Return:
			rv := make([]Val, len(in.Results))
			for k, r := range in.Results {
				rv[k] = m.eval(st, r)
			}
			x.ret(st, rv)
			return
		case *ssa.Panic:
			m.record(in, "panic", false, "an explicit panic is reachable", x.ctx)
			return
		case *ssa.Call:
			keep := false
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				if st.vc != nil {
					if f := in.Call.StaticCallee(); f != nil && m.writesNothing(f, 0) {
						keep = true
						st.wtop().keep = st.vc
					}
				}
				var lc []elemCache
				if ok && b.Name() == "copy" && !hasRef(in.Call.Args[0].Type().Underlying().(*types.Slice).Elem()) {
					for _, c := range st.lc { // numbers are copied: slices stay what they are
						if c.whole {
							lc = append(lc, c)
						}
					}
				}
				st.lc, st.vc = lc, nil
			}
			outs := m.call(x, st, in)
			if keep {
				for _, o := range outs {
					if !o.st.bot() {
						f := o.st.wtop()
						o.st.vc, f.keep = f.keep, nil
					}
				}
			}
			for k, o := range outs {
				if o.st.bot() {
					continue
				}
				var v Val
				switch in.Call.Signature().Results().Len() {
				case 0:
				case 1:
					if len(o.res) > 0 {
						v = o.res[0]
					}
				default:
					v = VTuple(o.res)
					if m.sticky {
						for ri, r := range o.res {
							if b, ok := r.(VBool); ok {
								if e := evalBool(o.st.num, b); e >= 0 {
									o.st.tags = fmt.Sprintf("%s{%d.%d.%d=%d}", o.st.tags, x.ctx, x.fi.instrNum[in], ri, e)
								}
							}
						}
					}
				}
				if v != nil {
					o.st.set(in, v)
				}
				if k == len(outs)-1 {
					st = o.st
				} else {
					x.from(b, i+1, o.st)
				}
			}
			if len(outs) == 0 || outs[len(outs)-1].st.bot() {
				return
			}
			continue
		}
		forks := m.instr(x, st, in)
		for _, f := range forks {
			if !f.bot() {
				x.from(b, i+1, f)
			}
		}
	}
}

func (m *Mach) assume(st *State, c VBool) {
	switch c.k {
	case cGE:
		st.num.GE(c.l)
	case cEQ:
		st.num.EQ(c.l)
	case cNE:
		st.num.NE(c.l)
	}
}

// record stores the verdict of an obligation.
func (m *Mach) record(in ssa.Instruction, kind string, ok bool, detail string, ctx int) {
	k := oblKey{in, kind}
	e := m.buf.obls[k]
	if e == nil {
		e = &obl{ok: true}
		m.buf.obls[k] = e
	}
	e.n++
	if !ok && e.ok {
		e.ok, e.detail, e.ctx = false, detail, ctx
	}
}

// need checks l >= 0 and assumes it afterwards.
func (m *Mach) need(x *fexec, st *State, in ssa.Instruction, kind string, l Lin, detail func() string) {
	if st.bot() {
		return
	}
	if st.past && (kind == "index" || kind == "slice") {
		kind += "*"
	}
	ok := st.num.prove(l)
	d := ""
	if !ok {
		d = detail()
		if m.trace {
			d += " | " + m.explain(st, l)
			if m.traceFn != "" && strings.Contains(FName(x.fi.fn), m.traceFn) {
				fmt.Println("FAIL", kind, l.key())
				fmt.Println(st.show())
			}
		}
	}
	m.record(in, kind, ok, d, x.ctx)
	if !ok {
		st.num.GE(l)
	}
}

func (m *Mach) explain(st *State, l Lin) string {
	s := "need " + l.key() + ">=0;"
	cur := map[Sym]bool{}
	for _, t := range l.t {
		cur[t.s] = true
	}
	for _, c := range coneCons(st.num, cur) {
		s += " " + c.key()
		for _, t := range c.l.t {
			cur[t.s] = true
		}
	}
	var ks []int
	for k := range cur {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		b := st.num.bounds(Sym(k))
		s += fmt.Sprintf(" s%d:[%s,%s]", k, showB(b.lo), showB(b.hi))
	}
	return s
}

// ---- operands

func (m *Mach) eval(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		o := m.globalObj(v)
		return VPtr{nn: K(1), tg: []Tgt{{o: o}}}
	case *ssa.Function:
		return VFunc{nn: K(1), alts: []FnAlt{{fn: v}}}
	case *ssa.Builtin:
		return VTop{}
	}
	f := st.top()
	i, ok := f.fi.num[v]
	if !ok {
		return VTop{}
	}
	r := f.vals[i]
	if r == nil {
		// a value without content: undefined on this path
		r = m.unknownVal(st, v.Type(), "undef:"+v.Name(), true, 0)
		m.gaps["undefined value "+v.Name()+" in "+FName(f.fi.fn)]++
	}
	return r
}

func (m *Mach) globalObj(g *ssa.Global) ObjID {
	name := "global:" + g.String()
	t := g.Type().(*types.Pointer).Elem()
	if o, ok := objByName[name]; ok {
		return o
	}
	own := g.Pkg != nil && IsRepoPath(g.Pkg.Pkg.Path())
	o := internObj(name, t, !own, false)
	if own {
		m.globals[o] = zeroVal(t)
		if m.inInit {
			m.pinned = append(m.pinned, o)
		}
	} else {
		// exported variables of other packages: sentinel errors and the like are not nil
		if _, ok := t.Underlying().(*types.Interface); ok {
			m.globals[o] = VIface{nn: K(1), open: true}
		} else {
			tmp := &State{m: m, mem: map[ObjID]Val{}, num: newNum()}
			m.globals[o] = m.unknownVal(tmp, t, name, true, 0)
		}
	}
	return o
}

func (m *Mach) evalInt(st *State, v ssa.Value) Lin {
	switch x := m.eval(st, v).(type) {
	case VInt:
		return x.l
	case VBool:
		if l, ok := bit01(st.num, x); ok {
			return l
		}
	}
	if iv, ok := intRange(v.Type()); ok {
		return fresh(iv)
	}
	return fresh(fullIv)
}

func posOf(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	if v, ok := in.(ssa.Value); ok {
		if r := v.Referrers(); r != nil {
			for _, q := range *r {
				if q.Pos().IsValid() && q.Block() == in.Block() {
					return q.Pos()
				}
			}
		}
	}
	// nearest instruction of the block
	found := false
	var best token.Pos
	for _, q := range in.Block().Instrs {
		if q == in {
			found = true
		}
		if q.Pos().IsValid() {
			best = q.Pos()
			if found {
				return best
			}
		}
	}
	if best.IsValid() {
		return best
	}
	return in.Parent().Pos()
}

// show prints the top frame and the constraints (debugging).
func (st *State) show() string {
	f := st.top()
	var b strings.Builder
	type nv struct {
		n string
		v Val
	}
	var l []nv
	for v, i := range f.fi.num {
		if f.vals[i] != nil {
			l = append(l, nv{v.Name(), f.vals[i]})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	for _, x := range l {
		fmt.Fprintf(&b, "      %s = %s\n", x.n, showVal(x.v, st.num))
	}
	for _, o := range sortObjs(st.mem) {
		if objTab[o].input || strings.Contains(objTab[o].name, ".init@") {
			continue
		}
		fmt.Fprintf(&b, "      [%s] = %s\n", objTab[o].name, showVal(st.mem[o], st.num))
	}
	for _, c := range st.num.cons {
		fmt.Fprintf(&b, "      | %s\n", c.key())
	}
	for _, c := range st.num.neq {
		fmt.Fprintf(&b, "      | %s != 0\n", c.key())
	}
	return b.String()
}

// writesNothing: a function without effects on memory that existed before.
func (m *Mach) writesNothing(f *ssa.Function, depth int) bool {
	if v, ok := m.pure[f]; ok {
		return v
	}
	if f.Pkg != nil && !IsRepoPath(f.Pkg.Pkg.Path()) || f.Blocks == nil {
		switch f.String() {
		case "fmt.Errorf", "errors.New", "fmt.Sprintf":
			return true
		}
		return false
	}
	if depth > 4 {
		return false
	}
	m.pure[f] = false
	local := func(v ssa.Value) bool {
		for {
			switch a := v.(type) {
			case *ssa.FieldAddr:
				v = a.X
			case *ssa.IndexAddr:
				v = a.X
			case *ssa.Slice:
				v = a.X
			case *ssa.Alloc:
				return true
			default:
				return false
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !local(in.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Select:
				return false
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max":
						continue
					}
					return false
				}
				g := in.Call.StaticCallee()
				if g == nil || !m.writesNothing(g, depth+1) {
					return false
				}
			}
		}
	}
	m.pure[f] = true
	return true
}
