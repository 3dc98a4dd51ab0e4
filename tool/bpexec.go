package main

// Evaluation of the layout analysis: functions are entered at each call, paths are kept apart by the decisions that the
// description of the values leaves open, loops over collections of unknown length are summarised (bploop.go).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bpViol struct {
	msg  string
	pos  token.Pos
	path string
}

type bp struct {
	r       *Repo
	globals map[*ssa.Global]int
	nobj    int
	nfresh  int
	steps   int
	limit   int
	viols   []bpViol
	asserts map[string]int
	paths   int
	inInit  bool
	tables  bool            // constant tables: one path for each element
	initObj int             // objects up to this number were made by package initialisation
	cur     ssa.Instruction // for messages
	// steps at which the attempt to summarise a loop is given up
	sumLimit int
	stack    []*ssa.Function
	loops    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	fns      map[string]bool
	nsum     int
	exts     map[string]bool
	track    bool
	ndepth   int
	strict   bool // an index that is certainly out of range leaves the driver undecided
	dead     bool
	marks    bool // start codes are where the driver says
	exact    bool // a copy of unknown room is both complete and partial
}

var bpProf map[string]int

type bfr struct {
	fn   *ssa.Function
	vals map[ssa.Value]SV
	runs []*bloopRun
	iter map[*ssa.BasicBlock]int
}

func (f *bfr) clone() *bfr {
	o := &bfr{fn: f.fn, vals: make(map[ssa.Value]SV, len(f.vals)+8), runs: f.runs, iter: make(map[*ssa.BasicBlock]int, len(f.iter))}
	for k, v := range f.vals {
		o.vals[k] = v
	}
	for k, v := range f.iter {
		o.iter[k] = v
	}
	return o
}

type bout struct {
	st  *sst
	res []SV
}

func (e *bp) get(fr *bfr, st *sst, v ssa.Value) SV {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &SFn{fn: x}
	case *ssa.Builtin:
		return &SFn{fn: x}
	case *ssa.Global:
		id := e.globals[x]
		if id == 0 {
			t := x.Type().(*types.Pointer).Elem()
			var c SV
			if x.Pkg != nil && IsRepoPath(x.Pkg.Pkg.Path()) && e.inInit {
				c = e.zero(t)
			} else {
				c = e.sym("global "+x.String(), t)
			}
			if e.inInit {
				id = e.alloc(st, c)
				e.globals[x] = id
			} else {
				return &SPtr{name: "global " + x.String(), typ: t}
			}
		}
		return &SPtr{obj: id, typ: x.Type().(*types.Pointer).Elem()}
	}
	r, ok := fr.vals[v]
	if !ok {
		e.fail("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (e *bp) num(fr *bfr, st *sst, v ssa.Value) *T {
	x := e.get(fr, st, v)
	if t, ok := x.(*T); ok {
		return st.res(t)
	}
	if a, ok := x.(SAny); ok {
		lo, hi := typeRange(v.Type())
		return e.fresh("any "+a.why+" ", lo, hi)
	}
	e.fail("%s is a %T, not a number", v.Name(), x)
	return nil
}

// call evaluates a function.
func (e *bp) call(fn *ssa.Function, args []SV, bind []SV, st *sst) []bout {
	if fn.Blocks == nil {
		e.fail("no body: %s", fn)
	}
	n := 0
	for _, f := range e.stack {
		if f == fn {
			n++
		}
	}
	if n > 12 || len(e.stack) > 100 {
		e.fail("recursion in %s", fn)
	}
	if isRepoFn(fn) || fn.Parent() != nil {
		e.fns[FName(fn)] = true
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &bfr{fn: fn, vals: map[ssa.Value]SV{}, iter: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.vals[fv] = bind[i]
	}
	return e.from(fr, fn.Blocks[0], 0, st)
}

// goTo follows an edge.
func (e *bp) goTo(fr *bfr, p, q *ssa.BasicBlock, st *sst) []bout {
	if n := len(fr.runs); n > 0 {
		r := fr.runs[n-1]
		if q == r.header {
			r.backs = append(r.backs, bedge{fr, p, q, st})
			return nil
		}
		if !r.body[q] {
			r.exits = append(r.exits, bedge{fr, p, q, st})
			return nil
		}
	}
	if body := e.loopsOf(fr.fn)[q]; body != nil {
		if !body[p] {
			if outs, ok := e.summarise(fr, p, q, body, st); ok {
				return outs
			}
			fr.iter[q] = 0
		} else {
			fr.iter[q]++
			if fr.iter[q] > 400 {
				e.fail("loop at %s is not bounded by what is known", e.r.Pos(posOfBlock(q)))
			}
		}
	}
	return e.enter(fr, p, q, st)
}

func posOfBlock(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

func (e *bp) enter(fr *bfr, p, q *ssa.BasicBlock, st *sst) []bout {
	k := predIndex(q, p)
	var vs []SV
	n := 0
	for _, in := range q.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, e.get(fr, st, phi.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.vals[q.Instrs[i].(*ssa.Phi)] = vs[i]
	}
	return e.from(fr, q, n, st)
}

// fork follows a condition both ways as far as both are possible.
func (e *bp) fork(st *sst, c *T, f func(st *sst, truth bool) []bout) []bout {
	switch st.decide(c) {
	case 1:
		return f(st, true)
	case 0:
		return f(st, false)
	}
	var outs []bout
	s2 := st.clone()
	if st.assume(c, true) {
		outs = append(outs, f(st, true)...)
	}
	if s2.assume(c, false) {
		outs = append(outs, f(s2, false)...)
	}
	return outs
}

func (e *bp) from(fr *bfr, b *ssa.BasicBlock, i int, st *sst) []bout {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if bpProf != nil {
			bpProf[fmt.Sprintf("%s b%d d%d", FName(b.Parent()), b.Index, e.ndepth)]++
		}
		if e.steps > e.limit {
			e.fail("too many steps")
		}
		if e.sumLimit > 0 && e.steps > e.sumLimit {
			e.fail("too many steps to summarise a loop")
		}
		in := b.Instrs[i]
		e.cur = in
		switch x := in.(type) {
		case *ssa.If:
			c := e.num(fr, st, x.Cond)
			switch st.decide(c) {
			case 1:
				return e.goTo(fr, b, b.Succs[0], st)
			case 0:
				return e.goTo(fr, b, b.Succs[1], st)
			}
			f2 := fr.clone()
			first := true
			return e.fork(st, c, func(s *sst, truth bool) []bout {
				f := fr
				if !first {
					f = f2
				}
				first = false
				fr2 := f
				if truth {
					return e.goTo(fr2, b, b.Succs[0], s)
				}
				if fr2 == fr {
					return e.goTo(fr2, b, b.Succs[1], s)
				}
				return e.goTo(fr2, b, b.Succs[1], s)
			})
		case *ssa.Jump:
			return e.goTo(fr, b, b.Succs[0], st)
		case *ssa.Return:
			var rs []SV
			for _, v := range x.Results {
				rs = append(rs, e.get(fr, st, v))
			}
			return []bout{{st, rs}}
		case *ssa.Panic:
			return nil
		case *ssa.RunDefers, *ssa.DebugRef:
		case *ssa.Defer:
			e.fail("defer")
		case *ssa.Call:
			outs, done := e.doCall(fr, x, st)
			if done { // single result in the same state
				continue
			}
			var res []bout
			for j, o := range outs {
				f := fr
				if j < len(outs)-1 {
					f = fr.clone()
				}
				switch x.Call.Signature().Results().Len() {
				case 0:
				case 1:
					f.vals[x] = o.res[0]
				default:
					f.vals[x] = STuple(o.res)
				}
				res = append(res, e.from(f, b, i+1, o.st)...)
			}
			return res
		case *ssa.Lookup:
			if outs := e.lookup(fr, x, st); outs != nil {
				var res []bout
				for j, o := range outs {
					f := fr
					if j < len(outs)-1 {
						f = fr.clone()
					}
					f.vals[x] = o.res[0]
					res = append(res, e.from(f, b, i+1, o.st)...)
				}
				return res
			}
		case *ssa.IndexAddr, *ssa.Index:
			if v, x, vals := e.tableEntries(fr, in, st); vals != nil {
				var res []bout
				for j, o := range vals {
					f, s := fr, st
					if j < len(vals)-1 {
						f, s = fr.clone(), st.clone()
					}
					if s.assume(s.cmp("eq0", tsub(x, tk(o.i))), true) {
						f.vals[v] = o.v
						res = append(res, e.from(f, b, i+1, s)...)
					}
				}
				return res
			}
			e.instr(fr, in, st)
			if e.dead { // a panic: the path ends
				e.dead = false
				return nil
			}
		default:
			e.instr(fr, in, st)
		}
	}
	e.fail("end of block")
	return nil
}

type tabEntry struct {
	i int64
	v SV
}

// tableEntries lists the elements of a constant table that an unknown index may select; each is followed on a path of its own.
func (e *bp) tableEntries(fr *bfr, in ssa.Instruction, st *sst) (ssa.Value, *T, []tabEntry) {
	if !e.tables {
		return nil, nil, nil
	}
	var v ssa.Value
	var xi ssa.Value
	n := int64(0)
	var at func(k int64) SV
	switch x := in.(type) {
	case *ssa.IndexAddr:
		v, xi = x, x.Index
		switch s := e.get(fr, st, x.X).(type) {
		case *SSlice:
			if s.arr != nil && s.arr.obj != 0 && s.arr.obj <= e.initObj && s.ln.isC() && s.off.isC() {
				n = s.ln.c
				at = func(k int64) SV { return e.ptrAdd(s.arr, pstep{f: -1, x: tk(s.off.c + k)}) }
			}
		case *SPtr:
			if a, ok := e.load(st, s).(*SArr); ok && s.obj != 0 && (s.obj <= e.initObj || constArr(a)) {
				n = a.n
				at = func(k int64) SV { return e.ptrAdd(s, pstep{f: -1, x: tk(k)}) }
			}
		}
	case *ssa.Index:
		v, xi = x, x.Index
		if a, ok := e.get(fr, st, x.X).(*SArr); ok && constArr(a) {
			n = a.n
			at = func(k int64) SV { return e.arrGet(st, a, tk(k)) }
		}
	}
	if n == 0 || n > 64 {
		return nil, nil, nil
	}
	i := e.num(fr, st, xi)
	if i.isC() {
		return nil, nil, nil
	}
	out := []tabEntry{}
	for k := int64(0); k < n; k++ {
		if st.decide(st.cmp("eq0", tsub(i, tk(k)))) != 0 {
			out = append(out, tabEntry{k, at(k)})
		}
	}
	return v, i, out
}

// constArr: every element was given a constant.
func constArr(a *SArr) bool {
	if a.name != "" || a.junk || a.b != nil || int64(len(a.el)) != a.n {
		return false
	}
	for _, el := range a.el {
		t, ok := el.v.(*T)
		if !el.x.isC() || !ok || !t.isC() {
			return false
		}
	}
	return true
}

// lookup in a constant map: one path for each key it may be.
func (e *bp) lookup(fr *bfr, x *ssa.Lookup, st *sst) []bout {
	wrap := func(v SV, ok int64) []SV {
		if x.CommaOk {
			return []SV{STuple{v, tk(ok)}}
		}
		return []SV{v}
	}
	m, isM := e.get(fr, st, x.X).(*SMap)
	if isM {
		m = st.mapOf(m)
	}
	if !isM || m.name != "" {
		if s, ok := e.get(fr, st, x.X).(SStr); ok && s.known {
			if i := e.num(fr, st, x.Index); i.isC() && int(i.c) < len(s.s) {
				return []bout{{st, []SV{tk(int64(s.s[i.c]))}}}
			}
			return []bout{{st, []SV{e.fresh("char", 0, 255)}}}
		}
		v := SV(SAny{"map element"})
		if _, _, ok := intInfo(x.Type()); ok {
			v = e.sym("map element", x.Type())
		}
		if x.CommaOk {
			return []bout{{st, []SV{STuple{v, e.fresh("ok", 0, 1)}}}}
		}
		return []bout{{st, []SV{v}}}
	}
	el := x.X.Type().Underlying().(*types.Map).Elem()
	k := e.get(fr, st, x.Index)
	var outs []bout
	for i := range m.keys {
		eq, c := st.sameKey(k, m.keys[i])
		switch {
		case eq == 1:
			return append(outs, bout{st, wrap(m.vals[i], 1)})
		case eq == 0:
			continue
		case c == nil:
			return append(outs, bout{st, wrap(SAny{"map element"}, 0)})
		}
		s := st.clone()
		if s.assume(c, true) {
			outs = append(outs, bout{s, wrap(m.vals[i], 1)})
		}
		if !st.assume(c, false) {
			return outs
		}
	}
	return append(outs, bout{st, wrap(e.zero(el), 0)})
}

func (e *bp) fit(st *sst, t *T, typ types.Type) *T {
	w, _, ok := intInfo(typ)
	if !ok || w == 64 {
		return t
	}
	lo, hi := st.rg(t)
	tl, th := typeRange(typ)
	if lo >= tl && hi <= th {
		return t
	}
	return e.wrap(st, t, typ)
}

func (e *bp) wrap(st *sst, t *T, typ types.Type) *T {
	w, signed, _ := intInfo(typ)
	if t.isC() {
		v := t.c & (1<<w - 1)
		if signed && v>>(w-1) == 1 {
			v -= 1 << w
		}
		return tk(v)
	}
	t = unwrap(t, 1<<w)
	if lo, hi := st.rgIneq(t); w < 64 {
		if l, h := typeRange(typ); lo >= l && hi <= h {
			return t
		}
	}
	bs := st.bitsOf(t, w)
	if signed && bs[w-1].k != 0 {
		lo, hi := typeRange(typ)
		return top_(fmt.Sprintf("sext%d", w), lo, hi, st.normBits(bs))
	}
	return st.normBits(bs)
}

func (e *bp) conv(st *sst, t *T, from, to types.Type) *T {
	t = st.res(t)
	lo, hi := st.rg(t)
	tl, th := typeRange(to)
	if lo >= tl && hi <= th {
		return t
	}
	w, signed, _ := intInfo(to)
	fw, fs, _ := intInfo(from)
	if w == 64 {
		if signed && !fs && fw == 64 {
			return t // values above 2^63 are not considered
		}
		if !signed && lo < 0 {
			return st.normBits(st.bitsOf(t, 64))
		}
		return t
	}
	return e.wrap(st, t, to)
}

func (e *bp) bitop(st *sst, op token.Token, x, y *T, w int) *T {
	a, b := st.bitsOf(x, w), st.bitsOf(y, w)
	out := make([]Bit, w)
	for i := range out {
		out[i] = e.bit2(st, op, a[i], b[i])
	}
	return st.normBits(out)
}

func (e *bp) bit2(st *sst, op token.Token, a, b Bit) Bit {
	bt := func(x Bit) *T { return st.normBits([]Bit{x}) }
	mk := func(n string) Bit {
		x, y := bt(a), bt(b)
		if x.id > y.id {
			x, y = y, x
		}
		return Bit{k: 2, t: top_(n, 0, 1, x, y)}
	}
	switch op {
	case token.AND:
		switch {
		case a.k == 0 || b.k == 0:
			return Bit{}
		case a.k == 1:
			return b
		case b.k == 1 || a == b:
			return a
		}
		return mk("and")
	case token.OR:
		switch {
		case a.k == 1 || b.k == 1:
			return Bit{k: 1}
		case a.k == 0:
			return b
		case b.k == 0 || a == b:
			return a
		}
		return mk("or")
	case token.XOR:
		switch {
		case a.k < 2 && b.k < 2:
			return Bit{k: a.k ^ b.k}
		case a.k == 0:
			return b
		case b.k == 0:
			return a
		case a == b:
			return Bit{}
		}
		return mk("xor")
	case token.AND_NOT:
		switch {
		case b.k == 1 || a.k == 0:
			return Bit{}
		case b.k == 0:
			return a
		}
		x, y := bt(a), bt(b)
		return Bit{k: 2, t: top_("andnot", 0, 1, x, y)}
	}
	return Bit{k: 2, t: e.fresh("bit", 0, 1)}
}

func (e *bp) binop(fr *bfr, st *sst, in *ssa.BinOp) SV {
	xv, yv := e.get(fr, st, in.X), e.get(fr, st, in.Y)
	x, okx := xv.(*T)
	y, oky := yv.(*T)
	if !okx || !oky {
		if in.Op == token.EQL || in.Op == token.NEQ {
			c := e.eq(st, xv, yv)
			if in.Op == token.NEQ {
				c = tsub(tk(1), c)
			}
			return c
		}
		if in.Op == token.ADD {
			if a, ok := xv.(SStr); ok {
				b, ok2 := yv.(SStr)
				if ok2 && a.known && b.known {
					return SStr{known: true, s: a.s + b.s}
				}
				return SStr{name: "concatenation", args: []SV{xv, yv}}
			}
		}
		if w, _, ok := intInfo(in.Type()); ok {
			lo, hi := typeRange(in.Type())
			if w == 1 {
				lo, hi = 0, 1
			}
			return e.fresh("op", lo, hi)
		}
		return SAny{"operation"}
	}
	x, y = st.res(x), st.res(y)
	w, signed, _ := intInfo(in.X.Type())
	switch in.Op {
	case token.ADD:
		return e.fit(st, tadd(x, y), in.Type())
	case token.SUB:
		return e.fit(st, tsub(x, y), in.Type())
	case token.MUL:
		if x.isC() {
			x, y = y, x
		}
		if y.isC() {
			return e.fit(st, tmulc(x, y.c), in.Type())
		}
		if x.id > y.id {
			x, y = y, x
		}
		lo, hi := typeRange(in.Type())
		xl, xh := st.rg(x)
		yl, yh := st.rg(y)
		if xl >= 0 && yl >= 0 {
			lo = 0
			if xh < 1<<30 && yh < 1<<30 {
				hi = min(hi, xh*yh)
			}
		}
		return top_("mul", lo, hi, x, y)
	case token.QUO, token.REM:
		lo, hi := typeRange(in.Type())
		if y.isC() && y.c > 0 {
			if l, _ := st.rg(x); l >= 0 {
				if in.Op == token.QUO {
					return st.divmod("div", x, y.c)
				}
				return st.divmod("mod", x, y.c)
			}
			if x.isC() {
				if in.Op == token.QUO {
					return tk(x.c / y.c)
				}
				return tk(x.c % y.c)
			}
		}
		return top_(in.Op.String(), lo, hi, x, y)
	case token.SHL:
		if y.isC() {
			if x.isC() {
				if y.c >= int64(w) {
					return tk(0)
				}
				if y.c < 61 {
					if r := mulInf(x.c, 1<<y.c); r < tInf && r > -tInf {
						return e.fit(st, tk(r), in.Type())
					}
				}
			}
			bs := st.bitsOf(x, w)
			if y.c >= int64(w) {
				return tk(0)
			}
			bs = append(make([]Bit, y.c), bs[:w-int(y.c)]...)
			if signed && bs[w-1].k != 0 {
				if w == 64 {
					if lo, _ := st.rg(x); lo >= 0 {
						bs[w-1] = Bit{}
						for k := w - 1; k >= 0 && k >= 62; k-- {
							bs[k] = Bit{}
						}
						return st.normBits(bs)
					}
				}
				lo, hi := typeRange(in.Type())
				return top_(fmt.Sprintf("sext%d", w), lo, hi, st.normBits(bs))
			}
			return st.normBits(bs)
		}
		lo, hi := typeRange(in.Type())
		if x.isC() && lo < 0 {
			lo = 0
		}
		return top_("shl", lo, hi, x, y)
	case token.SHR:
		if y.isC() {
			if y.c >= int64(w) {
				return tk(0)
			}
			if l, _ := st.rg(x); l >= 0 && y.c < 61 {
				return st.divmod("div", x, 1<<y.c)
			}
			if y.c < 61 {
				return st.divmod("div", x, 1<<y.c)
			}
		}
		lo, hi := typeRange(in.Type())
		if l, _ := st.rg(x); l >= 0 {
			lo = 0
		}
		return top_("shr", lo, hi, x, y)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		xl, _ := st.rg(x)
		yl, _ := st.rg(y)
		if xl >= 0 && yl >= 0 || in.Op == token.AND && (xl >= 0 || yl >= 0) {
			return e.bitop(st, in.Op, x, y, w)
		}
		lo, hi := typeRange(in.Type())
		return top_(in.Op.String(), lo, hi, x, y)
	case token.EQL, token.NEQ:
		c := st.cmp("eq0", tsub(x, y))
		if in.Op == token.NEQ {
			c = tsub(tk(1), c)
		}
		return c
	case token.LSS:
		return st.cmp("lt0", tsub(x, y))
	case token.GTR:
		return st.cmp("lt0", tsub(y, x))
	case token.LEQ:
		return tsub(tk(1), st.cmp("lt0", tsub(y, x)))
	case token.GEQ:
		return tsub(tk(1), st.cmp("lt0", tsub(x, y)))
	}
	e.fail("operation %s", in.Op)
	return nil
}

// eq is the equality of two values.
func (e *bp) eq(st *sst, x, y SV) *T {
	if a, ok := x.(SStr); ok {
		if b, ok := y.(SStr); ok {
			if a.known && b.known {
				if a.s == b.s {
					return tk(1)
				}
				return tk(0)
			}
			if !a.known && !b.known && a.name == b.name && a.args == nil {
				return tk(1)
			}
			n := []string{e.show(st, a), e.show(st, b)}
			sort.Strings(n)
			return tatom("eq "+strings.Join(n, " "), 0, 1)
		}
	}
	nil_ := func(v SV) bool {
		switch z := v.(type) {
		case *SPtr:
			return z.obj == 0 && z.name == ""
		case *SSlice:
			return z.arr == nil
		case *SIface:
			return z.typ == nil
		case *SFn:
			return z.fn == nil
		case *SMap:
			return z.keys == nil && z.name == ""
		}
		return false
	}
	if nil_(y) {
		return e.isNil(st, x)
	}
	if nil_(x) {
		return e.isNil(st, y)
	}
	switch a := x.(type) {
	case *SPtr:
		if b, ok := y.(*SPtr); ok {
			if a.obj == b.obj && a.name == b.name && fmt.Sprint(a.path) == fmt.Sprint(b.path) {
				return tk(1)
			}
			return tk(0)
		}
	case *SIface:
		if b, ok := y.(*SIface); ok {
			if !types.Identical(a.typ, b.typ) {
				return tk(0)
			}
			if a.typ == bpErrType {
				if r := errIs(a, b, false); r >= 0 {
					return tk(int64(r))
				}
				return e.fresh("same error", 0, 1)
			}
			return e.eq(st, a.v, b.v)
		}
	case *T:
		if b, ok := y.(*T); ok {
			return st.cmp("eq0", tsub(st.res(a), st.res(b)))
		}
	case *SStruct:
		if b, ok := y.(*SStruct); ok {
			if ok, _ := e.same(st, a, b); ok {
				return tk(1)
			}
			for i := range a.f {
				if i < len(b.f) && st.decide(e.eq(st, a.f[i], b.f[i])) == 0 {
					return tk(0)
				}
			}
		}
	case *SArr:
		if b, ok := y.(*SArr); ok {
			if ok, _ := e.same(st, a, b); ok {
				return tk(1)
			}
			if a.b != nil && b.b != nil {
				for i := int64(0); i < max(a.n, b.n)*8; i++ {
					p, q := e.readBit(st, a, tk(i)), e.readBit(st, b, tk(i))
					if p.k < 2 && q.k < 2 && p.k != q.k {
						return tk(0)
					}
				}
			}
		}
	}
	return e.fresh("eq", 0, 1)
}

func (e *bp) ptrAdd(p *SPtr, s pstep) *SPtr {
	return &SPtr{obj: p.obj, name: p.name, typ: p.typ, path: append(append([]pstep{}, p.path...), s)}
}

func (e *bp) instr(fr *bfr, in ssa.Instruction, st *sst) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		fr.vals[x] = &SPtr{obj: e.alloc(st, e.zero(t)), typ: t}
	case *ssa.BinOp:
		fr.vals[x] = e.binop(fr, st, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			switch p := e.get(fr, st, x.X).(type) {
			case *SPtr:
				fr.vals[x] = e.load(st, p)
			case SAny:
				fr.vals[x] = e.anyOf(p.why, x.Type())
			default:
				e.fail("load through %T", p)
			}
		case token.NOT:
			fr.vals[x] = tsub(tk(1), e.num(fr, st, x.X))
		case token.SUB:
			fr.vals[x] = e.fit(st, tmulc(e.num(fr, st, x.X), -1), x.Type())
		case token.XOR:
			t := e.num(fr, st, x.X)
			w, _, _ := intInfo(x.Type())
			if l, _ := st.rg(t); l >= 0 {
				bs := st.bitsOf(t, w)
				for i, b := range bs {
					if b.k < 2 {
						bs[i].k = 1 - b.k
					} else {
						bs[i] = Bit{k: 2, t: top_("not", 0, 1, st.normBits([]Bit{b}))}
					}
				}
				fr.vals[x] = st.normBits(bs)
			} else {
				lo, hi := typeRange(x.Type())
				fr.vals[x] = top_("not", lo, hi, t)
			}
		default:
			e.fail("operation %s", x.Op)
		}
	case *ssa.Store:
		if p, ok := e.get(fr, st, x.Addr).(*SPtr); ok {
			e.store(st, p, e.get(fr, st, x.Val))
		}
	case *ssa.FieldAddr:
		switch p := e.get(fr, st, x.X).(type) {
		case *SPtr:
			fr.vals[x] = e.ptrAdd(p, pstep{f: x.Field})
		default:
			fr.vals[x] = SAny{"field"}
		}
	case *ssa.Field:
		switch s := e.get(fr, st, x.X).(type) {
		case *SStruct:
			fr.vals[x] = s.f[x.Field]
		default:
			fr.vals[x] = e.anyOf("field", x.Type())
		}
	case *ssa.IndexAddr:
		i := e.num(fr, st, x.Index)
		switch s := e.get(fr, st, x.X).(type) {
		case *SSlice:
			if s.arr == nil {
				e.fail("index of a nil slice at %s", e.r.Pos(x.Pos()))
			}
			if st.decide(st.cmp("lt0", tsub(i, s.ln))) == 0 || st.decide(st.cmp("lt0", i)) == 1 {
				if e.strict {
					e.fail("index out of range at %s", e.r.Pos(x.Pos()))
				}
				e.dead = true
				return
			}
			fr.vals[x] = e.ptrAdd(s.arr, pstep{f: -1, x: st.res(tadd(s.off, i))})
		case *SPtr:
			fr.vals[x] = e.ptrAdd(s, pstep{f: -1, x: i})
		default:
			fr.vals[x] = SAny{"element"}
		}
	case *ssa.Index:
		i := e.num(fr, st, x.Index)
		switch s := e.get(fr, st, x.X).(type) {
		case *SArr:
			fr.vals[x] = e.arrGet(st, s, i)
		case SStr:
			if s.known && i.isC() && int(i.c) < len(s.s) {
				fr.vals[x] = tk(int64(s.s[i.c]))
			} else {
				fr.vals[x] = e.fresh("char", 0, 255)
			}
		default:
			fr.vals[x] = e.anyOf("element", x.Type())
		}
	case *ssa.Slice:
		fr.vals[x] = e.slice(fr, st, x)
	case *ssa.MakeSlice:
		n := e.num(fr, st, x.Len)
		el := x.Type().Underlying().(*types.Slice).Elem()
		at := types.NewArray(el, 0)
		id := e.alloc(st, &SArr{elem: el, el: map[string]arrEl{}, b: newBuf(el)})
		fr.vals[x] = &SSlice{arr: &SPtr{obj: id, typ: at}, off: tk(0), ln: n, cp: e.num(fr, st, x.Cap), elem: el}
	case *ssa.MakeInterface:
		fr.vals[x] = &SIface{typ: x.X.Type(), v: e.get(fr, st, x.X)}
	case *ssa.ChangeInterface:
		fr.vals[x] = e.get(fr, st, x.X)
	case *ssa.ChangeType:
		v := e.get(fr, st, x.X)
		if s, ok := v.(*SStruct); ok {
			v = &SStruct{typ: x.Type(), f: s.f}
		}
		fr.vals[x] = v
	case *ssa.Convert:
		fr.vals[x] = e.convert(fr, st, x)
	case *ssa.MultiConvert:
		fr.vals[x] = SAny{"conversion"}
	case *ssa.Extract:
		switch t := e.get(fr, st, x.Tuple).(type) {
		case STuple:
			fr.vals[x] = t[x.Index]
		default:
			fr.vals[x] = e.anyOf("result", x.Type())
		}
	case *ssa.MakeClosure:
		f := &SFn{fn: x.Fn}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, e.get(fr, st, b))
		}
		fr.vals[x] = f
	case *ssa.TypeAssert:
		e.typeAssert(fr, st, x)
	case *ssa.MakeMap:
		m := &SMap{keys: []SV{}}
		if !e.inInit {
			m.obj = e.alloc(st, &SMap{keys: []SV{}})
		}
		fr.vals[x] = m
	case *ssa.MapUpdate:
		m, ok := e.get(fr, st, x.Map).(*SMap)
		switch {
		case ok && e.inInit:
			m.keys = append(m.keys, e.get(fr, st, x.Key))
			m.vals = append(m.vals, e.get(fr, st, x.Value))
		case ok && m.obj != 0:
			k, v := e.get(fr, st, x.Key), e.get(fr, st, x.Value)
			cur := st.mapOf(m)
			n := &SMap{keys: append([]SV{}, cur.keys...), vals: append([]SV{}, cur.vals...)}
			found := false
			for i := range n.keys {
				switch eq, _ := st.sameKey(n.keys[i], k); eq {
				case 1:
					n.vals[i], found = v, true
				case -1:
					e.fail("update of an unknown element of a map at %s", e.r.Pos(in.Pos()))
				}
			}
			if !found {
				n.keys, n.vals = append(n.keys, k), append(n.vals, v)
			}
			st.objs[m.obj] = n
		default:
			e.fail("update of an unknown map at %s", e.r.Pos(in.Pos()))
		}
	case *ssa.Range, *ssa.Next:
		e.fail("iteration over a map or string at %s", e.r.Pos(in.Pos()))
	case *ssa.SliceToArrayPointer:
		s, ok := e.get(fr, st, x.X).(*SSlice)
		if ok && s.arr != nil && st.res(s.off) == tk(0) {
			fr.vals[x] = s.arr
		} else {
			fr.vals[x] = SAny{"array of a slice"}
		}
	default:
		e.fail("instruction %T at %s", in, e.r.Pos(in.Pos()))
	}
}

func (e *bp) anyOf(why string, t types.Type) SV {
	if w, _, ok := intInfo(t); ok {
		lo, hi := typeRange(t)
		_ = w
		return e.fresh("any "+why+" ", lo, hi)
	}
	return SAny{why}
}

func (e *bp) slice(fr *bfr, st *sst, x *ssa.Slice) SV {
	v := e.get(fr, st, x.X)
	lo, hi := tk(0), (*T)(nil)
	if x.Low != nil {
		lo = e.num(fr, st, x.Low)
	}
	if x.High != nil {
		hi = e.num(fr, st, x.High)
	}
	switch s := v.(type) {
	case *SSlice:
		if s.arr == nil {
			return s
		}
		if hi == nil {
			hi = st.res(s.ln)
		}
		cp := tsub(s.cp, lo)
		if x.Max != nil {
			cp = tsub(e.num(fr, st, x.Max), lo)
		}
		n := &SSlice{arr: s.arr, off: st.res(tadd(s.off, lo)), ln: st.res(tsub(hi, lo)), cp: st.res(cp), elem: s.elem}
		return n
	case *SPtr:
		a := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = tk(a.Len())
		}
		return &SSlice{arr: s, off: lo, ln: st.res(tsub(hi, lo)), cp: st.res(tsub(tk(a.Len()), lo)), elem: a.Elem()}
	case SStr:
		if s.known && lo.isC() && (hi == nil || hi.isC()) {
			h := int64(len(s.s))
			if hi != nil {
				h = hi.c
			}
			if lo.c <= h && h <= int64(len(s.s)) {
				return SStr{known: true, s: s.s[lo.c:h]}
			}
		}
		return SStr{name: "part of string"}
	}
	return SAny{"slice"}
}

func (e *bp) convert(fr *bfr, st *sst, x *ssa.Convert) SV {
	v := e.get(fr, st, x.X)
	_, _, okt := intInfo(x.Type())
	_, _, okf := intInfo(x.X.Type())
	if t, ok := v.(*T); ok && okt && okf {
		return e.conv(st, t, x.X.Type(), x.Type())
	}
	switch s := v.(type) {
	case SStr:
		if sl, ok := x.Type().Underlying().(*types.Slice); ok && s.known && isByte(sl.Elem()) {
			return e.byteSlice(st, sl.Elem(), []byte(s.s))
		}
		if _, ok := x.Type().Underlying().(*types.Basic); ok {
			return s
		}
	case *SSlice:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			n := st.res(s.ln)
			if s.arr != nil && n.isC() && n.c < 64 {
				if a, ok := e.load(st, s.arr).(*SArr); ok && a.b != nil {
					var sb strings.Builder
					for i := int64(0); i < n.c; i++ {
						t := st.normBits(e.readBits(st, a, tmulc(tadd(s.off, tk(i)), 8), 8))
						if !t.isC() {
							return SStr{name: "string of bytes"}
						}
						sb.WriteByte(byte(t.c))
					}
					return SStr{known: true, s: sb.String()}
				}
			}
			return SStr{name: "string of bytes"}
		}
	}
	return e.anyOf("conversion", x.Type())
}

func (e *bp) byteSlice(st *sst, el types.Type, b []byte) *SSlice {
	a := &SArr{elem: el, el: map[string]arrEl{}, b: newBuf(el)}
	for i, c := range b {
		e.writeBits(st, a, tk(int64(i)*8), st.bitsOf(tk(int64(c)), 8))
	}
	id := e.alloc(st, a)
	return &SSlice{arr: &SPtr{obj: id, typ: types.NewArray(el, int64(len(b)))}, off: tk(0), ln: tk(int64(len(b))), cp: tk(int64(len(b))), elem: el}
}

func (e *bp) typeAssert(fr *bfr, st *sst, x *ssa.TypeAssert) {
	v, ok := e.get(fr, st, x.X).(*SIface)
	if !ok {
		if x.CommaOk {
			fr.vals[x] = STuple{e.anyOf("assertion", x.AssertedType), e.fresh("ok", 0, 1)}
		} else {
			fr.vals[x] = e.anyOf("assertion", x.AssertedType)
		}
		return
	}
	match := false
	if v.typ != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			match = types.Implements(v.typ, it) || types.AssertableTo(it, v.typ)
			if match {
				if x.CommaOk {
					fr.vals[x] = STuple{v, tk(1)}
				} else {
					fr.vals[x] = v
				}
				return
			}
		} else {
			match = types.Identical(v.typ, x.AssertedType)
		}
	}
	switch {
	case match && x.CommaOk:
		fr.vals[x] = STuple{v.v, tk(1)}
	case match:
		fr.vals[x] = v.v
	case x.CommaOk:
		fr.vals[x] = STuple{e.zero(x.AssertedType), tk(0)}
	default:
		e.fail("type assertion at %s fails", e.r.Pos(x.Pos()))
	}
}
