package main

// Transfer functions of the abstract interpreter.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	mbits "math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fit keeps an expression if it lies in the range of type t, otherwise wraps it into an unknown value.
func (m *Mach) fit(st *State, l Lin, ok bool, t types.Type) Lin {
	iv, isI := intRange(t)
	if !isI {
		return fresh(fullIv)
	}
	if !ok {
		return fresh(iv)
	}
	lo, hi := iv.lo, iv.hi
	if lo == negInf {
		lo = -(int64(1) << 62)
	}
	if hi == posInf {
		hi = int64(1) << 62
	}
	r := st.num.rng(l)
	if r.lo >= lo && r.hi <= hi {
		return l
	}
	if r.lo < lo {
		h := lo
		if h < 1-big {
			h = 1 - big
		}
		if d, ok := l.sub(K(h)); !ok || !st.num.prove(d) {
			return m.wrapped(st, l, t)
		}
	}
	if r.hi > hi {
		// 2^62 does not fit the constant range of the solver: use a smaller bound
		h := hi
		if h > big-1 {
			h = big - 1
		}
		if d, ok := K(h).sub(l); !ok || !st.num.prove(d) {
			return m.wrapped(st, l, t)
		}
	}
	return l
}

// counterMax is a number no counter that is changed by small steps can reach.
const counterMax = int64(1) << 57

// isCounterStep tells whether an instruction adds a small constant to (or subtracts it from) a 64-bit signed counter: a
// variable that starts with a small constant and only changes by small constants. It cannot overflow in practice, as that
// takes more than 2^44 steps.
func isCounterStep(in ssa.Instruction) bool {
	b, ok := in.(*ssa.BinOp)
	if !ok {
		return false
	}
	if bits, signed := intBits(b.Type()); bits != 64 || !signed {
		return false
	}
	seen := map[ssa.Value]bool{}
	var web func(v ssa.Value) bool
	web = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value != nil && abs64s(v.Int64()) <= 1<<32
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !web(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if v.Op != token.ADD && v.Op != token.SUB {
				return false
			}
			c, ok := v.Y.(*ssa.Const)
			return ok && c.Value != nil && abs64s(c.Int64()) <= 1<<12 && web(v.X)
		}
		return false
	}
	return web(b)
}

// wrapped is the value of an expression that may leave the range of its type.
func (m *Mach) wrapped(st *State, l Lin, t types.Type) Lin {
	iv, _ := intRange(t)
	k := "wrap|" + t.Underlying().String() + "|" + l.key()
	if x, ok := st.memo[k]; ok {
		return x
	}
	x := fresh(iv)
	// congruence for narrow types: l = x + 2^bits * q
	if b, uns := intBits(t); b < 32 && !uns == false {
		_ = b
	}
	st.memo[k] = x
	return x
}

// quo is the floor of l / 2^k or l / c for c > 0.
func (m *Mach) floorQuo(st *State, l Lin, c int64) Lin {
	if c == 1 {
		return l
	}
	if l.isConst() {
		return K(floorDiv(l.c, c))
	}
	// exact division of the multiples
	div := true
	for _, t := range l.t {
		if t.k%c != 0 {
			div = false
		}
	}
	if div {
		o := Lin{c: floorDiv(l.c, c)}
		for _, t := range l.t {
			o.t = append(o.t, term{t.s, t.k / c})
		}
		return o
	}
	// split: multiples of c divide exactly
	var mul, rest Lin
	for _, t := range l.t {
		if t.k%c == 0 {
			mul.t = append(mul.t, term{t.s, t.k / c})
		} else {
			rest.t = append(rest.t, t)
		}
	}
	rest.c = l.c
	r := st.num.rng(rest)
	if r.lo >= 0 && r.hi < c {
		return mul
	}
	k := fmt.Sprintf("fq|%d|%s", c, l.key())
	if x, ok := st.memo[k]; ok {
		return x
	}
	lr := st.num.rng(l)
	iv := fullIv
	if lr.lo > negInf {
		iv.lo = floorDiv(lr.lo, c)
	}
	if lr.hi < posInf {
		iv.hi = floorDiv(lr.hi, c)
	}
	q := fresh(iv)
	if cq, ok := q.scale(c); ok {
		if d, ok := l.sub(cq); ok { // 0 <= l - c*q <= c-1
			st.num.GE(d)
			if n, ok := K(c - 1).sub(d); ok {
				st.num.GE(n)
			}
		}
	}
	st.memo[k] = q
	return q
}

func isPow2(c int64) (int, bool) {
	if c > 0 && c&(c-1) == 0 {
		return mbits.TrailingZeros64(uint64(c)), true
	}
	return 0, false
}

func bitLenHi(v int64) int64 { // smallest 2^k-1 >= v
	if v <= 0 {
		return 0
	}
	k := mbits.Len64(uint64(v))
	if k >= 62 {
		return posInf
	}
	return int64(1)<<k - 1
}

func (m *Mach) binop(x *fexec, st *State, in *ssa.BinOp) Val {
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return m.compare(st, in.Op, m.eval(st, in.X), m.eval(st, in.Y), in.X.Type())
	}
	t := in.Type()
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		a, ok1 := m.eval(st, in.X).(VStr)
		c, ok2 := m.eval(st, in.Y).(VStr)
		if ok1 && ok2 {
			if a.cst != nil && c.cst != nil {
				s := *a.cst + *c.cst
				return VStr{ln: K(int64(len(s))), cst: &s}
			}
			return VStr{ln: ladd(a.ln, c.ln), id: fresh(fullIv)}
		}
		return VStr{ln: freshLen(), id: fresh(fullIv)}
	}
	if !isInt(t) {
		return VTop{}
	}
	a, b := m.evalInt(st, in.X), m.evalInt(st, in.Y)
	return VInt{m.arith(x, st, in, in.Op, a, b, t, in.Y.Type())}
}

func (m *Mach) arith(x *fexec, st *State, in ssa.Instruction, op token.Token, a, b Lin, t, yt types.Type) Lin {
	iv, _ := intRange(t)
	ra, rb := st.num.rng(a), st.num.rng(b)
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHR:
		if ra.lo < 0 && ra.lo > negInf && st.num.prove(a) {
			ra.lo = 0
		}
		if rb.lo < 0 && rb.lo > negInf && st.num.prove(b) {
			rb.lo = 0
		}
	}
	memo := func(mk func() Lin) Lin {
		k := op.String() + "|" + a.key() + "|" + b.key() + "|" + t.Underlying().String()
		if l, ok := st.memo[k]; ok {
			return l
		}
		l := mk()
		st.memo[k] = l
		return l
	}
	switch op {
	case token.ADD:
		l, ok := a.add(b)
		if ok && isCounterStep(in) {
			if d, ok := K(counterMax).sub(l); ok {
				st.num.GE(d)
			}
		}
		return m.fit(st, l, ok, t)
	case token.SUB:
		l, ok := a.sub(b)
		if ok && isCounterStep(in) {
			if d, ok := l.sub(K(-counterMax)); ok {
				st.num.GE(d)
			}
		}
		return m.fit(st, l, ok, t)
	case token.MUL:
		if a.isConst() {
			l, ok := b.scale(a.c)
			return m.fit(st, l, ok, t)
		}
		if b.isConst() {
			l, ok := a.scale(b.c)
			return m.fit(st, l, ok, t)
		}
		return memo(func() Lin {
			if ra.lo >= 0 && rb.lo >= 0 {
				hi := satMul2(ra.hi, rb.hi)
				if hi > iv.hi {
					return fresh(iv)
				}
				r := fresh(Iv{satMul2(ra.lo, rb.lo), hi})
				// r >= lo(b) * a, r <= hi(b) * a
				if y, ok := a.scale(rb.lo); ok {
					st.num.GE(lsub(r, y))
				}
				if rb.hi < 1<<31 {
					if y, ok := a.scale(rb.hi); ok {
						st.num.GE(lsub(y, r))
					}
				}
				if y, ok := b.scale(ra.lo); ok {
					st.num.GE(lsub(r, y))
				}
				if ra.hi < 1<<31 {
					if y, ok := b.scale(ra.hi); ok {
						st.num.GE(lsub(y, r))
					}
				}
				return r
			}
			c := []int64{satMul2(ra.lo, rb.lo), satMul2(ra.lo, rb.hi), satMul2(ra.hi, rb.lo), satMul2(ra.hi, rb.hi)}
			lo, hi := c[0], c[0]
			for _, v := range c {
				lo, hi = min(lo, v), max(hi, v)
			}
			if lo < iv.lo || hi > iv.hi || lo < -(1<<61) || hi > 1<<61 {
				return fresh(iv)
			}
			return fresh(Iv{lo, hi})
		})
	case token.QUO, token.REM:
		if x != nil {
			nz := st.num.proveNE(b)
			d := ""
			if !nz {
				d = fmt.Sprintf("the divisor may be zero (range %s to %s)", showB(rb.lo), showB(rb.hi))
			}
			m.record(in, "division", nz, d, x.ctx)
			if !nz {
				st.num.NE(b)
				rb = st.num.rng(b)
			}
		}
		if st.bot() {
			return fresh(iv)
		}
		if a.isConst() && b.isConst() && b.c != 0 {
			if op == token.QUO {
				return K(a.c / b.c)
			}
			return K(a.c % b.c)
		}
		nonneg := ra.lo >= 0 || st.num.prove(a)
		if b.isConst() && b.c > 0 && nonneg {
			q := m.floorQuo(st, a, b.c)
			if op == token.QUO {
				return q
			}
			if cq, ok := q.scale(b.c); ok {
				if l, ok := a.sub(cq); ok {
					return l
				}
			}
			return fresh(Iv{0, b.c - 1})
		}
		return memo(func() Lin {
			if op == token.REM {
				if rb.lo >= 1 {
					r := fresh(Iv{0, satAdd(rb.hi, -1)})
					if !nonneg {
						r = fresh(Iv{-satAdd(rb.hi, -1), satAdd(rb.hi, -1)})
						return r
					}
					st.num.GE(laddc(lsub(b, r), -1))
					st.num.GE(lsub(a, r))
					return r
				}
				if b.isConst() {
					return fresh(Iv{-abs64(b.c) + 1, abs64(b.c) - 1})
				}
				return fresh(iv)
			}
			// QUO
			if rb.lo >= 1 {
				if nonneg {
					r := fresh(Iv{0, max(0, ra.hi)})
					if y, ok := r.scale(rb.lo); ok {
						st.num.GE(lsub(a, y))
					}
					return r
				}
				// truncation towards zero
				lo, hi := ra.lo, ra.hi
				if lo != negInf {
					lo = lo / rb.lo
				}
				if hi != posInf && hi > 0 {
					hi = hi / rb.lo
				}
				r := fresh(Iv{min(lo, 0), max(hi, 0)})
				// |r| <= |a|: if a <= u then r <= max(u, 0)
				if st.num.prove(mustNeg(a)) { // a <= 0
					st.num.GE(mustNeg(r))
					st.num.GE(lsub(r, a))
				}
				return r
			}
			lim := max(abs64s(ra.lo), abs64s(ra.hi))
			if lim == posInf {
				return fresh(iv)
			}
			return fresh(Iv{-lim, lim})
		})
	case token.SHL:
		if !x.shiftOK(m, st, in, b, yt) {
			return fresh(iv)
		}
		bits, _ := intBits(t)
		if b.isConst() {
			if b.c >= int64(bits) {
				return K(0)
			}
			if b.c < 62 {
				l, ok := a.scale(int64(1) << b.c)
				return m.fit(st, l, ok, t)
			}
			return fresh(iv)
		}
		return memo(func() Lin {
			if ra.lo >= 0 && rb.lo >= 0 && rb.hi < 62 && ra.hi < posInf {
				hi := satMul2(ra.hi, int64(1)<<rb.hi)
				if hi <= iv.hi && hi < 1<<61 {
					r := fresh(Iv{satMul2(ra.lo, int64(1)<<rb.lo), hi})
					st.num.GE(lsub(r, a))
					return r
				}
			}
			return fresh(iv)
		})
	case token.SHR:
		if !x.shiftOK(m, st, in, b, yt) {
			return fresh(iv)
		}
		if b.isConst() {
			bits, uns := intBits(t)
			if b.c >= int64(bits) && (!uns || uns) && ra.lo >= 0 {
				return K(0)
			}
			if b.c < 62 {
				return m.floorQuo(st, a, int64(1)<<b.c)
			}
			if ra.lo >= 0 && ra.hi < int64(1)<<61 {
				return K(0)
			}
			return fresh(iv)
		}
		return memo(func() Lin {
			if ra.lo >= 0 {
				hi := ra.hi
				if rb.lo > 0 && rb.lo < 63 && hi != posInf {
					hi >>= uint(rb.lo)
				} else if rb.lo > 0 && hi == posInf && rb.lo < 63 {
					hi = int64(1) << (63 - rb.lo) // upper half of uint64
					hi <<= 1
					if hi <= 0 {
						hi = posInf
					}
				}
				r := fresh(Iv{0, hi})
				st.num.GE(lsub(a, r))
				return r
			}
			return fresh(Iv{min(ra.lo, -1), max(ra.hi, 0)})
		})
	case token.AND:
		if a.isConst() && !b.isConst() {
			a, b = b, a
			ra, rb = rb, ra
		}
		if a.isConst() && b.isConst() {
			return K(a.c & b.c)
		}
		if b.isConst() {
			if b.c >= 0 {
				if ra.lo >= 0 && ra.hi <= b.c && b.c&(b.c+1) == 0 {
					return a
				}
				if _, ok := isPow2(b.c + 1); ok && (ra.lo >= 0 || b.c < 1<<31) {
					// also right for negative values in two's complement
					q := m.floorQuo(st, a, b.c+1)
					if cq, ok := q.scale(b.c + 1); ok {
						if l, ok := a.sub(cq); ok {
							return l
						}
					}
				}
				return memo(func() Lin {
					r := fresh(Iv{0, b.c})
					if ra.lo >= 0 {
						st.num.GE(lsub(a, r))
						if j := mbits.TrailingZeros64(uint64(b.c)); j > 0 && (b.c>>uint(j))&((b.c>>uint(j))+1) == 0 {
							// a contiguous field: r = 2^j * (floor(a / 2^j) mod 2^n)
							q1 := m.floorQuo(st, a, int64(1)<<uint(j))
							n := (b.c >> uint(j)) + 1
							q2 := m.floorQuo(st, q1, n)
							if y, ok := comb(q1, 1, q2, -n); ok {
								if z, ok := y.scale(int64(1) << uint(j)); ok {
									return z
								}
							}
						}
					}
					return r
				})
			}
			// negative mask on signed values
			return memo(func() Lin {
				if ra.lo >= 0 {
					r := fresh(Iv{0, ra.hi})
					st.num.GE(lsub(a, r))
					return r
				}
				return fresh(iv)
			})
		}
		return memo(func() Lin {
			if ra.lo >= 0 && rb.lo >= 0 {
				r := fresh(Iv{0, min(ra.hi, rb.hi)})
				st.num.GE(lsub(a, r))
				st.num.GE(lsub(b, r))
				return r
			}
			if ra.lo >= 0 {
				r := fresh(Iv{0, ra.hi})
				st.num.GE(lsub(a, r))
				return r
			}
			if rb.lo >= 0 {
				r := fresh(Iv{0, rb.hi})
				st.num.GE(lsub(b, r))
				return r
			}
			return fresh(iv)
		})
	case token.OR:
		if a.isConst() && b.isConst() {
			return K(a.c | b.c)
		}
		if a.isConst() && a.c == 0 {
			return b
		}
		if b.isConst() && b.c == 0 {
			return a
		}
		for _, ab := range [2][2]Lin{{a, b}, {b, a}} {
			// low bits set
			c := ab[1]
			if c.isConst() && c.c > 0 && c.c < 1<<30 && c.c&(c.c+1) == 0 && st.num.prove(ab[0]) {
				if l, ok := m.floorQuo(st, ab[0], c.c+1).scale(c.c + 1); ok {
					return m.fit(st, laddc(l, c.c), true, t)
				}
			}
		}
		if disjointBits(st, a, b) || disjointBits(st, b, a) {
			if l, ok := a.add(b); ok {
				return m.fit(st, l, true, t)
			}
		}
		return memo(func() Lin {
			if ra.lo >= 0 && rb.lo >= 0 {
				hi := bitLenHi(max(ra.hi, rb.hi))
				if max(ra.hi, rb.hi) == posInf {
					hi = posInf
				}
				hi = min(hi, iv.hi)
				r := fresh(Iv{max(ra.lo, rb.lo), hi})
				st.num.GE(lsub(r, a))
				st.num.GE(lsub(r, b))
				if s, ok := a.add(b); ok {
					st.num.GE(lsub(s, r))
				}
				return r
			}
			return fresh(iv)
		})
	case token.XOR:
		if a.isConst() && b.isConst() {
			return K(a.c ^ b.c)
		}
		return memo(func() Lin {
			if ra.lo >= 0 && rb.lo >= 0 && max(ra.hi, rb.hi) < posInf {
				return fresh(Iv{0, min(bitLenHi(max(ra.hi, rb.hi)), iv.hi)})
			}
			return fresh(iv)
		})
	case token.AND_NOT:
		if a.isConst() && b.isConst() {
			return K(a.c &^ b.c)
		}
		if c := b; c.isConst() && c.c > 0 && c.c < 1<<30 && c.c&(c.c+1) == 0 && st.num.prove(a) {
			if l, ok := m.floorQuo(st, a, c.c+1).scale(c.c + 1); ok {
				return m.fit(st, l, true, t)
			}
		}
		return memo(func() Lin {
			if ra.lo >= 0 {
				r := fresh(Iv{0, ra.hi})
				st.num.GE(lsub(a, r))
				return r
			}
			return fresh(iv)
		})
	}
	return fresh(iv)
}

func mustNeg(a Lin) Lin {
	n, ok := a.scale(-1)
	if !ok {
		return fresh(fullIv)
	}
	return n
}

func abs64s(a int64) int64 {
	if a == negInf {
		return posInf
	}
	return abs64(a)
}

func satMul2(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a == posInf || b == posInf || a == negInf || b == negInf {
		if (a > 0) == (b > 0) {
			return posInf
		}
		return negInf
	}
	r, ok := mulOK(a, b)
	if !ok {
		if (a > 0) == (b > 0) {
			return posInf
		}
		return negInf
	}
	return r
}

// disjointBits: a is a multiple of 2^k and 0 <= b < 2^k.
func disjointBits(st *State, a, b Lin) bool {
	rb := st.num.rng(b)
	if rb.lo < 0 || rb.hi > 1<<40 {
		return false
	}
	if st.num.rng(a).lo < 0 && !st.num.prove(a) {
		return false
	}
	lim := bitLenHi(rb.hi) + 1
	if a.c%lim != 0 {
		return false
	}
	for _, t := range a.t {
		if t.k%lim != 0 {
			return false
		}
	}
	return true
}

func (x *fexec) shiftOK(m *Mach, st *State, in ssa.Instruction, b Lin, yt types.Type) bool {
	iv, ok := intRange(yt)
	if ok && iv.lo < 0 && !b.isConst() {
		m.need(x, st, in, "shift", b, func() string { return "the shift count may be negative" })
	} else if b.isConst() && b.c < 0 {
		m.record(in, "shift", false, "negative shift count", x.ctx)
		return false
	}
	return !st.bot()
}

func nnOf(v Val) (Lin, bool) {
	switch v := v.(type) {
	case VPtr:
		return v.nn, true
	case VSlice:
		return v.nn, true
	case VIface:
		return v.nn, true
	case VFunc:
		return v.nn, true
	case VMap:
		return v.nn, true
	}
	return Lin{}, false
}

func (m *Mach) compare(st *State, op token.Token, a, b Val, t types.Type) Val {
	if x, ok := a.(VInt); ok {
		y, ok := b.(VInt)
		if !ok {
			return unkBool()
		}
		d, ok := x.l.sub(y.l)
		if !ok {
			return unkBool()
		}
		n := mustNeg(d)
		switch op {
		case token.EQL:
			return VBool{cEQ, d}
		case token.NEQ:
			return VBool{cNE, d}
		case token.LSS:
			return VBool{cGE, laddc(n, -1)}
		case token.LEQ:
			return VBool{cGE, n}
		case token.GTR:
			return VBool{cGE, laddc(d, -1)}
		case token.GEQ:
			return VBool{cGE, d}
		}
	}
	if op != token.EQL && op != token.NEQ {
		return unkBool()
	}
	res := func(b VBool) Val {
		if op == token.NEQ {
			return b.not()
		}
		return b
	}
	if x, ok := a.(VBool); ok {
		if y, ok := b.(VBool); ok {
			if y.l.isConst() {
				if evalBool(st.num, y) == 1 {
					return res(x)
				}
				return res(x.not())
			}
			if x.l.isConst() {
				if evalBool(st.num, x) == 1 {
					return res(y)
				}
				return res(y.not())
			}
		}
		return unkBool()
	}
	if x, ok := a.(VStr); ok {
		if y, ok := b.(VStr); ok {
			if x.cst != nil && y.cst != nil {
				return res(mkBool(*x.cst == *y.cst))
			}
			if x.cst == nil && y.cst == nil && !x.id.isConst() && x.id.eq(y.id) {
				return res(vTrue)
			}
			// identity symbols: equal strings have equal identities
			ix, iy := strID(x), strID(y)
			if d, ok := ix.sub(iy); ok && len(d.t) > 0 {
				return res(VBool{cEQ, d})
			}
		}
		return unkBool()
	}
	na, ok1 := nnOf(a)
	nb, ok2 := nnOf(b)
	if ok1 && ok2 {
		if nb.isConst() && nb.c == 0 {
			return res(VBool{cGE, mustNeg(na)}) // nn <= 0
		}
		if na.isConst() && na.c == 0 {
			return res(VBool{cGE, mustNeg(nb)})
		}
	}
	return unkBool()
}

// strConsts gives each constant string an integer identity.
var strConsts = map[string]int64{}

func strID(s VStr) Lin {
	if s.cst != nil {
		i, ok := strConsts[*s.cst]
		if !ok {
			i = int64(len(strConsts)) + 1
			strConsts[*s.cst] = i
		}
		return K(i)
	}
	return s.id
}

// ---- memory access

// load reads through a path.
func (m *Mach) loadPath(st *State, v Val, t types.Type, p []Sel) Val {
	for i, s := range p {
		if tm, ok := v.(*VTmpl); ok {
			v = m.instantiate(st, tm)
		}
		if v == nil {
			return nil
		}
		if s.field >= 0 {
			sv, ok := v.(VStruct)
			if !ok || s.field >= len(sv.f) {
				return nil
			}
			v = sv.f[s.field]
			continue
		}
		av, ok := v.(*VArr)
		if !ok {
			return nil
		}
		_ = i
		v = m.arrLoad(st, av, s)
	}
	if tm, ok := v.(*VTmpl); ok {
		v = m.instantiate(st, tm)
	}
	return v
}

func (m *Mach) arrLoad(st *State, a *VArr, s Sel) Val {
	var rc map[Sym]bool
	rts := func() map[Sym]bool {
		if rc == nil {
			rc = st.roots()
		}
		return rc
	}
	inst := func(t *VTmpl) Val {
		if t == nil {
			return nil
		}
		return m.instantiate(st, t)
	}
	if a.seg {
		if !s.any {
			if a.cell != nil && cmpIdx(st, a.cell.idx, s.idx) == 1 {
				return a.cell.v
			}
			if d, ok := a.pos.sub(laddc(s.idx, 1)); ok && st.num.prove(d) {
				return inst(a.pfx)
			}
			if d, ok := s.idx.sub(a.pos); ok && st.num.prove(d) {
				return inst(a.rest)
			}
		}
		a = m.flat(st, a)
	}
	if !s.any {
		idx := s.idx
		r := st.num.rng(idx)
		if r.lo == r.hi {
			if v, ok := elemsGet(a.elems, r.lo); ok {
				return v
			}
		}
		if a.cell != nil && cmpIdx(st, a.cell.idx, idx) == 1 {
			return a.cell.v
		}
		if r.lo == r.hi {
			return inst(a.rest)
		}
		if len(a.elems) > 0 {
			// elements in range
			r = tightRange(st, idx, r, a.elems[len(a.elems)-1].i)
			var t *VTmpl
			n := int64(0)
			for _, e := range a.elems {
				if e.i < r.lo || e.i > r.hi || len(idx.t) > 0 && provedNE(st, idx, e.i) {
					if e.i >= r.lo && e.i <= r.hi {
						n++
					}
					continue
				}
				n++
				t = m.joinTmpl(st, t, m.tmplOf(st, e.v, rts()), rts())
			}
			if r.hi == posInf || r.lo == negInf || r.hi-r.lo+1 > n {
				t = m.joinTmpl(st, t, a.rest, rts())
			}
			return inst(t)
		}
		return inst(a.rest)
	}
	if len(a.elems) == 0 {
		return inst(a.rest)
	}
	t := a.rest
	for _, e := range a.elems {
		t = m.joinTmpl(st, t, m.tmplOf(st, e.v, rts()), rts())
	}
	return inst(t)
}

// hasRef tells whether a type is or holds pointers, slices or interfaces: arrays of these are tracked as they are filled.
func hasRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface, *types.Signature, *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRef(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// flat forgets how far an array was filled.
func (m *Mach) flat(st *State, a *VArr) *VArr {
	if !a.seg {
		return a
	}
	o := &VArr{et: a.et, rest: a.rest, cell: a.cell}
	if a.pfx != nil {
		o.rest = m.joinTmpl(st, a.pfx, a.rest, st.roots())
	}
	return o
}

// cmpIdx compares two indexes: 1 equal, -1 different, 0 unknown.
func cmpIdx(st *State, a, b Lin) int {
	if a.eq(b) {
		return 1
	}
	d, ok := a.sub(b)
	if !ok {
		return 0
	}
	if d.isConst() {
		return -1
	}
	r := st.num.rng(d)
	if r.lo > 0 || r.hi < 0 {
		return -1
	}
	if st.num.proveEQ(d) {
		return 1
	}
	if st.num.prove(laddc(d, -1)) || st.num.prove(laddc(mustNeg(d), -1)) {
		return -1
	}
	for _, n := range st.num.neq {
		if n.eq(d) || n.eq(mustNeg(d)) {
			return -1
		}
	}
	return 0
}

func provedNE(st *State, idx Lin, i int64) bool {
	d := laddc(idx, -i)
	for _, n := range st.num.neq {
		if n.eq(d) || n.eq(mustNeg(d)) {
			return true
		}
	}
	return false
}

// tightRange improves the range of the index of an array whose highest known element is top.
func tightRange(st *State, idx Lin, r Iv, top int64) Iv {
	if len(idx.t) == 0 || top > 128 {
		return r
	}
	if r.lo < 0 {
		r.lo = 0 // out of range otherwise
	}
	if r.hi > top {
		if x, ok := K(top).sub(idx); !ok || !st.num.prove(x) {
			for i := 0; i < 8 && r.lo < top && st.num.prove(laddc(idx, -r.lo-1)); i++ {
				r.lo++
			}
			return r
		}
		r.hi = top
	}
	for r.lo < r.hi && st.num.prove(laddc(idx, -r.lo-1)) {
		r.lo++
	}
	for r.lo < r.hi {
		x, ok := K(r.hi - 1).sub(idx)
		if !ok || !st.num.prove(x) {
			break
		}
		r.hi--
	}
	return r
}

// storePath returns v with the value at path p replaced.
func (m *Mach) storePath(st *State, v Val, p []Sel, nv Val, weak bool) Val {
	if tm, ok := v.(*VTmpl); ok {
		if tm.ext {
			return tm // already arbitrary
		}
		// weak update of a summary
		cur := m.instantiate(st, tm)
		upd := m.storePath(st, cur, p, nv, false)
		return m.joinTmpl(st, tm, m.tmplOf(st, upd, st.roots()), st.roots())
	}
	if len(p) == 0 {
		if weak && v != nil {
			j := newJoiner(m, st, st)
			r := j.val(v, nv)
			j.assumeWeak(st)
			return r
		}
		return nv
	}
	s := p[0]
	if s.field >= 0 {
		sv, ok := v.(VStruct)
		if !ok || s.field >= len(sv.f) {
			return v
		}
		o := VStruct{append([]Val(nil), sv.f...)}
		o.f[s.field] = m.storePath(st, sv.f[s.field], p[1:], nv, weak)
		return o
	}
	av, ok := v.(*VArr)
	if !ok {
		return v
	}
	if av.seg {
		if !weak && !s.any && len(p) == 1 && nv != nil {
			roots := st.roots()
			if d, ok := s.idx.sub(av.pos); ok && st.num.proveEQ(d) {
				t := m.joinTmpl(st, av.pfx, m.tmplOf(st, nv, roots), roots)
				return &VArr{et: av.et, rest: av.rest, seg: true, pos: laddc(av.pos, 1), pfx: t, cell: &arrCell{s.idx, nv}}
			}
			if d, ok := av.pos.sub(laddc(s.idx, 1)); ok && st.num.prove(d) {
				t := m.joinTmpl(st, av.pfx, m.tmplOf(st, nv, roots), roots)
				return &VArr{et: av.et, rest: av.rest, seg: true, pos: av.pos, pfx: t, cell: &arrCell{s.idx, nv}}
			}
		}
		av = m.flat(st, av)
	}
	o := &VArr{elems: av.elems, rest: av.rest, et: av.et}
	// what was known of one element
	var cellWas Val
	if c := av.cell; c != nil && !s.any {
		switch cmpIdx(st, c.idx, s.idx) {
		case -1:
			o.cell = c
		case 1:
			if !weak {
				cellWas = c.v
			}
		}
	}
	if !s.any {
		r := st.num.rng(s.idx)
		if r.lo == r.hi && r.lo >= 0 && r.lo < 512 {
			cur, has := elemsGet(av.elems, r.lo)
			if !has && (len(p) > 1 || weak) {
				if cellWas != nil {
					cur = cellWas
				} else if av.rest != nil {
					cur = m.instantiate(st, av.rest)
				}
			}
			o.elems = elemsSet(av.elems, r.lo, m.storePath(st, cur, p[1:], nv, weak))
			return o
		}
	}
	// unknown element: weak update of everything it may be
	var cellNew Val
	if !s.any && !weak {
		if len(p) == 1 {
			cellNew = nv
		} else {
			if cellWas == nil {
				cellWas = m.arrLoad(st, av, s)
			}
			if cellWas != nil {
				cellNew = m.storePath(st, cellWas, p[1:], nv, false)
			}
		}
		if cellNew != nil && usefulCell(av) {
			o.cell = &arrCell{s.idx, cellNew}
		}
	}
	if av.rest != nil && av.rest.ext {
		o.elems = nil
		return o
	}
	if len(av.elems) > 0 {
		lo, hi := int64(negInf), int64(posInf)
		if !s.any {
			r := st.num.rng(s.idx)
			lo, hi = r.lo, r.hi
		}
		if len(av.elems) > 24 || hi == posInf {
			// fold everything
			t := av.rest
			for _, e := range av.elems {
				t = m.joinTmpl(st, t, m.tmplOf(st, e.v, nil), nil)
			}
			o.elems, o.rest = nil, t
		} else {
			var el []arrElem
			for _, e := range av.elems {
				if int64(e.i) >= lo && int64(e.i) <= hi {
					el = append(el, arrElem{e.i, m.storePath(st, e.v, p[1:], nv, true)})
				} else {
					el = append(el, e)
				}
			}
			o.elems = el
		}
	}
	upd := nv
	if cellNew != nil {
		upd = cellNew
	} else if len(p) > 1 {
		var base Val
		if o.rest != nil {
			base = m.instantiate(st, o.rest)
		}
		upd = m.storePath(st, base, p[1:], nv, false)
	}
	if upd == nil {
		return o
	}
	roots := st.roots()
	o.rest = m.joinTmpl(st, o.rest, m.tmplOf(st, upd, roots), roots)
	return o
}

// usefulCell tells whether the elements of an array are worth a cell.
func usefulCell(a *VArr) bool {
	b, ok := a.et.Underlying().(*types.Basic)
	return !ok || b.Kind() != types.Uint8 && b.Kind() != types.Bool
}

// pin gives a cell to the elements at unknown indexes on a path; nil when there is nothing to do.
func (m *Mach) pin(st *State, v Val, p []Sel) Val {
	if len(p) == 0 {
		return nil
	}
	s := p[0]
	switch x := v.(type) {
	case VStruct:
		if s.field < 0 || s.field >= len(x.f) {
			return nil
		}
		y := m.pin(st, x.f[s.field], p[1:])
		if y == nil {
			return nil
		}
		o := VStruct{append([]Val(nil), x.f...)}
		o.f[s.field] = y
		return o
	case *VArr:
		if s.field >= 0 || s.any || !usefulCell(x) {
			return nil
		}
		r := st.num.rng(s.idx)
		if r.lo == r.hi {
			e, has := elemsGet(x.elems, r.lo)
			if !has {
				return nil
			}
			y := m.pin(st, e, p[1:])
			if y == nil {
				return nil
			}
			return &VArr{elems: elemsSet(x.elems, r.lo, y), rest: x.rest, et: x.et, cell: x.cell, seg: x.seg, pos: x.pos, pfx: x.pfx}
		}
		var cur Val
		isNew := true
		if x.cell != nil && cmpIdx(st, x.cell.idx, s.idx) == 1 {
			cur = x.cell.v
			isNew = false
		} else {
			cur = m.arrLoad(st, x, s)
		}
		if cur == nil {
			return nil
		}
		if y := m.pin(st, cur, p[1:]); y != nil {
			cur = y
		} else if !isNew {
			return nil
		}
		return &VArr{elems: x.elems, rest: x.rest, et: x.et, hull: x.hull, seg: x.seg, pos: x.pos, pfx: x.pfx, cell: &arrCell{s.idx, cur}}
	}
	return nil
}

// assumeWeak adds what both alternatives of a weak update imply.
func (j *joiner) assumeWeak(st *State) {
	for _, p := range j.pairs {
		// q is la or lb
		for _, pr := range [][2]Lin{{p.la, p.lb}, {p.lb, p.la}} {
			d, ok := pr[0].sub(pr[1])
			if ok && st.num.prove(d) { // la >= lb
				st.num.GE(lsub(pr[0], V(p.q)))
				st.num.GE(lsub(V(p.q), pr[1]))
				break
			}
		}
	}
}

func elemsSet(e []arrElem, i int64, v Val) []arrElem {
	out := make([]arrElem, 0, len(e)+1)
	done := false
	for _, x := range e {
		if x.i == i {
			out = append(out, arrElem{i, v})
			done = true
			continue
		}
		if x.i > i && !done {
			out = append(out, arrElem{i, v})
			done = true
		}
		out = append(out, x)
	}
	if !done {
		out = append(out, arrElem{i, v})
	}
	return out
}

// load reads through pointer targets.
func (m *Mach) load(st *State, tg []Tgt, t types.Type) Val {
	_, isSl := t.Underlying().(*types.Slice)
	if len(tg) == 1 && !(isSl && (objTab[tg[0].o].summary || objTab[tg[0].o].multi)) {
		o := tg[0].o
		if !objTab[o].summary && !objTab[o].multi {
			if c := st.mem[o]; c != nil {
				if n := m.pin(st, c, tg[0].p); n != nil {
					st.mem[o] = n
				}
			}
		}
		v := m.loadPath(st, m.content(st, o), objTab[o].t, tg[0].p)
		if v == nil {
			m.gaps["load of an undefined cell of "+objTab[o].name]++
			return m.unknownVal(st, t, objTab[o].name+"?", true, 0)
		}
		// memoise the elements of unknown arrays read at known positions
		m.memoise(st, tg[0], v)
		return v
	}
	// an element of one of several arrays, or of an array that stands for several: read it once, as a whole
	if et, sub, k := elemTgts(tg, isSl); k > 0 {
		for _, c := range st.lc {
			if tgtsEq(c.tg, et) {
				if v := m.loadPath(st, c.v, nil, sub); v != nil {
					return v
				}
			}
		}
		if v := m.loadJoin(st, et); v != nil {
			st.lc = append(st.lc[:len(st.lc):len(st.lc)], elemCache{et, v, len(sub) == 0})
			if v := m.loadPath(st, v, nil, sub); v != nil {
				return v
			}
		}
	}
	if v := m.loadJoin(st, tg); v != nil {
		return v
	}
	return m.unknownVal(st, t, "notarget", true, 0)
}

// elemTgts splits targets into the elements of arrays and the common rest of their paths, which is empty only if whole is set.
func elemTgts(tg []Tgt, whole bool) ([]Tgt, []Sel, int) {
	var out []Tgt
	var sub []Sel
	for n, t := range tg {
		k := -1
		for i, s := range t.p {
			if s.field < 0 {
				k = i
			}
		}
		if k < 0 || t.p[k].any || k == len(t.p)-1 && !whole {
			return nil, nil, 0
		}
		if n == 0 {
			sub = t.p[k+1:]
		} else if !selsEq(sub, t.p[k+1:]) {
			return nil, nil, 0
		}
		out = append(out, Tgt{t.o, t.p[:k+1]})
	}
	return out, sub, 1
}

func selsEq(a, b []Sel) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].field != b[i].field || a[i].any != b[i].any || a[i].field < 0 && !a[i].any && !a[i].idx.eq(b[i].idx) {
			return false
		}
	}
	return true
}

func tgtsEq(a, b []Tgt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].o != b[i].o || !selsEq(a[i].p, b[i].p) {
			return false
		}
	}
	return true
}

// loadJoin reads a value that may be in one of several places.
func (m *Mach) loadJoin(st *State, tg []Tgt) Val {
	var r *VTmpl
	for _, x := range tg {
		v := m.loadPath(st, m.content(st, x.o), objTab[x.o].t, x.p)
		if v == nil {
			continue
		}
		roots := st.roots()
		r = m.joinTmpl(st, r, m.tmplOf(st, v, roots), roots)
	}
	if r == nil {
		return nil
	}
	return m.instantiate(st, r)
}

func (m *Mach) memoise(st *State, t Tgt, v Val) {
	if objTab[t.o].summary || objTab[t.o].multi {
		return
	}
	sum := false
	for _, s := range t.p {
		if s.field < 0 && (s.any || !s.idx.isConst() || s.idx.c > 64) {
			sum = true
		}
	}
	if len(t.p) == 0 {
		return
	}
	c := st.mem[t.o]
	if c == nil {
		return
	}
	if sum {
		return
	}
	// only if the path crosses the unknown rest of an array
	cur := c
	for _, s := range t.p {
		if s.field >= 0 {
			sv, ok := cur.(VStruct)
			if !ok {
				return
			}
			cur = sv.f[s.field]
			continue
		}
		av, ok := cur.(*VArr)
		if !ok {
			return
		}
		if av.seg {
			return
		}
		e, has := elemsGet(av.elems, s.idx.c)
		if !has {
			if av.rest == nil {
				return
			}
			st.mem[t.o] = m.storePath(st, c, t.p, v, false)
			return
		}
		cur = e
	}
}

// store writes through pointer targets.
func (m *Mach) store(st *State, tg []Tgt, v Val) {
	weak := len(tg) > 1
	for _, t := range tg {
		w := weak || objTab[t.o].summary || objTab[t.o].multi
		for _, s := range t.p {
			if s.field < 0 && s.any {
				w = true
			}
		}
		c := m.content(st, t.o)
		if objTab[t.o].summary {
			if tm, ok := c.(*VTmpl); ok {
				st.mem[t.o] = m.storePath(st, tm, t.p, v, true)
				continue
			}
		}
		st.mem[t.o] = m.storePath(st, c, t.p, v, w)
	}
}

func addSel(tg []Tgt, s Sel) []Tgt {
	out := make([]Tgt, len(tg))
	for i, t := range tg {
		p := make([]Sel, 0, len(t.p)+1)
		p = append(p, t.p...)
		out[i] = Tgt{t.o, append(p, s)}
	}
	return out
}

func (m *Mach) needPtr(x *fexec, st *State, in ssa.Instruction, p VPtr, what string) {
	if p.nn.isConst() && p.nn.c == 1 {
		return
	}
	m.need(x, st, in, "nil", laddc(p.nn, -1), func() string { return "nil pointer dereference" + what })
}

// alloc creates a heap or stack object for a site.
func (m *Mach) alloc(st *State, x *fexec, in ssa.Instruction, suffix string, t types.Type, content Val) ObjID {
	name := fmt.Sprintf("%s@%d.%d%s", FName(x.fi.fn), x.ctx, x.fi.instrNum[in], suffix)
	o := internObj(name, t, false, false)
	if old, ok := st.mem[o]; ok {
		// the previous object of this site: fold it if it is still referenced
		if m.referenced(st, o) {
			s := internObj(name+"*", t, false, true)
			objTab[s].summary = true
			roots := st.roots()
			tm := m.tmplOf(st, old, roots)
			if prev, ok := st.mem[s].(*VTmpl); ok {
				tm = m.joinTmpl(st, prev, tm, roots)
			}
			delete(st.mem, o)
			renameObj(st, o, s)
			// the template itself may refer to the renamed object
			st.mem[s] = mapObjs(tm, o, s).(*VTmpl)
		}
	}
	st.mem[o] = content
	return o
}

func (m *Mach) referenced(st *State, o ObjID) bool {
	found := false
	w := walker{obj: func(p ObjID) {
		if p == o {
			found = true
		}
	}}
	for _, f := range st.fr {
		for _, v := range f.vals {
			if v != nil && !found {
				w.val(v)
			}
		}
	}
	for k, v := range st.mem {
		if k != o && !found {
			w.val(v)
		}
	}
	return found
}

func renameObj(st *State, from, to ObjID) {
	if len(st.vc) > 0 {
		vc := append([]fieldCache(nil), st.vc...)
		for i, c := range vc {
			c.v = mapObjs(c.v, from, to)
			c.tg = mapObjs(VPtr{tg: c.tg}, from, to).(VPtr).tg
			vc[i] = c
		}
		st.vc = vc
	}
	for i, f := range st.fr {
		var g *Frame
		if f.keep != nil {
			g = &Frame{fi: f.fi, ctx: f.ctx, vals: append([]Val(nil), f.vals...), own: st}
		}
		for k, v := range f.vals {
			if v == nil || !refersTo(v, from) {
				continue
			}
			if g == nil {
				g = &Frame{fi: f.fi, ctx: f.ctx, vals: append([]Val(nil), f.vals...), own: st}
			}
			g.vals[k] = mapObjs(v, from, to)
		}
		if g != nil {
			st.fr = append([]*Frame(nil), st.fr...)
			st.fr[i] = g
			if i != len(st.fr)-1 {
				g.own = nil
			}
		}
	}
	for k, v := range st.mem {
		if refersTo(v, from) {
			st.mem[k] = mapObjs(v, from, to)
		}
	}
}

func refersTo(v Val, o ObjID) bool {
	found := false
	w := walker{obj: func(p ObjID) {
		if p == o {
			found = true
		}
	}}
	w.val(v)
	return found
}

func mapObjs(v Val, from, to ObjID) Val {
	mt := func(tg []Tgt) []Tgt {
		out := make([]Tgt, 0, len(tg))
		for _, t := range tg {
			if t.o == from {
				t = Tgt{to, t.p}
				dup := false
				for _, y := range out {
					if y.o == to && sameSel(y.p, t.p) {
						dup = true
					}
				}
				if dup {
					continue
				}
			}
			out = append(out, t)
		}
		return out
	}
	switch v := v.(type) {
	case VPtr:
		return VPtr{v.nn, mt(v.tg)}
	case VSlice:
		return VSlice{v.nn, mt(v.arr), v.off, v.ln, v.cp}
	case VMap:
		o := VMap{nn: v.nn}
		for _, x := range v.o {
			if x == from {
				x = to
			}
			o.o = append(o.o, x)
		}
		return o
	case VStruct:
		o := VStruct{make([]Val, len(v.f))}
		for i, f := range v.f {
			o.f[i] = mapObjs(f, from, to)
		}
		return o
	case *VArr:
		o := &VArr{et: v.et}
		for _, e := range v.elems {
			o.elems = append(o.elems, arrElem{e.i, mapObjs(e.v, from, to)})
		}
		if v.cell != nil {
			o.cell = &arrCell{v.cell.idx, mapObjs(v.cell.v, from, to)}
		}
		if v.rest != nil {
			o.rest = mapObjs(v.rest, from, to).(*VTmpl)
		}
		if v.seg {
			o.seg, o.pos = true, v.pos
			if v.pfx != nil {
				o.pfx = mapObjs(v.pfx, from, to).(*VTmpl)
			}
		}
		return o
	case *VTmpl:
		if v.ext {
			return v
		}
		o := *v
		o.v = mapObjs(v.v, from, to)
		return &o
	case VIface:
		o := VIface{nn: v.nn, open: v.open}
		for _, a := range v.alts {
			o.alts = append(o.alts, IfAlt{a.t, mapObjs(a.v, from, to)})
		}
		return o
	case VFunc:
		o := VFunc{nn: v.nn, open: v.open}
		for _, a := range v.alts {
			b := FnAlt{fn: a.fn}
			if a.recv != nil {
				b.recv = mapObjs(a.recv, from, to)
			}
			for _, x := range a.binds {
				b.binds = append(b.binds, mapObjs(x, from, to))
			}
			o.alts = append(o.alts, b)
		}
		return o
	case VTuple:
		o := make(VTuple, len(v))
		for i, x := range v {
			o[i] = mapObjs(x, from, to)
		}
		return o
	case VIter:
		return VIter{mapObjs(v.m, from, to)}
	}
	return v
}

// fieldKey is the value a field address is derived from, and the path of the field: fields and loads known to be unchanged.
func (st *State) fieldKey(v ssa.Value) (ssa.Value, string) {
	path := ""
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			break
		}
		path = fmt.Sprintf(".%d%s", fa.Field, path)
		v = fa.X
	}
	if path == "" {
		return nil, ""
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		for _, c := range st.vc {
			for _, n := range c.names {
				if n == v {
					return c.root, c.path + "*" + path
				}
			}
		}
	}
	return v, path
}

// dropFields forgets the fields read from objects that are about to be written.
func (st *State) dropFields(tg []Tgt) {
	if st.vc == nil {
		return
	}
	hit := func(c fieldCache) bool {
		for _, a := range c.tg {
			for _, b := range tg {
				if a.o == b.o {
					return true
				}
			}
		}
		return false
	}
	var out, gone []fieldCache
	for _, c := range st.vc {
		if hit(c) {
			gone = append(gone, c)
		}
	}
next:
	for _, c := range st.vc {
		for _, g := range gone {
			if c.root == g.root && (c.path == g.path || strings.HasPrefix(c.path, g.path+"*")) {
				continue next
			}
		}
		out = append(out, c)
	}
	st.vc = out
}

// ---- instructions

// instr executes a simple instruction; it may return additional states that continue after it.
func (m *Mach) instr(x *fexec, st *State, in ssa.Instruction) []*State {
	if st.lc != nil {
		switch in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
		default:
			st.lc = nil
		}
	}
	if st.vc != nil {
		switch in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef,
			*ssa.MakeSlice, *ssa.Alloc, *ssa.Store:
			// stores and allocations drop what they may affect
		default:
			st.vc = nil
		}
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := m.alloc(st, x, in, "", t, zeroVal(t))
		st.set(in, VPtr{nn: K(1), tg: []Tgt{{o: o}}})
		if m.cellKeys && in.Heap && stateCell(in) && !containsObj(m.cells, o) {
			m.cells = append(m.cells, o)
		}
	case *ssa.BinOp:
		st.set(in, m.binop(x, st, in))
	case *ssa.UnOp:
		if x.fi.again[in] && st.top().vals[x.fi.num[in]] != nil {
			return nil
		}
		return m.unop(x, st, in)
	case *ssa.ChangeType:
		st.set(in, m.eval(st, in.X))
	case *ssa.ChangeInterface:
		st.set(in, m.eval(st, in.X))
	case *ssa.Convert:
		st.set(in, m.convert(x, st, in, in.X, in.Type()))
	case *ssa.MultiConvert:
		st.set(in, m.unknownVal(st, in.Type(), "multiconvert", true, 0))
	case *ssa.MakeInterface:
		st.set(in, VIface{nn: K(1), alts: []IfAlt{{in.X.Type(), m.eval(st, in.X)}}})
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range in.Bindings {
			b = append(b, m.eval(st, v))
		}
		st.set(in, VFunc{nn: K(1), alts: []FnAlt{{fn: in.Fn.(*ssa.Function), binds: b}}})
	case *ssa.MakeMap:
		t := in.Type().Underlying().(*types.Map)
		o := m.alloc(st, x, in, "", types.NewArray(t.Elem(), -1), &VArr{et: t.Elem()})
		st.set(in, VMap{nn: K(1), o: []ObjID{o}})
	case *ssa.MakeSlice:
		ln := m.evalInt(st, in.Len)
		if m.pastMake {
			if sl, ok := in.Type().Underlying().(*types.Slice); ok {
				if _, ok := sl.Elem().Underlying().(*types.Slice); ok {
					st.past = true
				}
			}
		}
		cp := m.evalInt(st, in.Cap)
		m.need(x, st, in, "make", ln, func() string { return "make with a negative length" })
		// absurd lengths panic too
		if r := st.num.rng(ln); r.hi > 2*maxMake { // a sum of two lengths of things that exist
			d := lsub(K(2*maxMake), ln)
			if !st.num.prove(d) {
				m.record(in, "make", false, "make with an unbounded length", x.ctx)
				if m.trace {
					fmt.Println("make", showVal(VInt{ln}, st.num), st.num.cons)
				}
			}
			st.num.GE(d)
		}
		if !cp.eq(ln) {
			m.need(x, st, in, "make", lsub(cp, ln), func() string { return "make with a capacity smaller than the length" })
			if r := st.num.rng(cp); r.hi > maxMake {
				d := lsub(K(maxMake), cp)
				if !st.num.prove(d) {
					m.record(in, "make", false, "make with an unbounded capacity", x.ctx)
				}
				st.num.GE(d)
			}
		}
		if m.checkMem {
			m.needSize(x, st, in, cp, in.Type().Underlying().(*types.Slice).Elem(), "make")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		o := m.alloc(st, x, in, "", types.NewArray(et, -1), &VArr{rest: &VTmpl{v: zeroVal(et)}, et: et, seg: !ln.isConst() && hasRef(et), pos: K(0)})
		if ln.isConst() && ln.c == 0 {
			// nothing is readable before an append, which makes a new array; see slice for the elements past the length
			st.mem[o] = &VArr{et: et}
		}
		st.set(in, VSlice{nn: K(1), arr: []Tgt{{o: o}}, off: K(0), ln: ln, cp: cp})
	case *ssa.Store:
		p, ok := m.eval(st, in.Addr).(VPtr)
		if ok {
			m.needPtr(x, st, in, p, "")
			if !st.bot() {
				st.dropFields(p.tg)
				m.store(st, p.tg, m.eval(st, in.Val))
			}
		} else {
			st.vc = nil
		}
	case *ssa.FieldAddr:
		p, ok := m.eval(st, in.X).(VPtr)
		if ok {
			m.needPtr(x, st, in, p, "")
			st.set(in, VPtr{nn: K(1), tg: addSel(p.tg, Sel{field: in.Field})})
		}
	case *ssa.Field:
		if s, ok := m.eval(st, in.X).(VStruct); ok {
			st.set(in, s.f[in.Field])
		}
	case *ssa.IndexAddr:
		idx := m.evalInt(st, in.Index)
		switch v := m.eval(st, in.X).(type) {
		case VSlice:
			m.needIdx(x, st, in, idx, v.ln)
			i, ok := v.off.add(idx)
			s := Sel{field: -1, idx: i}
			if !ok {
				s = Sel{field: -1, any: true}
			}
			if f := m.externInv(in); f != nil && !st.bot() {
				// an element of what a dependency returned, seen through a copy
				t := in.Type().(*types.Pointer).Elem()
				name := fmt.Sprintf("inv:%s@%d.%d", FName(x.fi.fn), x.ctx, x.fi.instrNum[in])
				o := internObj(name, t, false, false)
				st.mem[o] = m.unknownVal(st, t, name, true, 0)
				w := VPtr{nn: K(1), tg: []Tgt{{o: o}}}
				st.set(in, w)
				return m.applyInv(st, f, w, false)
			}
			st.set(in, VPtr{nn: K(1), tg: addSel(v.arr, s)})
		case VPtr:
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			m.needPtr(x, st, in, v, "")
			m.needIdx(x, st, in, idx, K(n))
			st.set(in, VPtr{nn: K(1), tg: addSel(v.tg, Sel{field: -1, idx: idx})})
		}
	case *ssa.Index:
		idx := m.evalInt(st, in.Index)
		switch v := m.eval(st, in.X).(type) {
		case *VArr:
			n := in.X.Type().Underlying().(*types.Array).Len()
			m.needIdx(x, st, in, idx, K(n))
			r := m.arrLoad(st, v, Sel{field: -1, idx: idx})
			if r == nil {
				r = m.unknownVal(st, in.Type(), "index", true, 0)
			}
			st.set(in, r)
		case VStr:
			m.needIdx(x, st, in, idx, v.ln)
			if v.cst != nil && idx.isConst() && idx.c >= 0 && idx.c < int64(len(*v.cst)) {
				st.set(in, VInt{K(int64((*v.cst)[idx.c]))})
			} else {
				st.set(in, VInt{fresh(Iv{0, 255})})
			}
		default:
			st.set(in, m.unknownVal(st, in.Type(), "index", true, 0))
		}
	case *ssa.Slice:
		m.slice(x, st, in)
	case *ssa.SliceToArrayPointer:
		v, ok := m.eval(st, in.X).(VSlice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if ok {
			m.need(x, st, in, "slice to array", laddc(v.ln, -n), func() string { return "conversion of a slice that may be too short" })
			m.gaps["slice to array pointer"]++
		}
		st.set(in, m.unknownVal(st, in.Type(), "s2a", true, 0))
	case *ssa.TypeAssert:
		return m.typeAssert(x, st, in)
	case *ssa.Extract:
		if t, ok := m.eval(st, in.Tuple).(VTuple); ok && in.Index < len(t) && t[in.Index] != nil {
			st.set(in, t[in.Index])
		} else {
			st.set(in, m.unknownVal(st, in.Type(), "extract", true, 0))
		}
	case *ssa.Lookup:
		return m.lookup(x, st, in)
	case *ssa.MapUpdate:
		if v, ok := m.eval(st, in.Map).(VMap); ok {
			m.need(x, st, in, "nil", laddc(v.nn, -1), func() string { return "assignment to an entry of a nil map" })
			for _, o := range v.o {
				st.mem[o] = m.storePath(st, m.content(st, o), []Sel{{field: -1, any: true}}, m.eval(st, in.Value), true)
			}
		}
	case *ssa.Range:
		st.set(in, VIter{m.eval(st, in.X)})
	case *ssa.Next:
		it, _ := m.eval(st, in.Iter).(VIter)
		ok := unkBool()
		tt := in.Type().(*types.Tuple)
		var k, v Val
		if tt.At(1).Type() != types.Typ[types.Invalid] {
			k = m.unknownVal(st, tt.At(1).Type(), "key", true, 0)
		}
		switch c := it.m.(type) {
		case VMap:
			if tt.At(2).Type() != types.Typ[types.Invalid] {
				var tg []Tgt
				for _, o := range c.o {
					tg = append(tg, Tgt{o, []Sel{{field: -1, any: true}}})
				}
				v = m.load(st, tg, tt.At(2).Type())
			}
		case VStr:
			// index within the string
			if ki, isI := k.(VInt); isI {
				st.num.GE(ki.l)
				st.num.GE(lsub(laddc(c.ln, 0), ki.l))
			}
		}
		if v == nil && tt.At(2).Type() != types.Typ[types.Invalid] {
			v = m.unknownVal(st, tt.At(2).Type(), "rangeval", true, 0)
		}
		st.set(in, VTuple{ok, k, v})
	case *ssa.RunDefers, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
		m.gaps[fmt.Sprintf("%T in %s", in, FName(x.fi.fn))]++
		if v, ok := in.(ssa.Value); ok {
			st.set(v, m.unknownVal(st, v.Type(), "sel", true, 0))
		}
	case *ssa.MakeChan:
		st.set(in, VTop{})
	default:
		m.gaps[fmt.Sprintf("%T in %s", in, FName(x.fi.fn))]++
		if v, ok := in.(ssa.Value); ok {
			st.set(v, m.unknownVal(st, v.Type(), "unsupported", true, 0))
		}
	}
	return nil
}

func (m *Mach) needIdx(x *fexec, st *State, in ssa.Instruction, idx, n Lin) {
	m.need(x, st, in, "index", idx, func() string { return "the index may be negative" })
	m.need(x, st, in, "index", laddc(lsub(n, idx), -1), func() string {
		r, q := st.num.rng(idx), st.num.rng(n)
		return fmt.Sprintf("index out of range: the index may reach the length (index up to %s, length from %s)", showB(r.hi), showB(q.lo))
	})
}

func (m *Mach) unop(x *fexec, st *State, in *ssa.UnOp) []*State {
	switch in.Op {
	case token.MUL:
		p, ok := m.eval(st, in.X).(VPtr)
		if !ok {
			st.set(in, m.unknownVal(st, in.Type(), "load", true, 0))
			return nil
		}
		m.needPtr(x, st, in, p, "")
		if st.bot() {
			return nil
		}
		if f := m.elemInv(in); f != nil {
			// elements of a slice of parsed structures satisfy the invariant of their type
			t := in.Type().(*types.Pointer).Elem()
			name := fmt.Sprintf("inv:%s@%d.%d", FName(x.fi.fn), x.ctx, x.fi.instrNum[in])
			o := internObj(name, t, false, false)
			st.mem[o] = m.unknownVal(st, t, name, true, 0)
			v := VPtr{nn: K(1), tg: []Tgt{{o: o}}}
			st.set(in, v)
			return m.applyInv(st, f, v, false)
		}
		if root, path := st.fieldKey(in.X); root != nil {
			for i, c := range st.vc {
				if c.root == root && c.path == path && tgtsEq(c.tg, p.tg) {
					n := append([]fieldCache(nil), st.vc...)
					n[i].names = append(c.names[:len(c.names):len(c.names)], in)
					st.vc = n
					st.set(in, c.v)
					return nil
				}
			}
			v := m.load(st, p.tg, in.Type())
			st.vc = append(st.vc[:len(st.vc):len(st.vc)], fieldCache{root, path, []ssa.Value{in}, p.tg, v})
			st.set(in, v)
			return nil
		}
		v := m.load(st, p.tg, in.Type())
		st.set(in, v)
	case token.NOT:
		if b, ok := m.eval(st, in.X).(VBool); ok {
			st.set(in, b.not())
		} else {
			st.set(in, unkBool())
		}
	case token.SUB:
		if !isInt(in.Type()) {
			st.set(in, VTop{})
			return nil
		}
		l, ok := m.evalInt(st, in.X).scale(-1)
		st.set(in, VInt{m.fit(st, l, ok, in.Type())})
	case token.XOR:
		// ^x = -x-1 for signed, max-x for unsigned
		l := m.evalInt(st, in.X)
		iv, _ := intRange(in.Type())
		if iv.lo < 0 {
			n, ok := l.scale(-1)
			st.set(in, VInt{m.fit(st, laddc(n, -1), ok, in.Type())})
		} else if iv.hi < posInf {
			st.set(in, VInt{lsub(K(iv.hi), l)})
		} else {
			st.set(in, VInt{fresh(iv)})
		}
	default:
		m.gaps["unary "+in.Op.String()]++
		st.set(in, m.unknownVal(st, in.Type(), "unop", true, 0))
	}
	return nil
}

func (m *Mach) convInt(st *State, l Lin, t types.Type) Lin {
	iv, _ := intRange(t)
	r := st.num.rng(l)
	if r.lo >= iv.lo && r.hi <= iv.hi && (iv.hi != posInf || iv.lo != negInf || r.hi != posInf) {
		return l
	}
	lo := iv.lo
	hi := iv.hi
	okLo := r.lo >= lo || (lo > negInf && st.num.prove(laddc(l, -lo)))
	okHi := r.hi <= hi
	if hi == posInf {
		// int64 target of an unbounded uint64 may wrap; uint64 target never exceeds
		if lo == negInf && r.hi == posInf {
			d, ok := K(big - 1).sub(l)
			okHi = ok && st.num.prove(d)
			if isFullSigned(st, l) {
				okHi = true
			}
		} else {
			okHi = true
		}
	} else if !okHi {
		d, ok := K(hi).sub(l)
		okHi = ok && st.num.prove(d)
	}
	if okLo && okHi {
		return l
	}
	bits, uns := intBits(t)
	if !uns && bits <= 32 && lo == 0 {
		// unsigned target: reduction modulo 2^bits
		q := m.floorQuo(st, l, int64(1)<<uint(bits))
		if cq, ok := q.scale(int64(1) << uint(bits)); ok {
			if y, ok := l.sub(cq); ok {
				ry := st.num.rng(y)
				if ry.lo >= 0 && ry.hi <= iv.hi {
					return y
				}
				// bounds are in the constraints: name the value
				z := fresh(iv)
				st.num.EQ(lsub(z, y))
				return z
			}
		}
	}
	return m.wrapped(st, l, t)
}

// isFullSigned: the expression is built from signed 64-bit values only, its unbounded range is that of its type.
func isFullSigned(st *State, l Lin) bool {
	for _, t := range l.t {
		if symTab[t.s].iv.lo != negInf && st.num.bounds(t.s).hi == posInf {
			return false
		}
	}
	return true
}

func (m *Mach) convert(x *fexec, st *State, in ssa.Instruction, xv ssa.Value, to types.Type) Val {
	v := m.eval(st, xv)
	from := xv.Type()
	if isInt(to) {
		if i, ok := v.(VInt); ok && isInt(from) {
			return VInt{m.convInt(st, i.l, to)}
		}
		iv, _ := intRange(to)
		if f, ok := v.(VFlt); ok {
			if lo, hi := math.Trunc(f.lo), math.Trunc(f.hi); lo >= float64(iv.lo) && lo >= -1<<60 && hi <= float64(iv.hi) && hi <= 1<<60 {
				iv = Iv{int64(lo), int64(hi)}
			}
		}
		return VInt{fresh(iv)}
	}
	tb, _ := to.Underlying().(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch s := v.(type) {
		case VSlice:
			if sl, ok := from.Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return VStr{ln: s.ln, id: fresh(fullIv)}
				}
			}
			return VStr{ln: freshLen(), id: fresh(fullIv)}
		case VStr:
			return s
		}
		return VStr{ln: freshLen(), id: fresh(fullIv)}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(VStr); ok {
			ln := s.ln
			if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				ln = freshLen()
				st.num.GE(lsub(s.ln, ln))
			}
			o := m.alloc(st, x, in, "conv", types.NewArray(sl.Elem(), -1), &VArr{rest: &VTmpl{ext: true, t: sl.Elem(), name: "conv"}, et: sl.Elem()})
			return VSlice{nn: K(1), arr: []Tgt{{o: o}}, off: K(0), ln: ln, cp: ln}
		}
		if s, ok := v.(VSlice); ok {
			return s
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		if p, ok := v.(VPtr); ok {
			return p
		}
	}
	if tb != nil && tb.Info()&types.IsFloat != 0 {
		if i, ok := v.(VInt); ok && tb.Kind() == types.Float64 {
			if r := st.num.rng(i.l); r.lo > -big && r.hi < big {
				return VFlt{float64(r.lo), float64(r.hi)}
			}
		}
		return VTop{}
	}
	return m.unknownVal(st, to, "conv", true, 0)
}

func (m *Mach) slice(x *fexec, st *State, in *ssa.Slice) {
	v := m.eval(st, in.X)
	low := K(0)
	if in.Low != nil {
		low = m.evalInt(st, in.Low)
	}
	neg := func() string { return "a slice bound may be negative" }
	var hiV, maxV *Lin
	if in.High != nil {
		h := m.evalInt(st, in.High)
		hiV = &h
	}
	if in.Max != nil {
		h := m.evalInt(st, in.Max)
		maxV = &h
	}
	check := func(low, high, cp Lin) {
		if sl, ok := v.(VSlice); ok && in.High != nil && !sl.cp.eq(sl.ln) {
			st.num.GE(lsub(sl.cp, sl.ln)) // true of every slice
		}
		if in.Low != nil {
			m.need(x, st, in, "slice", low, neg)
		}
		if in.High != nil || in.Low != nil {
			m.need(x, st, in, "slice", lsub(high, low), func() string {
				r, q := st.num.rng(low), st.num.rng(high)
				return fmt.Sprintf("slice bounds out of range: the low bound may exceed the high bound or length (low up to %s, high from %s)", showB(r.hi), showB(q.lo))
			})
		}
		if in.High != nil {
			m.need(x, st, in, "slice", lsub(cp, high), func() string {
				r, q := st.num.rng(high), st.num.rng(cp)
				return fmt.Sprintf("slice bounds out of range: the high bound may exceed the capacity (high up to %s, capacity from %s)", showB(r.hi), showB(q.lo))
			})
		}
	}
	switch v := v.(type) {
	case VSlice:
		high := v.ln
		if hiV != nil {
			high = *hiV
		}
		cp := v.cp
		if maxV != nil {
			m.need(x, st, in, "slice", lsub(v.cp, *maxV), func() string { return "the maximum of a slice expression may exceed the capacity" })
			cp = *maxV
		}
		check(low, high, cp)
		if hiV != nil && !st.bot() && !st.num.prove(lsub(v.ln, high)) {
			// elements between the length and the capacity become readable
			if sl, ok := in.X.Type().Underlying().(*types.Slice); ok {
				zero := &VTmpl{v: zeroVal(sl.Elem())}
				for _, tg := range v.arr {
					if ca, ok := st.mem[tg.o].(*VArr); ok && len(tg.p) == 0 && (ca.rest == nil || !ca.rest.ext) {
						ca = m.flat(st, ca)
						st.mem[tg.o] = &VArr{et: ca.et, elems: ca.elems, rest: m.joinTmpl(st, ca.rest, zero, st.roots())}
					}
				}
			}
		}
		st.set(in, VSlice{nn: v.nn, arr: v.arr, off: ladd(v.off, low), ln: lsub(high, low), cp: lsub(cp, low)})
	case VPtr: // pointer to array
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		m.needPtr(x, st, in, v, "")
		high := K(n)
		if hiV != nil {
			high = *hiV
		}
		check(low, high, K(n))
		if al, ok := in.X.(*ssa.Alloc); ok && al.Comment == "makeslice" && high.isConst() && high.c == 0 && len(v.tg) == 1 && len(v.tg[0].p) == 0 {
			if ca, ok := st.mem[v.tg[0].o].(*VArr); ok {
				st.mem[v.tg[0].o] = &VArr{et: ca.et}
			}
		}
		st.set(in, VSlice{nn: K(1), arr: v.tg, off: low, ln: lsub(high, low), cp: lsub(K(n), low)})
	case VStr:
		high := v.ln
		if hiV != nil {
			high = *hiV
		}
		if in.Low != nil {
			m.need(x, st, in, "slice", low, neg)
		}
		m.need(x, st, in, "slice", lsub(high, low), func() string { return "slice bounds of a string out of range" })
		m.need(x, st, in, "slice", lsub(v.ln, high), func() string { return "slice bounds of a string out of range" })
		st.set(in, VStr{ln: lsub(high, low), id: fresh(fullIv)})
	default:
		st.set(in, m.unknownVal(st, in.Type(), "slice", true, 0))
	}
}

func (m *Mach) typeAssert(x *fexec, st *State, in *ssa.TypeAssert) []*State {
	v, ok := m.eval(st, in.X).(VIface)
	if !ok {
		v = VIface{nn: freshBit(), open: true}
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	match := func(t types.Type) bool {
		if toIface {
			return types.Implements(t, in.AssertedType.Underlying().(*types.Interface))
		}
		return types.Identical(t, in.AssertedType)
	}
	// value on success
	mk := func(s *State, a *IfAlt) Val {
		if toIface {
			if a != nil {
				return VIface{nn: K(1), alts: []IfAlt{*a}}
			}
			return VIface{nn: K(1), alts: nil, open: true}
		}
		if a != nil {
			return a.v
		}
		u := m.unknownVal(s, in.AssertedType, "assert@"+m.r.Pos(in.Pos()), true, 0)
		// pointers held by interfaces of unknown origin are assumed not nil
		if p, ok := u.(VPtr); ok {
			s.num.EQ(laddc(p.nn, -1))
		}
		return u
	}
	var forks []*State
	emit := func(s *State, val Val, okv bool) {
		if in.CommaOk {
			s.set(in, VTuple{val, mkBool(okv)})
		} else {
			s.set(in, val)
		}
	}
	certain := true // every possibility matches
	var succ []func(s *State)
	fail := false
	for i := range v.alts {
		a := &v.alts[i]
		if match(a.t) {
			succ = append(succ, func(s *State) {
				s.num.EQ(laddc(v.nn, -1))
				emit(s, mk(s, a), true)
			})
		} else {
			certain = false
			fail = true
		}
	}
	if v.open {
		certain = false
		fail = true
		succ = append(succ, func(s *State) {
			s.num.EQ(laddc(v.nn, -1))
			emit(s, mk(s, nil), true)
		})
	}
	nnProved := st.num.prove(laddc(v.nn, -1))
	if !nnProved {
		fail = true
		certain = false
	}
	if in.CommaOk {
		if fail {
			f := st.clone()
			if len(v.alts) > 0 && !v.open && len(succ) == len(v.alts) {
				f.num.GE(mustNeg(v.nn)) // only nil fails
			}
			emit(f, zeroVal(in.AssertedType), false)
			forks = append(forks, f)
		}
	} else {
		// single result: must succeed
		okA := certain
		if !okA && m.boxAssert(st, in, v) {
			okA = true
		}
		d := ""
		if !okA {
			d = fmt.Sprintf("type assertion to %s may fail", in.AssertedType)
		}
		m.record(in, "type assertion", okA, d, x.ctx)
	}
	// the last success continues in st
	for i, f := range succ {
		if i == len(succ)-1 {
			f(st)
		} else {
			s := st.clone()
			f(s)
			forks = append(forks, s)
		}
	}
	if len(succ) == 0 {
		st.num.bot = true
	}
	return forks
}

func (m *Mach) lookup(x *fexec, st *State, in *ssa.Lookup) []*State {
	switch v := m.eval(st, in.X).(type) {
	case VStr:
		idx := m.evalInt(st, in.Index)
		m.needIdx(x, st, in, idx, v.ln)
		st.set(in, VInt{fresh(Iv{0, 255})})
		return nil
	case VMap:
		et := in.X.Type().Underlying().(*types.Map).Elem()
		var tg []Tgt
		has := false
		for _, o := range v.o {
			tg = append(tg, Tgt{o, []Sel{{field: -1, any: true}}})
			if a, ok := m.content(st, o).(*VArr); !ok || a.rest != nil || len(a.elems) > 0 {
				has = true
			}
		}
		emit := func(s *State, val Val, ok bool) {
			if in.CommaOk {
				s.set(in, VTuple{val, mkBool(ok)})
			} else {
				s.set(in, val)
			}
		}
		var forks []*State
		if has {
			f := st.clone()
			f.num.GE(laddc(v.nn, -1))
			val := m.load(f, tg, et)
			emit(f, val, true)
			forks = append(forks, f)
		}
		emit(st, zeroVal(et), false)
		return forks
	}
	st.set(in, m.unknownVal(st, in.Type(), "lookup", true, 0))
	return nil
}

// ---- type invariants

// elemInv returns the invariant of the structures pointed to by the elements of a slice, for a load of such an element.
func (m *Mach) elemInv(in *ssa.UnOp) *ssa.Function {
	if len(m.r.invs) == 0 {
		return nil
	}
	ia, ok := in.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	// the element stored just before in the same block is not read back through the invariant
	for _, p := range in.Block().Instrs {
		if s, ok := p.(*ssa.Store); ok {
			if ib, ok := s.Addr.(*ssa.IndexAddr); ok && sameIdx(ia, ib) {
				return nil
			}
		}
		if p == ssa.Instruction(in) {
			break
		}
	}
	return m.r.invs[in.Type().String()]
}

// externInv returns the invariant of a structure of a dependency, for the address of an element of a slice of such
// structures that is only read.
func (m *Mach) externInv(in *ssa.IndexAddr) *ssa.Function {
	f := m.r.invs[in.Type().String()]
	if f == nil {
		return nil
	}
	n, ok := in.Type().(*types.Pointer).Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || IsRepoPath(n.Obj().Pkg().Path()) {
		return nil
	}
	for _, u := range *in.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(in) {
			return nil
		}
	}
	return f
}

func sameIdx(a, b *ssa.IndexAddr) bool {
	if a.Index != b.Index {
		return false
	}
	if a.X == b.X {
		return true
	}
	la, ok1 := a.X.(*ssa.UnOp)
	lb, ok2 := b.X.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	if la.X == lb.X {
		return true
	}
	fa, ok1 := la.X.(*ssa.FieldAddr)
	fb, ok2 := lb.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field
}

// applyInv runs an invariant function on a value, assuming or asserting what it states. The state is updated in place.
func (m *Mach) applyInv(st *State, f *ssa.Function, v Val, assert bool) []*State {
	old := m.invAssert
	m.invAssert = assert
	fi := m.fnInfo(f)
	fr := &Frame{fi: fi, ctx: 0, vals: make([]Val, fi.n), own: st}
	fr.vals[0] = v
	st.fr = append(append([]*Frame(nil), st.fr...), fr)
	outs := m.run(fi, 0, st.clone())
	m.invAssert = old
	var r *State
	for _, o := range outs {
		if o.st.bot() {
			continue
		}
		o.st.fr = append([]*Frame(nil), o.st.fr[:len(o.st.fr)-1]...)
		if r == nil {
			r = o.st
		} else {
			r, _, _ = joinStates(m, r, o.st, false)
		}
	}
	st.fr = st.fr[:len(st.fr)-1]
	if r == nil {
		st.num.bot = true
		return nil
	}
	st.mem, st.num, st.memo, st.sfact, st.ghost, st.fr = r.mem, r.num, r.memo, r.sfact, r.ghost, r.fr
	return nil
}
