package main

// States of the layout analysis: what is known of the terms, and the memory.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// SV is the description of a value: *T (integers and booleans), *SPtr, *SStruct, *SArr, *SSlice, SStr, *SIface, *SFn,
// STuple, *SMap, SAny.
type SV any

// SPtr points to part of an object. Objects with a name are inputs, created when first followed.
type SPtr struct {
	obj  int // 0: nil or named
	name string
	typ  types.Type // of what is pointed to
	path []pstep
	nilT *T // nil: not nil
}

type pstep struct {
	f int // field, or -1
	x *T  // element
}

type SStruct struct {
	typ types.Type
	f   []SV
}

// SArr is an array or what stands behind a slice.
type SArr struct {
	elem types.Type
	name string // input name; empty: zero outside what is stored
	el   map[string]arrEl
	junk bool  // elements unknown
	n    int64 // length of an array
	b    *bbuf
}

type arrEl struct {
	x *T
	v SV
}

type SSlice struct {
	arr         *SPtr // nil: nil slice
	off, ln, cp *T
	nilT        *T
	elem        types.Type
}

type SStr struct {
	known bool
	s     string
	name  string
	args  []SV
}

type SIface struct {
	typ types.Type // nil: nil interface
	v   SV
}

type SFn struct {
	fn   any // *ssa.Function or *ssa.Builtin
	bind []SV
}

type STuple []SV

type SMap struct {
	obj  int // where the content is, for maps that may change
	keys []SV
	vals []SV
	name string
}

// sameSV compares values by identity.
func sameSV(a, b SV) bool {
	if x, ok := a.(SStr); ok {
		y, ok := b.(SStr)
		return ok && x.known == y.known && x.s == y.s && x.name == y.name && len(x.args) == 0 && len(y.args) == 0
	}
	if x, ok := a.(STuple); ok {
		y, ok := b.(STuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameSV(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case SStr, STuple:
		return false
	}
	return a == b
}

// mapOf is the content of a map.
func (st *sst) mapOf(m *SMap) *SMap {
	if m.obj != 0 {
		return st.objs[m.obj].(*SMap)
	}
	return m
}

// sameKey: 1 the keys are the same, 0 they are not, -1 unknown; c is the condition, if there is one.
func (st *sst) sameKey(a, b SV) (int, *T) {
	if i, ok := a.(*SIface); ok {
		a = i.v
	}
	if i, ok := b.(*SIface); ok {
		b = i.v
	}
	switch x := a.(type) {
	case *T:
		if y, ok := b.(*T); ok {
			c := st.cmp("eq0", tsub(st.res(x), st.res(y)))
			return st.decide(c), c
		}
	case SStr:
		if y, ok := b.(SStr); ok && x.known && y.known {
			if x.s == y.s {
				return 1, nil
			}
			return 0, nil
		}
	case *SPtr:
		if y, ok := b.(*SPtr); ok && x.obj != 0 && y.obj != 0 && x.obj != y.obj {
			return 0, nil
		} else if ok && x.obj != 0 && x.obj == y.obj && len(x.path) == 0 && len(y.path) == 0 {
			return 1, nil
		}
	}
	return -1, nil
}

// SAny is a value nothing is known of.
type SAny struct{ why string }

// bbuf is the content of an array of bytes, by bit position.
type bbuf struct {
	groups map[*T]map[int]Bit // by base
	regs   []bregion
	reads  []bregion
	bad    string // a write that cannot be placed
}

type bregion struct {
	pos, n *T // bits
	src    *SPtr
	off    *T // bytes
	gap    string
}

func (b *bbuf) clone() *bbuf {
	o := &bbuf{groups: map[*T]map[int]Bit{}, bad: b.bad}
	for k, m := range b.groups {
		x := make(map[int]Bit, len(m))
		for i, v := range m {
			x[i] = v
		}
		o.groups[k] = x
	}
	o.regs = append(o.regs, b.regs...)
	o.reads = append(o.reads, b.reads...)
	return o
}

func (a *SArr) clone() *SArr {
	o := *a
	o.el = make(map[string]arrEl, len(a.el))
	for k, v := range a.el {
		o.el[k] = v
	}
	if a.b != nil {
		o.b = a.b.clone()
	}
	return &o
}

// scond is a decision taken on the way.
type scond struct {
	t     *T
	truth bool
}

type sforall struct {
	n     *T
	depth int
	cases [][]scond
}

type srng struct{ lo, hi int64 }

// sst is a state.
type sst struct {
	objs    map[int]SV // content of objects
	lazy    map[string]int
	rng     map[*T]srng
	ne      map[*T][]int64
	sub     map[*T]*T
	ineq    []*T // terms known to be <= 0
	conds   []scond
	foralls []sforall
	depth   int
	trace   []string
	boxes   []SV // recorded by the stand-ins
	infeas  bool
	split   bool // fields are split at bits that become known
}

func (s *sst) clone() *sst {
	o := &sst{
		objs: make(map[int]SV, len(s.objs)+4), lazy: make(map[string]int, len(s.lazy)+2), rng: make(map[*T]srng, len(s.rng)+2),
		ne: make(map[*T][]int64, len(s.ne)), sub: make(map[*T]*T, len(s.sub)), depth: s.depth,
	}
	for k, v := range s.objs {
		o.objs[k] = v
	}
	for k, v := range s.lazy {
		o.lazy[k] = v
	}
	for k, v := range s.rng {
		o.rng[k] = v
	}
	for k, v := range s.ne {
		o.ne[k] = v
	}
	for k, v := range s.sub {
		o.sub[k] = v
	}
	o.ineq = append([]*T{}, s.ineq...)
	o.conds = append([]scond{}, s.conds...)
	o.foralls = append([]sforall{}, s.foralls...)
	o.trace = append([]string{}, s.trace...)
	o.boxes = append([]SV{}, s.boxes...)
	return o
}

// range of a term

func (s *sst) rg(t *T) (int64, int64) { return s.rgd(t, 0) }

// rgIneq is the range of a term, given the inequalities known so far.
func (s *sst) rgIneq(d *T) (int64, int64) {
	lo, hi := s.rg(d)
	gd := coefGCD(d)
	for _, f := range s.ineq { // f <= 0, so d <= d-f and so on
		if gf := coefGCD(f); gd > 0 && gf > 0 && gd != gf {
			ts, co, c := f.parts()
			l := lcomb{m: map[*T]int64{}, c: -floordiv(-c, gf) * gd}
			for i, x := range ts {
				l.m[x] = co[i] / gf * gd
			}
			f = l.term()
		}
		e := tsub(d, f)
		if _, h := s.rg(e); h < hi {
			hi = h
		}
		e = tadd(d, f)
		if l, _ := s.rg(e); l > lo {
			lo = l
		}
	}
	return lo, hi
}

// coefGCD is the greatest common divisor of the coefficients of a term.
func coefGCD(t *T) int64 {
	_, co, _ := t.parts()
	g := int64(0)
	for _, x := range co {
		if x < 0 {
			x = -x
		}
		for x != 0 {
			g, x = x, g%x
		}
	}
	return g
}

func (s *sst) rgd(t *T, d int) (int64, int64) {
	lo, hi := t.lo, t.hi
	if r, ok := s.rng[t]; ok {
		lo, hi = max(lo, r.lo), min(hi, r.hi)
	}
	if d > 12 {
		return lo, hi
	}
	switch t.k {
	case tLin:
		l, h := t.c, t.c
		for i, a := range t.args {
			al, ah := s.rgd(a, d+1)
			x, y := mulInf(al, t.co[i]), mulInf(ah, t.co[i])
			if t.co[i] < 0 {
				x, y = y, x
			}
			l, h = addInf(l, x), addInf(h, y)
		}
		lo, hi = max(lo, l), min(hi, h)
		// y - mod(y,k) is a multiple of k
		for i, a := range t.args {
			if a.k != tOp || a.name != "mod" || t.co[i] > 0 {
				continue
			}
			y, k := a.args[0], a.args[1].c
			ty, _, _ := y.parts()
			has := false
			for _, u := range ty {
				for _, v := range t.args {
					has = has || u == v
				}
			}
			if !has {
				continue
			}
			m := -t.co[i]
			rl, rh := s.rgd(tsub(t, tmulc(tsub(y, a), m)), d+1)
			yl, yh := s.rgd(y, d+1)
			if yl > -tInf {
				lo = max(lo, addInf(rl, mulInf(floordiv(yl, k)*k, m)))
			}
			if yh < tInf {
				hi = min(hi, addInf(rh, mulInf(floordiv(yh, k)*k, m)))
			}
			break
		}
	case tBits:
		l, h := int64(0), int64(0)
		for i, b := range t.bits {
			if i >= 61 {
				return lo, hi
			}
			if b.k == 1 {
				l |= 1 << i
			}
			if b.k >= 1 {
				h |= 1 << i
			}
		}
		lo, hi = max(lo, l), min(hi, h)
	case tOp:
		switch t.name {
		case "div":
			al, ah := s.rgd(t.args[0], d+1)
			k := t.args[1].c
			lo = max(lo, floordiv(al, k))
			if ah < tInf {
				hi = min(hi, floordiv(ah, k))
			}
			if al <= -tInf {
				lo = -tInf
			}
		case "mod":
			al, ah := s.rgd(t.args[0], d+1)
			if al >= 0 && ah < t.args[1].c {
				lo, hi = max(lo, al), min(hi, ah)
			}
		}
	}
	return lo, hi
}

func floordiv(a, k int64) int64 {
	if a <= -tInf {
		return -tInf
	}
	q := a / k
	if a%k != 0 && a < 0 {
		q--
	}
	return q
}

// res rewrites a term with what is known: equalities, values fixed by their range.
func (s *sst) res(t *T) *T { return s.resd(t, map[*T]*T{}, 0) }

func (s *sst) resd(t *T, memo map[*T]*T, d int) *T {
	if t.k == tConst {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	r := t
	if u, ok := s.sub[t]; ok && d < 20 {
		r = s.resd(u, memo, d+1)
		memo[t] = r
		return r
	}
	switch t.k {
	case tLin:
		l := lcomb{m: map[*T]int64{}, c: t.c}
		for i, a := range t.args {
			l.addT(s.resd(a, memo, d+1), t.co[i])
		}
		r = l.term()
		if r.k == tLin && len(r.args) > 2 {
			r = s.joinLow(r)
		}
		if r.k == tLin && len(r.args) > 1 && r.c == 0 {
			if u := s.joinBits(r); u != nil {
				r = u
			}
		}
	case tBits:
		bs := make([]Bit, len(t.bits))
		ch := false
		for i, b := range t.bits {
			bs[i] = b
			if b.k == 2 {
				u := s.resd(b.t, memo, d+1)
				lo, hi := s.rg(u)
				if u != b.t || lo == hi || (lo >= 0 && bl64(hi) <= b.i) || sameQuot(lo, hi, b.i) {
					bs[i] = s.bitOf(u, b.i)
					ch = ch || bs[i] != b
				}
			}
		}
		if ch || true {
			r = s.normBits(bs)
		}
	case tOp:
		as := make([]*T, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = s.resd(a, memo, d+1)
			ch = ch || as[i] != a
		}
		if t.name == "div" || t.name == "mod" {
			r = s.divmod(t.name, as[0], as[1].c)
		} else if ch && t.name == "lt0" || t.name == "eq0" {
			r = s.cmp(t.name, as[0])
		} else if ch {
			r = top_(t.name, t.lo, t.hi, as...)
		}
	}
	if r.k != tConst {
		if lo, hi := s.rg(r); lo == hi && lo > -tInf && lo < tInf {
			r = tk(lo)
		}
	}
	memo[t] = r
	return r
}

// joinLow puts the low bits of a term together with those that follow them.
func (s *sst) joinLow(t *T) *T {
	for i, a := range t.args {
		m := a.args0c()
		if a.k != tOp || a.name != "mod" || !pow2(m) {
			continue
		}
		n := bitlen(m) - 1
		for j, b := range t.args {
			if b.k != tBits || len(b.bits)+n > 59 || t.co[j] != t.co[i]<<n {
				continue
			}
			run := true
			for k, c := range b.bits {
				run = run && c.k == 2 && c.t == a.args[0] && c.i == n+k
			}
			if run {
				r := tsub(tsub(t, tmulc(a, t.co[i])), tmulc(b, t.co[j]))
				return s.joinLow(tadd(r, tmulc(s.divmod("mod", a.args[0], m<<len(b.bits)), t.co[i])))
			}
		}
	}
	return t
}

// joinBits recognises a term cut into adjacent runs of bits.
func (s *sst) joinBits(t *T) *T {
	var bs [60]Bit
	n := 0
	for i, a := range t.args {
		k := t.co[i]
		if !pow2(k) {
			return nil
		}
		lo, hi := s.rg(a)
		if lo < 0 || hi >= 1<<40 {
			return nil
		}
		sh, w := bitlen(k)-1, bitlen(hi)
		if sh+w > 59 {
			return nil
		}
		for j := 0; j < w; j++ {
			b := s.bitOf(a, j)
			if b.k == 0 {
				continue
			}
			if bs[sh+j].k != 0 || b.k == 1 {
				return nil
			}
			bs[sh+j] = b
			n = max(n, sh+j+1)
		}
	}
	for j := 0; j < n; j++ {
		if bs[j].k != 2 || bs[j].t != bs[0].t || bs[j].i != j {
			return nil
		}
	}
	if n == 0 {
		return nil
	}
	if r := s.normBits(bs[:n]); r.k != tBits {
		return r
	}
	return nil
}

// bitOf is one bit of a term (two's complement).
func (s *sst) bitOf(t *T, i int) Bit {
	switch t.k {
	case tConst:
		if i >= 63 {
			if t.c < 0 {
				return Bit{k: 1}
			}
			return Bit{}
		}
		return Bit{k: uint8(t.c >> i & 1)}
	case tBits:
		if i < len(t.bits) {
			return t.bits[i]
		}
		return Bit{}
	case tOp:
		if t.name == "div" && pow2(t.args[1].c) {
			return s.bitOf(t.args[0], i+bitlen(t.args[1].c)-1)
		}
		if t.name == "mod" && pow2(t.args[1].c) {
			if i < bitlen(t.args[1].c)-1 {
				return s.bitOf(t.args[0], i)
			}
			return Bit{}
		}
	}
	lo, hi := s.rg(t)
	if lo == hi {
		return s.bitOf(tk(lo), i)
	}
	if lo >= 0 && i >= bl64(hi) {
		return Bit{}
	}
	if sameQuot(lo, hi, i) {
		return Bit{k: uint8(lo >> i & 1)}
	}
	// an even multiple of something has known low bits
	if t.k == tLin {
		ok := true
		for _, k := range t.co {
			if i >= 60 || k%(1<<(i+1)) != 0 {
				ok = false
			}
		}
		if ok {
			return Bit{k: uint8(t.c >> i & 1)}
		}
		g := t.c
		for _, k := range t.co {
			g = gcd64(g, k)
		}
		if m := g & -g; m > 1 {
			l := lcomb{m: map[*T]int64{}, c: t.c / m}
			for j, a := range t.args {
				l.m[a] = t.co[j] / m
			}
			return s.bitOf(l.term(), i-bitlen(m)+1)
		}
		for j, a := range t.args {
			if a.k != tOp || !pow2(a.args0c()) {
				continue
			}
			m := bitlen(a.args[1].c) - 1
			switch {
			case a.name == "div" && t.co[j] == 1:
				// div(y,m)+r is div(y+m*r,m)
				y := tadd(a.args[0], tmulc(tsub(t, a), 1<<m))
				return s.bitOf(y, i+m)
			case a.name == "mod" && t.co[j] == -1 && i < 62:
				y := tadd(t, a)
				if d := tsub(y, a.args[0]); d.isC() && d.c%(1<<m) == 0 || s.divmod("mod", y, 1<<m) == a {
					if i < m {
						return Bit{}
					}
					return s.bitOf(y, i)
				}
			}
		}
	}
	return Bit{k: 2, t: t, i: i}
}

// sameQuot: bit i and those above it are the same in the whole range.
func sameQuot(lo, hi int64, i int) bool {
	return i < 61 && lo > -tInf && hi < tInf && lo>>i == hi>>i
}

func bl64(hi int64) int {
	if hi >= tInf {
		return 64
	}
	return bitlen(hi)
}

func pow2(x int64) bool { return x > 0 && x&(x-1) == 0 }

func (s *sst) bitsOf(t *T, w int) []Bit {
	out := make([]Bit, w)
	for i := range out {
		out[i] = s.bitOf(t, i)
	}
	return out
}

// args0c is the divisor of a quotient or remainder.
func (t *T) args0c() int64 {
	if (t.name == "div" || t.name == "mod") && len(t.args) == 2 && t.args[1].isC() {
		return t.args[1].c
	}
	return 0
}

// normBits is the canonical term of non-negative bits.
func (s *sst) normBits(bs []Bit) *T {
	n := len(bs)
	for n > 0 && bs[n-1].k == 0 {
		n--
	}
	bs = bs[:n]
	if n == 0 {
		return tk(0)
	}
	allC := true
	var c int64
	for i, b := range bs {
		if b.k == 2 {
			allC = false
		} else if b.k == 1 && i < 62 {
			c |= 1 << i
		}
	}
	if allC && n <= 61 {
		return tk(c)
	}
	// low zeros: a multiple
	z := 0
	for bs[z].k == 0 {
		z++
	}
	if z > 0 && z < 40 && n <= 61 {
		return tmulc(s.normBits(bs[z:]), 1<<z)
	}
	// bits j.. of one term
	if bs[0].k == 2 && bs[n-1].k == 2 {
		t, j := bs[n-1].t, bs[0].i
		run := true
		for i, b := range bs {
			if b.k != 2 || b.i != j+i {
				run = false
				break
			}
			if b.t == t {
				continue
			}
			d := tsub(b.t, t)
			if !d.isC() || b.i >= 60 || d.c%(1<<(b.i+1)) != 0 {
				run = false
				break
			}
		}
		if run {
			lo, hi := s.rg(t)
			whole := lo >= 0 && bl64(hi) <= j+n
			switch {
			case j == 0 && whole:
				return t
			case j == 0 && n < 61:
				return s.divmod("mod", t, 1<<n)
			case j > 0 && whole && j < 61:
				return s.divmod("div", t, 1<<j)
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("b")
	hi := int64(0)
	for i, b := range bs {
		if b.k == 2 {
			fmt.Fprintf(&sb, " %d.%d", b.t.id, b.i)
		} else {
			fmt.Fprintf(&sb, " %d", b.k)
		}
		if i < 61 && b.k > 0 {
			hi |= 1 << i
		}
	}
	if n > 61 {
		hi = tInf
	}
	return intern(&T{k: tBits, bits: append([]Bit{}, bs...), lo: 0, hi: hi, key: sb.String()})
}

// divmod is the floor quotient or remainder by a positive constant.
// unwrap removes from a term, of which only the value modulo k counts, the reductions modulo multiples of k.
func unwrap(t *T, k int64) *T {
	if k <= 0 {
		return t
	}
	of := func(a *T) *T {
		for a.k == tOp {
			m := int64(0)
			switch a.name {
			case "mod":
				m = a.args0c()
			case "sext8", "sext16", "sext32":
				var w int
				fmt.Sscanf(a.name, "sext%d", &w)
				m = 1 << w
			}
			if m == 0 || m%k != 0 {
				break
			}
			a = a.args[0]
		}
		return a
	}
	if t.k == tOp {
		return of(t)
	}
	if t.k != tLin {
		return t
	}
	for i, a := range t.args {
		if b := of(a); b != a {
			return unwrap(tadd(t, tmulc(tsub(b, a), t.co[i])), k)
		}
	}
	return t
}

func (s *sst) divmod(op string, t *T, k int64) *T {
	if op == "mod" {
		t = unwrap(t, k)
	}
	if k == 1 {
		if op == "div" {
			return t
		}
		return tk(0)
	}
	if t.isC() {
		q := floordiv(t.c, k)
		if op == "div" {
			return tk(q)
		}
		return tk(t.c - q*k)
	}
	if t.k == tBits && pow2(k) {
		n := bitlen(k) - 1
		if op == "div" {
			return s.normBits(t.bits[min(n, len(t.bits)):])
		}
		return s.normBits(t.bits[:min(n, len(t.bits))])
	}
	if lo, hi := s.rg(t); lo > -tInf && hi < tInf && floordiv(lo, k) == floordiv(hi, k) {
		if op == "div" {
			return tk(floordiv(lo, k))
		}
		return tsub(t, tk(k*floordiv(lo, k)))
	}
	if t.k == tLin {
		g := gcd64(t.c, k)
		for _, x := range t.co {
			g = gcd64(g, x)
		}
		if g > 1 {
			l := lcomb{m: map[*T]int64{}, c: t.c / g}
			for i, x := range t.args {
				l.m[x] = t.co[i] / g
			}
			r := s.divmod(op, l.term(), k/g)
			if op == "mod" {
				r = tmulc(r, g)
			}
			return r
		}
		// y - mod(y,m) is m*div(y,m)
		for j, a := range t.args {
			m := int64(0)
			if a.k == tOp && a.name == "mod" {
				m = a.args0c()
			} else if a.k == tBits && len(a.bits) < 40 {
				m = 1 << len(a.bits)
			}
			if m == 0 || t.co[j] != -1 {
				continue
			}
			if y := tadd(t, a); s.divmod("mod", y, m) == a {
				switch {
				case op == "div" && k%m == 0:
					return s.divmod("div", y, k)
				case op == "div" && m%k == 0:
					return tmulc(s.divmod("div", y, m), m/k)
				case op == "mod" && m%k == 0:
					return tk(0)
				case op == "mod" && k%m == 0:
					return tsub(s.divmod("mod", y, k), a)
				}
			}
		}
		if op == "div" && k < 1<<30 {
			for j, a := range t.args {
				if m := a.args0c(); a.k == tOp && a.name == "div" && t.co[j] == 1 && m < 1<<30 {
					return s.divmod("div", tadd(a.args[0], tmulc(tsub(t, a), m)), m*k)
				}
			}
		}
		// the part divisible by k goes out
		a, b := lcomb{m: map[*T]int64{}}, lcomb{m: map[*T]int64{}}
		for i, x := range t.args {
			if t.co[i]%k == 0 {
				a.m[x] = t.co[i] / k
			} else {
				b.m[x] = t.co[i]
			}
		}
		a.c = floordiv(t.c, k)
		b.c = t.c - a.c*k
		if len(a.m) > 0 || a.c != 0 {
			bt := b.term()
			if op == "mod" {
				return s.divmod(op, bt, k)
			}
			return tadd(a.term(), s.divmod(op, bt, k))
		}
	}
	if t.k == tOp && t.name == "div" && op == "div" && t.args[1].c < 1<<30 && k < 1<<30 {
		return s.divmod("div", t.args[0], t.args[1].c*k)
	}
	if t.k == tOp && t.name == "mod" && op == "mod" && t.args[1].c%k == 0 {
		return s.divmod("mod", t.args[0], k)
	}
	lo, hi := int64(-tInf), int64(tInf)
	if op == "mod" {
		lo, hi = 0, k-1
	} else {
		lo = floordiv(t.lo, k)
		if t.hi < tInf {
			hi = floordiv(t.hi, k)
		}
	}
	return top_(op, lo, hi, t, tk(k))
}

// cmp is the truth of d<0 or d==0.
func (s *sst) cmp(op string, d *T) *T {
	d = s.resd(d, map[*T]*T{}, 1)
	if d.k == tLin {
		g := int64(0)
		for _, x := range d.co {
			g = gcd64(x, g)
		}
		if g < 0 {
			g = -g
		}
		if g > 1 && (op == "lt0" || d.c%g == 0) {
			l := lcomb{m: map[*T]int64{}, c: floordiv(d.c, g)}
			for i, x := range d.args {
				l.m[x] = d.co[i] / g
			}
			d = l.term()
		}
	}
	lo, hi := s.rgIneq(d)
	if op == "lt0" {
		if hi < 0 {
			return tk(1)
		}
		if lo >= 0 {
			return tk(0)
		}
	} else {
		if lo > 0 || hi < 0 {
			return tk(0)
		}
		if lo == 0 && hi == 0 {
			return tk(1)
		}
		ts, co, c := d.parts()
		if len(ts) == 1 && (co[0] == 1 || co[0] == -1) {
			v := -c * co[0]
			for _, x := range s.ne[ts[0]] {
				if x == v {
					return tk(0)
				}
			}
			// a boolean compared with 0 or 1
			if l, h := s.rg(ts[0]); l == 0 && h == 1 {
				if v == 1 {
					return ts[0]
				}
				return tsub(tk(1), ts[0])
			}
			// bits that differ
			if ts[0].k == tBits && v >= 0 {
				for i, b := range ts[0].bits {
					if b.k < 2 && i < 62 && uint8(v>>i&1) != b.k {
						return tk(0)
					}
				}
				if bitlen(v) > len(ts[0].bits) {
					return tk(0)
				}
			}
		}
		if len(ts) > 0 && (co[0] < 0) {
			d = tmulc(d, -1)
		}
	}
	return top_(op, 0, 1, d)
}

func (s *sst) setRng(t *T, lo, hi int64) bool {
	l, h := s.rg(t)
	lo, hi = max(lo, l), min(hi, h)
	if lo > hi {
		return false
	}
	for {
		ch := false
		for _, x := range s.ne[t] {
			if x == lo && lo < hi {
				lo++
				ch = true
			} else if x == hi && lo < hi {
				hi--
				ch = true
			} else if x == lo && lo == hi {
				return false
			}
		}
		if !ch {
			break
		}
	}
	s.rng[t] = srng{lo, hi}
	// what the range of a quotient or of the bits says of the term below
	if t.k == tOp && t.name == "div" {
		k := t.args[1].c
		nl, nh := int64(-tInf), int64(tInf)
		if lo > -tInf {
			nl = mulInf(lo, k)
		}
		if hi < tInf {
			nh = addInf(mulInf(hi, k), k-1)
		}
		if nl > -tInf && !s.le0(tsub(tk(nl), t.args[0])) {
			return false
		}
		return nh >= tInf || s.le0(tsub(t.args[0], tk(nh)))
	}
	if t.k == tBits && lo == hi {
		for i, b := range t.bits {
			if b.k == 2 && i < 62 {
				if !s.setBit(b, uint8(lo>>i&1)) {
					return false
				}
			}
		}
	}
	return true
}

// setBit records the value of one bit, when it is a term of its own.
func (s *sst) setBit(b Bit, v uint8) bool {
	lo, hi := s.rg(b.t)
	if lo == 0 && hi == 1 && b.i == 0 {
		return s.setRng(b.t, int64(v), int64(v))
	}
	// a field of known width is split at this bit
	if s.split && b.t.k == tAtom && b.t.lo == 0 && lo >= 0 && b.t.hi < 1<<60 && s.sub[b.t] == nil {
		w := bitlen(b.t.hi)
		if b.t.hi != 1<<w-1 || b.i >= w {
			return true
		}
		bs := make([]Bit, w)
		if b.i > 0 {
			t := tatom(fmt.Sprintf("%s[%d:0]", b.t.name, b.i-1), 0, 1<<b.i-1)
			for i := range b.i {
				bs[i] = Bit{k: 2, t: t, i: i}
			}
		}
		bs[b.i] = Bit{k: v}
		if b.i < w-1 {
			t := tatom(fmt.Sprintf("%s[%d:%d]", b.t.name, w-1, b.i+1), 0, 1<<(w-1-b.i)-1)
			for i := b.i + 1; i < w; i++ {
				bs[i] = Bit{k: 2, t: t, i: i - b.i - 1}
			}
		}
		n := s.normBits(bs)
		_, h := s.rg(b.t)
		s.sub[b.t] = n
		if h < b.t.hi {
			return s.setRng(n, 0, h)
		}
	} else if u := s.sub[b.t]; u != nil && u != b.t {
		c := s.bitOf(s.res(u), b.i)
		if c.k < 2 {
			return c.k == v
		}
		if c.t != b.t {
			return s.setBit(c, v)
		}
	}
	return true
}

// assume adds a decision; false: contradiction.
func (s *sst) assume(c *T, truth bool) bool {
	c = s.res(c)
	if c.isC() {
		return (c.c != 0) == truth
	}
	s.conds = append(s.conds, scond{c, truth})
	return s.assume1(c, truth) && s.consistent()
}

// consistent tells whether the inequalities known so far can still hold.
func (s *sst) consistent() bool {
	for _, f := range s.ineq {
		if lo, _ := s.rg(s.res(f)); lo > 0 {
			return false
		}
	}
	return true
}

func (s *sst) assume1(c *T, truth bool) bool {
	// negation
	if c.k == tLin && len(c.args) == 1 && c.co[0] == -1 && c.c == 1 {
		return s.assume1(c.args[0], !truth)
	}
	v := int64(0)
	if truth {
		v = 1
	}
	if c.k == tOp && c.name == "lt0" {
		s.rng[c] = srng{v, v}
		d := c.args[0]
		if truth { // d+1 <= 0
			return s.le0(tadd(d, tk(1)))
		}
		return s.le0(tmulc(d, -1))
	}
	if c.k == tOp && c.name == "eq0" {
		s.rng[c] = srng{v, v}
		d := c.args[0]
		ts, co, k := d.parts()
		if len(ts) == 1 && k%co[0] != 0 {
			return !truth
		}
		if len(ts) == 1 {
			x := -k / co[0]
			if truth {
				return s.setRng(ts[0], x, x)
			}
			s.ne[ts[0]] = append(append([]int64{}, s.ne[ts[0]]...), x)
			return s.setRng(ts[0], -tInf, tInf)
		}
		if truth {
			if !s.le0(d) || !s.le0(tmulc(d, -1)) {
				return false
			}
			for i := len(ts) - 1; i >= 0; i-- {
				if co[i] == 1 || co[i] == -1 {
					r := lcomb{m: map[*T]int64{}}
					r.addT(d, -co[i])
					r.addT(ts[i], 1)
					rt := r.term()
					t := ts[i]
					if !rt.mentions(func(a *T) bool { return a == t }) {
						s.sub[t] = rt
						break
					}
				}
			}
		}
		return true
	}
	return s.setRng(c, v, v)
}

// le0 records that a term is at most zero.
func (s *sst) le0(d *T) bool {
	d = s.res(d)
	ts, co, c := d.parts()
	if len(ts) == 0 {
		return c <= 0
	}
	for i, t := range ts {
		// co*t <= -(c + others)
		rest := c
		for j, u := range ts {
			if j == i {
				continue
			}
			l, h := s.rg(u)
			if co[j] > 0 {
				rest = addInf(rest, mulInf(l, co[j]))
			} else {
				rest = addInf(rest, mulInf(h, co[j]))
			}
		}
		if rest <= -tInf {
			continue
		}
		if co[i] > 0 {
			if !s.setRng(t, -tInf, floordiv(-rest, co[i])) {
				return false
			}
		} else if !s.setRng(t, -floordiv(-rest, -co[i]), tInf) {
			return false
		}
	}
	if len(ts) > 1 {
		s.ineq = append(s.ineq, d)
		_, h := s.rg(d)
		if h > 0 {
			s.rng[d] = srng{-tInf, 0}
		}
	}
	return true
}

// decide tells the truth of a condition: 1, 0 or -1.
func (s *sst) decide(c *T) int {
	c = s.res(c)
	if c.isC() {
		if c.c != 0 {
			return 1
		}
		return 0
	}
	lo, hi := s.rg(c)
	if lo > 0 {
		return 1
	}
	if hi == 0 && lo == 0 {
		return 0
	}
	return -1
}

func condKey(cs []scond, keep func(*T) bool) string {
	var ks []string
	seen := map[string]bool{}
	for _, c := range cs {
		if keep != nil && !keep(c.t) {
			continue
		}
		k := fmt.Sprintf("%d=%v", c.t.id, c.truth)
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}
