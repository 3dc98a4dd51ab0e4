package main

// Numeric domain of the abstract interpreter: linear constraints over integer symbols with interval bounds.
// Entailment is decided by Fourier-Motzkin elimination with integer tightening.

import (
	"math"
	"sort"
	"strconv"
)

type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is c + sum k*s, terms sorted by symbol, no zero coefficients. Immutable.
type Lin struct {
	c int64
	t []term
}

const (
	posInf = math.MaxInt64
	negInf = math.MinInt64
	big    = int64(1) << 60
)

func K(c int64) Lin { return Lin{c: c} }
func V(s Sym) Lin   { return Lin{t: []term{{s, 1}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// sameTerms: equal up to the constant
func (a Lin) sameTerms(b Lin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

func (a Lin) key() string {
	var buf [96]byte
	b := buf[:0]
	for _, t := range a.t {
		if t.k >= 0 {
			b = append(b, '+')
		}
		b = strconv.AppendInt(b, t.k, 10)
		b = append(b, '*', 's')
		b = strconv.AppendInt(b, int64(t.s), 10)
	}
	if a.c >= 0 {
		b = append(b, '+')
	}
	b = strconv.AppendInt(b, a.c, 10)
	return string(b)
}

// hash of the terms
func (a Lin) hashTerms() uint64 {
	h := uint64(14695981039346656037)
	for _, t := range a.t {
		h = (h ^ uint64(uint32(t.s))) * 1099511628211
		h = (h ^ uint64(t.k)) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func (a Lin) coef(s Sym) int64 {
	i := sort.Search(len(a.t), func(i int) bool { return a.t[i].s >= s })
	if i < len(a.t) && a.t[i].s == s {
		return a.t[i].k
	}
	return 0
}

func fits(v int64) bool { return v > -big && v < big }

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return r, true
}

func addOK(a, b int64) (int64, bool) {
	r := a + b
	if (r > a) != (b > 0) && b != 0 {
		return 0, false
	}
	return r, true
}

// comb returns ka*a + kb*b; ok is false when coefficients grow too large.
func comb(a Lin, ka int64, b Lin, kb int64) (Lin, bool) {
	ok := true
	mul := func(x, y int64) int64 {
		r, o := mulOK(x, y)
		if !o || !fits(r) {
			ok = false
		}
		return r
	}
	add := func(x, y int64) int64 {
		r, o := addOK(x, y)
		if !o || !fits(r) {
			ok = false
		}
		return r
	}
	out := Lin{c: add(mul(a.c, ka), mul(b.c, kb))}
	out.t = make([]term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].s < b.t[j].s):
			if k := mul(a.t[i].k, ka); k != 0 {
				out.t = append(out.t, term{a.t[i].s, k})
			}
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			if k := mul(b.t[j].k, kb); k != 0 {
				out.t = append(out.t, term{b.t[j].s, k})
			}
			j++
		default:
			if k := add(mul(a.t[i].k, ka), mul(b.t[j].k, kb)); k != 0 {
				out.t = append(out.t, term{a.t[i].s, k})
			}
			i++
			j++
		}
	}
	return out, ok
}

func (a Lin) add(b Lin) (Lin, bool)     { return comb(a, 1, b, 1) }
func (a Lin) sub(b Lin) (Lin, bool)     { return comb(a, 1, b, -1) }
func (a Lin) scale(k int64) (Lin, bool) { return comb(a, k, Lin{}, 0) }

// must variants for small operands
func ladd(a, b Lin) Lin {
	r, ok := a.add(b)
	if !ok {
		return V(freshSym("", fullIv)) // unknown
	}
	return r
}
func lsub(a, b Lin) Lin {
	r, ok := a.sub(b)
	if !ok {
		return V(freshSym("", fullIv)) // unknown
	}
	return r
}
func laddc(a Lin, c int64) Lin { return ladd(a, K(c)) }

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

// tighten divides a constraint (a >= 0) by the gcd of its coefficients, rounding the constant down.
func (a Lin) tighten() Lin {
	if len(a.t) == 0 {
		return a
	}
	g := int64(0)
	for _, t := range a.t {
		g = gcd(g, t.k)
		if g == 1 {
			return a
		}
	}
	out := Lin{c: floorDiv(a.c, g), t: make([]term, len(a.t))}
	for i, t := range a.t {
		out.t[i] = term{t.s, t.k / g}
	}
	return out
}

// subst replaces s by r in a.
func (a Lin) subst(s Sym, r Lin) (Lin, bool) {
	k := a.coef(s)
	if k == 0 {
		return a, true
	}
	rest := Lin{c: a.c, t: make([]term, 0, len(a.t))}
	for _, t := range a.t {
		if t.s != s {
			rest.t = append(rest.t, t)
		}
	}
	return comb(rest, 1, r, k)
}

// substAll replaces symbols simultaneously.
func (a Lin) substAll(m map[Sym]Lin) (Lin, bool) {
	hit := false
	for _, t := range a.t {
		if _, ok := m[t.s]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return a, true
	}
	out := Lin{c: a.c}
	okAll := true
	for _, t := range a.t {
		r, ok := m[t.s]
		if !ok {
			r = V(t.s)
		}
		var o bool
		out, o = comb(out, 1, r, t.k)
		okAll = okAll && o
	}
	return out, okAll
}

type Iv struct{ lo, hi int64 }

var fullIv = Iv{negInf, posInf}

func satAdd(a, b int64) int64 {
	if a == posInf || b == posInf {
		return posInf
	}
	if a == negInf || b == negInf {
		return negInf
	}
	r, ok := addOK(a, b)
	if !ok {
		if a > 0 {
			return posInf
		}
		return negInf
	}
	return r
}

func satMul(a, k int64) int64 {
	if k == 0 {
		return 0
	}
	if a == posInf || a == negInf {
		if (a == posInf) == (k > 0) {
			return posInf
		}
		return negInf
	}
	r, ok := mulOK(a, k)
	if !ok {
		if (a > 0) == (k > 0) {
			return posInf
		}
		return negInf
	}
	return r
}

// Con is a constraint: l >= 0, or l == 0.
type Con struct {
	l  Lin
	eq bool
}

func (c Con) key() string {
	if c.eq {
		return c.l.key() + "=0"
	}
	return c.l.key() + ">=0"
}

// Num is the numeric part of a state.
type Num struct {
	cons []Con
	have map[string]bool
	iv   map[Sym]Iv
	neq  []Lin
	bot  bool // found infeasible
}

func newNum() *Num { return &Num{have: map[string]bool{}, iv: map[Sym]Iv{}} }

func (n *Num) clone() *Num {
	m := &Num{cons: append([]Con(nil), n.cons...), have: make(map[string]bool, len(n.have)), iv: make(map[Sym]Iv, len(n.iv)), neq: append([]Lin(nil), n.neq...), bot: n.bot}
	for k := range n.have {
		m.have[k] = true
	}
	for k, v := range n.iv {
		m.iv[k] = v
	}
	return m
}

// symTable holds static facts about symbols.
type symInfo struct {
	name string
	iv   Iv
}

var symTab []symInfo
var symByName = map[string]Sym{}

func freshSym(name string, iv Iv) Sym {
	symTab = append(symTab, symInfo{name, iv})
	return Sym(len(symTab) - 1)
}

// namedSym returns the same symbol for the same name.
func namedSym(name string, iv Iv) Sym {
	if s, ok := symByName[name]; ok {
		return s
	}
	s := freshSym(name, iv)
	symByName[name] = s
	return s
}

func (n *Num) bounds(s Sym) Iv {
	if v, ok := n.iv[s]; ok {
		return v
	}
	return symTab[s].iv
}

func (n *Num) rng(a Lin) Iv {
	r := Iv{a.c, a.c}
	for _, t := range a.t {
		b := n.bounds(t.s)
		if t.k > 0 {
			r.lo = satAdd(r.lo, satMul(b.lo, t.k))
			r.hi = satAddHi(r.hi, satMul(b.hi, t.k))
		} else {
			r.lo = satAdd(r.lo, satMul(b.hi, t.k))
			r.hi = satAddHi(r.hi, satMul(b.lo, t.k))
		}
	}
	return r
}

// satAddHi: +inf absorbs
func satAddHi(a, b int64) int64 {
	if a == posInf || b == posInf {
		return posInf
	}
	return satAdd(a, b)
}

func init() {
	// satAdd for lower bounds must let -inf absorb
}

func (n *Num) setIv(s Sym, v Iv) {
	old := n.bounds(s)
	if v.lo < old.lo {
		v.lo = old.lo
	}
	if v.hi > old.hi {
		v.hi = old.hi
	}
	if v == old {
		return
	}
	if v.lo > v.hi {
		n.bot = true
		return
	}
	n.iv[s] = v
	// single symbol disequalities at the ends
	for changed := true; changed; {
		changed = false
		for _, d := range n.neq {
			if len(d.t) == 1 && d.t[0].s == s && (d.t[0].k == 1 || d.t[0].k == -1) {
				x := -d.c * d.t[0].k
				if x == v.lo {
					v.lo++
					changed = true
				} else if x == v.hi {
					v.hi--
					changed = true
				}
				if v.lo > v.hi {
					n.bot = true
					return
				}
			}
		}
	}
	n.iv[s] = v
}

// propagate tightens symbol bounds from one constraint.
func (n *Num) propagate(c Con) bool {
	changed := false
	do := func(a Lin) {
		// a >= 0: k*s >= -(rest)
		for _, t := range a.t {
			rest := Lin{c: a.c}
			for _, u := range a.t {
				if u.s != t.s {
					rest.t = append(rest.t, u)
				}
			}
			r := n.rng(rest)
			if r.hi == posInf {
				continue
			}
			// k*s >= -r.hi
			b := n.bounds(t.s)
			if t.k > 0 {
				lo := ceilDiv(-r.hi, t.k)
				if lo > b.lo {
					n.setIv(t.s, Iv{lo, b.hi})
					changed = true
				}
			} else {
				hi := floorDiv(r.hi, -t.k)
				if hi < b.hi {
					n.setIv(t.s, Iv{b.lo, hi})
					changed = true
				}
			}
			if n.bot {
				return
			}
		}
	}
	do(c.l)
	if c.eq && !n.bot {
		if neg, ok := c.l.scale(-1); ok {
			do(neg)
		}
	}
	return changed
}

// GE adds a >= 0.
func (n *Num) GE(a Lin) {
	if n.bot {
		return
	}
	a = a.tighten()
	if a.isConst() {
		if a.c < 0 {
			n.bot = true
		}
		return
	}
	if len(a.t) == 1 {
		n.propagate(Con{l: a})
		n.repropagate(a)
		return
	}
	r := n.rng(a)
	if r.lo >= 0 {
		return
	}
	if r.hi < 0 {
		n.bot = true
		return
	}
	// a stronger constraint with the same terms replaces
	for i, c := range n.cons {
		if !c.eq && c.l.sameTerms(a) {
			if c.l.c <= a.c {
				return
			}
			delete(n.have, c.key())
			n.cons = append(n.cons[:i:i], n.cons[i+1:]...)
			break
		}
	}
	// opposite pair: equality or contradiction
	for i, c := range n.cons {
		if !c.eq && len(c.l.t) == len(a.t) {
			neg, ok := c.l.scale(-1)
			if ok && neg.sameTerms(a) {
				// -c.l terms = a terms: c.l = -T + cc >= 0 => T <= cc ; a = T + ac >= 0 => T >= -ac
				if c.l.c < -a.c {
					n.bot = true
					return
				}
				if c.l.c == -a.c {
					delete(n.have, c.key())
					n.cons = append(n.cons[:i:i], n.cons[i+1:]...)
					n.addCon(Con{l: a, eq: true})
					return
				}
			}
		}
	}
	n.addCon(Con{l: a})
}

func (n *Num) addCon(c Con) {
	k := c.key()
	if n.have[k] {
		return
	}
	n.have[k] = true
	n.cons = append(n.cons, c)
	n.propagate(c)
	n.repropagate(c.l)
}

// repropagate runs bound propagation over constraints sharing symbols with a, a few rounds.
func (n *Num) repropagate(a Lin) {
	touched := map[Sym]bool{}
	for _, t := range a.t {
		touched[t.s] = true
	}
	for round := 0; round < 3 && !n.bot; round++ {
		any := false
		for _, c := range n.cons {
			hit := false
			for _, t := range c.l.t {
				if touched[t.s] {
					hit = true
					break
				}
			}
			if hit && n.propagate(c) {
				any = true
				for _, t := range c.l.t {
					touched[t.s] = true
				}
			}
			if n.bot {
				return
			}
		}
		if !any {
			return
		}
	}
}

// EQ adds a == 0.
func (n *Num) EQ(a Lin) {
	if n.bot {
		return
	}
	g := int64(0)
	for _, t := range a.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		if a.c%g != 0 {
			n.bot = true
			return
		}
		b := Lin{c: a.c / g}
		for _, t := range a.t {
			b.t = append(b.t, term{t.s, t.k / g})
		}
		a = b
	}
	if a.isConst() {
		if a.c != 0 {
			n.bot = true
		}
		return
	}
	if len(a.t) > 0 && a.t[0].k < 0 {
		if neg, ok := a.scale(-1); ok {
			a = neg
		}
	}
	if len(a.t) == 1 {
		n.propagate(Con{l: a, eq: true})
		n.repropagate(a)
		return
	}
	r := n.rng(a)
	if r.lo > 0 || r.hi < 0 {
		n.bot = true
		return
	}
	// drop inequalities with the same terms
	neg, _ := a.scale(-1)
	var keep []Con
	for _, c := range n.cons {
		if !c.eq && (c.l.sameTerms(a) || c.l.sameTerms(neg)) {
			d := c.l.c - a.c
			if c.l.sameTerms(neg) {
				d = c.l.c - neg.c
			}
			if d < 0 {
				n.bot = true
				return
			}
			delete(n.have, c.key())
			continue
		}
		keep = append(keep, c)
	}
	n.cons = keep
	n.addCon(Con{l: a, eq: true})
}

// NE adds a != 0.
func (n *Num) NE(a Lin) {
	if n.bot {
		return
	}
	if a.isConst() {
		if a.c == 0 {
			n.bot = true
		}
		return
	}
	if n.prove(a) { // a >= 0
		n.GE(laddc(a, -1))
		return
	}
	if neg, ok := a.scale(-1); ok && n.prove(neg) {
		n.GE(laddc(neg, -1))
		return
	}
	if len(n.neq) < 40 {
		n.neq = append(n.neq, a)
	}
	if len(a.t) == 1 {
		b := n.bounds(a.t[0].s)
		n.setIv(a.t[0].s, b)
	}
}

var fmQueries, fmHard int

// prove tells whether a >= 0 follows.
func (n *Num) prove(a Lin) bool {
	if n.bot {
		return true
	}
	if n.rng(a).lo >= 0 {
		return true
	}
	if a.isConst() {
		return false
	}
	for _, c := range n.cons {
		if c.l.c <= a.c && c.l.sameTerms(a) {
			return true
		}
	}
	neg, ok := a.scale(-1)
	if !ok {
		return false
	}
	fmQueries++
	if n.infeasibleWith(laddc(neg, -1)) {
		return true
	}
	return n.proveNeq(a)
}

// proveNeq uses a recorded disequality: a >= -1 and a != -1.
func (n *Num) proveNeq(a Lin) bool {
	for _, d := range n.neq {
		for _, k := range []int64{1, -1} {
			x, ok := comb(a, 1, d, k)
			if ok && x.isConst() && x.c == -1 {
				// a = -1 -/+ d ... a != -1, so a >= -1 is enough
				neg, _ := a.scale(-1)
				return n.rng(a).lo >= -1 || n.infeasibleWith(laddc(neg, -2))
			}
		}
	}
	return false
}

func (n *Num) proveEQ(a Lin) bool {
	if a.isConst() {
		return a.c == 0
	}
	neg, ok := a.scale(-1)
	return ok && n.prove(a) && n.prove(neg)
}

// proveNE tells whether a != 0 follows.
func (n *Num) proveNE(a Lin) bool {
	if n.bot {
		return true
	}
	if a.isConst() {
		return a.c != 0
	}
	for _, d := range n.neq {
		if d.eq(a) {
			return true
		}
		if neg, ok := d.scale(-1); ok && neg.eq(a) {
			return true
		}
	}
	if n.prove(laddc(a, -1)) {
		return true
	}
	neg, ok := a.scale(-1)
	return ok && n.prove(laddc(neg, -1))
}

// infeasibleWith tells whether adding q >= 0 makes the constraints infeasible.
func (n *Num) infeasibleWith(q Lin) bool {
	// cone of influence
	syms := map[Sym]bool{}
	var order []Sym
	addS := func(l Lin) {
		for _, t := range l.t {
			if !syms[t.s] {
				syms[t.s] = true
				order = append(order, t.s)
			}
		}
	}
	addS(q)
	used := make([]bool, len(n.cons))
	var sel []Con
	for round := 0; round < 6; round++ {
		any := false
		cur := map[Sym]bool{}
		for s := range syms {
			cur[s] = true
		}
		for i, c := range n.cons {
			if used[i] {
				continue
			}
			for _, t := range c.l.t {
				if cur[t.s] {
					used[i] = true
					sel = append(sel, c)
					addS(c.l)
					any = true
					break
				}
			}
			if len(sel) > 90 {
				break
			}
		}
		if !any || len(sel) > 90 {
			break
		}
	}
	if len(sel) == 0 && len(q.t) <= 1 {
		return false
	}
	var ge []Lin
	var eqs []Lin
	ge = append(ge, q.tighten())
	for _, c := range sel {
		if c.eq {
			eqs = append(eqs, c.l)
		} else {
			ge = append(ge, c.l)
		}
	}
	for _, s := range order {
		b := n.bounds(s)
		if b.lo > -big {
			ge = append(ge, Lin{c: -b.lo, t: []term{{s, 1}}})
		}
		if b.hi < big {
			ge = append(ge, Lin{c: b.hi, t: []term{{s, -1}}})
		}
	}
	return fm(ge, eqs)
}

// fm decides infeasibility (false: not shown infeasible).
func fm(ge, eqs []Lin) bool {
	// Gaussian elimination with unit coefficients
	for len(eqs) > 0 {
		e := eqs[0]
		eqs = eqs[1:]
		if e.isConst() {
			if e.c != 0 {
				return true
			}
			continue
		}
		var us Sym
		var uk int64
		found := false
		for _, t := range e.t {
			if t.k == 1 || t.k == -1 {
				us, uk, found = t.s, t.k, true
				break
			}
		}
		if !found {
			// integer infeasibility by gcd
			g := int64(0)
			for _, t := range e.t {
				g = gcd(g, t.k)
			}
			if e.c%g != 0 {
				return true
			}
			ge = append(ge, e)
			if neg, ok := e.scale(-1); ok {
				ge = append(ge, neg)
			}
			continue
		}
		// us = -(rest)/uk
		rest := Lin{c: e.c}
		for _, t := range e.t {
			if t.s != us {
				rest.t = append(rest.t, t)
			}
		}
		rep, ok := rest.scale(-uk)
		if !ok {
			continue
		}
		for i := range eqs {
			if x, ok := eqs[i].subst(us, rep); ok {
				eqs[i] = x
			}
		}
		out := ge[:0:0]
		for _, g := range ge {
			x, ok := g.subst(us, rep)
			if !ok {
				continue
			}
			x = x.tighten()
			if x.isConst() {
				if x.c < 0 {
					return true
				}
				continue
			}
			out = append(out, x)
		}
		ge = out
	}
	ge = dedupGE(ge)
	for {
		// check constants
		pos := map[Sym]int{}
		negc := map[Sym]int{}
		for _, g := range ge {
			if g.isConst() {
				if g.c < 0 {
					return true
				}
				continue
			}
			for _, t := range g.t {
				if t.k > 0 {
					pos[t.s]++
				} else {
					negc[t.s]++
				}
			}
		}
		if len(pos) == 0 && len(negc) == 0 {
			return false
		}
		best := Sym(-1)
		bestCost := 1 << 30
		all := map[Sym]bool{}
		for s := range pos {
			all[s] = true
		}
		for s := range negc {
			all[s] = true
		}
		for s := range all {
			p, m := pos[s], negc[s]
			cost := p*m - p - m
			if cost < bestCost || (cost == bestCost && s < best) {
				best, bestCost = s, cost
			}
		}
		if bestCost > 400 {
			fmHard++
			return false
		}
		var P, N, R []Lin
		for _, g := range ge {
			k := g.coef(best)
			switch {
			case k > 0:
				P = append(P, g)
			case k < 0:
				N = append(N, g)
			default:
				R = append(R, g)
			}
		}
		for _, p := range P {
			for _, m := range N {
				kp, km := p.coef(best), -m.coef(best)
				g := gcd(kp, km)
				x, ok := comb(p, km/g, m, kp/g)
				if !ok {
					continue
				}
				x = x.tighten()
				if x.isConst() {
					if x.c < 0 {
						return true
					}
					continue
				}
				R = append(R, x)
			}
		}
		ge = dedupGE(R)
		if len(ge) > 600 {
			fmHard++
			return false
		}
	}
}

// dedupGE keeps the strongest of constraints with the same terms.
func dedupGE(in []Lin) []Lin {
	m := make(map[uint64]int, len(in))
	out := make([]Lin, 0, len(in))
	for _, g := range in {
		k := g.hashTerms()
		if i, ok := m[k]; ok {
			if out[i].sameTerms(g) {
				if g.c < out[i].c {
					out[i] = g
				}
				continue
			}
		} else {
			m[k] = len(out)
		}
		out = append(out, g)
	}
	return out
}

// projection removes symbols not kept: equalities with unit coefficients are solved, the others eliminated when cheap.
func project(cons []Con, keep func(Sym) bool, bounds func(Sym) Iv) []Con {
	cons = append([]Con(nil), cons...)
	for {
		// pick an equality with a dead unit symbol
		pi := -1
		var ps Sym
		var pk int64
		for i, c := range cons {
			if !c.eq {
				continue
			}
			for _, t := range c.l.t {
				if !keep(t.s) && (t.k == 1 || t.k == -1) {
					pi, ps, pk = i, t.s, t.k
					break
				}
			}
			if pi >= 0 {
				break
			}
		}
		if pi < 0 {
			break
		}
		e := cons[pi].l
		cons = append(cons[:pi:pi], cons[pi+1:]...)
		rest := Lin{c: e.c}
		for _, t := range e.t {
			if t.s != ps {
				rest.t = append(rest.t, t)
			}
		}
		rep, ok := rest.scale(-pk)
		if !ok {
			continue
		}
		// the bounds of the eliminated symbol become constraints
		b := bounds(ps)
		if b.lo > -big {
			if x, ok := rep.add(K(-b.lo)); ok {
				cons = append(cons, Con{l: x})
			}
		}
		if b.hi < big {
			if x, ok := K(b.hi).sub(rep); ok {
				cons = append(cons, Con{l: x})
			}
		}
		var out []Con
		for _, c := range cons {
			x, ok := c.l.subst(ps, rep)
			if !ok {
				continue
			}
			if !c.eq {
				x = x.tighten()
			}
			if x.isConst() {
				continue
			}
			out = append(out, Con{x, c.eq})
		}
		cons = out
	}
	// inequalities: FM per dead symbol
	for iter := 0; iter < 200; iter++ {
		cnt := map[Sym][2]int{}
		for _, c := range cons {
			for _, t := range c.l.t {
				if !keep(t.s) {
					v := cnt[t.s]
					if c.eq {
						v[0]++
						v[1]++
					} else if t.k > 0 {
						v[0]++
					} else {
						v[1]++
					}
					cnt[t.s] = v
				}
			}
		}
		if len(cnt) == 0 {
			break
		}
		best := Sym(-1)
		bc := 1 << 30
		for s, v := range cnt {
			c := v[0] * v[1]
			if c < bc || (c == bc && s < best) {
				best, bc = s, c
			}
		}
		var P, N []Lin
		var R []Con
		for _, c := range cons {
			k := c.l.coef(best)
			if k == 0 {
				R = append(R, c)
				continue
			}
			if c.eq {
				neg, ok := c.l.scale(-1)
				if k > 0 {
					P = append(P, c.l)
					if ok {
						N = append(N, neg)
					}
				} else {
					N = append(N, c.l)
					if ok {
						P = append(P, neg)
					}
				}
				continue
			}
			if k > 0 {
				P = append(P, c.l)
			} else {
				N = append(N, c.l)
			}
		}
		b := bounds(best)
		if b.lo > -big {
			P = append(P, Lin{c: -b.lo, t: []term{{best, 1}}})
		}
		if b.hi < big {
			N = append(N, Lin{c: b.hi, t: []term{{best, -1}}})
		}
		if len(P)*len(N) <= 400 {
			small := len(P)*len(N) > 30
			for _, p := range P {
				for _, m := range N {
					if small && len(p.t)+len(m.t) > 4 {
						continue
					}
					kp, km := p.coef(best), -m.coef(best)
					g := gcd(kp, km)
					x, ok := comb(p, km/g, m, kp/g)
					if !ok {
						continue
					}
					x = x.tighten()
					if len(x.t) > 5 || x.isConst() {
						continue
					}
					R = append(R, Con{l: x})
				}
			}
		}
		cons = R
	}
	// dedup
	seen := map[string]bool{}
	var out []Con
	for _, c := range cons {
		if c.l.isConst() {
			continue
		}
		k := c.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, c)
	}
	return out
}

// fixed replaces the symbols that have a single value.
func (n *Num) fixed(l Lin) Lin {
	for _, t := range l.t {
		if b := n.bounds(t.s); b.lo == b.hi {
			out := Lin{c: l.c}
			for _, t := range l.t {
				if b := n.bounds(t.s); b.lo == b.hi {
					c, ok := mulOK(t.k, b.lo)
					if ok {
						c, ok = addOK(out.c, c)
					}
					if !ok {
						return l
					}
					out.c = c
				} else {
					out.t = append(out.t, t)
				}
			}
			return out
		}
	}
	return l
}
