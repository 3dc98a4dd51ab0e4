package main

// Terms of the layout analysis: canonical descriptions of where every integer and every bit comes from.

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type tkind uint8

const (
	tConst tkind = iota
	tAtom        // an input
	tLin         // a linear combination
	tBits        // bits of other terms, put together
	tOp          // any other function of terms
)

const tInf = int64(1) << 61

// T is a hash-consed term; two occurrences are the same value exactly when the pointers are equal.
type T struct {
	id     int
	k      tkind
	c      int64
	name   string
	args   []*T
	co     []int64
	bits   []Bit
	lo, hi int64
	key    string
}

// Bit is 0, 1 or a bit of a term.
type Bit struct {
	k uint8 // 0, 1: constant; 2: bit i of t
	i int
	t *T
}

var tTab = map[string]*T{}

func intern(t *T) *T {
	if o := tTab[t.key]; o != nil {
		return o
	}
	t.id = len(tTab) + 1
	tTab[t.key] = t
	return t
}

func tk(c int64) *T {
	return intern(&T{k: tConst, c: c, lo: c, hi: c, key: "#" + strconv.FormatInt(c, 10)})
}

func tatom(name string, lo, hi int64) *T {
	return intern(&T{k: tAtom, name: name, lo: lo, hi: hi, key: fmt.Sprintf("$%s:%d:%d", name, lo, hi)})
}

func top_(name string, lo, hi int64, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString("(" + name)
	for _, a := range args {
		fmt.Fprintf(&sb, " %d", a.id)
	}
	sb.WriteString(")")
	return intern(&T{k: tOp, name: name, args: args, lo: lo, hi: hi, key: sb.String()})
}

func (t *T) isC() bool { return t.k == tConst }

func (t *T) String() string {
	switch t.k {
	case tConst:
		return strconv.FormatInt(t.c, 10)
	case tAtom:
		return t.name
	case tLin:
		var sb strings.Builder
		for i, a := range t.args {
			switch {
			case t.co[i] == 1 && i == 0:
			case t.co[i] == 1:
				sb.WriteString("+")
			case t.co[i] == -1:
				sb.WriteString("-")
			default:
				fmt.Fprintf(&sb, "%+d*", t.co[i])
			}
			sb.WriteString(a.String())
		}
		if t.c != 0 {
			fmt.Fprintf(&sb, "%+d", t.c)
		}
		return sb.String()
	case tBits:
		var parts []string
		for i := len(t.bits) - 1; i >= 0; {
			b := t.bits[i]
			if b.k < 2 {
				parts = append(parts, strconv.Itoa(int(b.k)))
				i--
				continue
			}
			j := i
			for j-1 >= 0 && t.bits[j-1].k == 2 && t.bits[j-1].t == b.t && t.bits[j-1].i == t.bits[j].i-1 {
				j--
			}
			if i == j {
				parts = append(parts, fmt.Sprintf("%s[%d]", b.t, b.i))
			} else {
				parts = append(parts, fmt.Sprintf("%s[%d:%d]", b.t, b.i, t.bits[j].i))
			}
			i = j - 1
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	return t.name + "(" + strings.Join(as, ",") + ")"
}

// mentions tells whether the term depends on an atom chosen by f.
func (t *T) mentions(f func(*T) bool) bool {
	return t.ment(f, map[*T]bool{})
}

func (t *T) ment(f func(*T) bool, seen map[*T]bool) bool {
	if r, ok := seen[t]; ok {
		return r
	}
	seen[t] = false
	r := false
	switch t.k {
	case tAtom:
		r = f(t)
	case tBits:
		for _, b := range t.bits {
			if b.k == 2 && b.t.ment(f, seen) {
				r = true
				break
			}
		}
	default:
		for _, a := range t.args {
			if a.ment(f, seen) {
				r = true
				break
			}
		}
	}
	seen[t] = r
	return r
}

// Linear combinations.

type lcomb struct {
	m map[*T]int64
	c int64
}

func lc(t *T) lcomb {
	l := lcomb{m: map[*T]int64{}}
	l.addT(t, 1)
	return l
}

func (l *lcomb) addT(t *T, k int64) {
	switch t.k {
	case tConst:
		l.c += k * t.c
	case tLin:
		l.c += k * t.c
		for i, a := range t.args {
			l.m[a] += k * t.co[i]
		}
	default:
		l.m[t] += k
	}
}

// term makes the canonical term of a linear combination: m*div(x,m) becomes x - mod(x,m).
func (l lcomb) term() *T {
	for again := true; again; {
		again = false
		for t, k := range l.m {
			if k == 0 {
				delete(l.m, t)
				continue
			}
			if t.k == tOp && t.name == "div" && t.args[1].isC() && k%t.args[1].c == 0 {
				q := k / t.args[1].c
				delete(l.m, t)
				l.addT(t.args[0], q)
				l.addT(top_("mod", 0, t.args[1].c-1, t.args[0], t.args[1]), -q)
				again = true
				break
			}
		}
	}
	if len(l.m) == 0 {
		return tk(l.c)
	}
	ts := make([]*T, 0, len(l.m))
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.m[ts[0]] == 1 && l.c == 0 {
		return ts[0]
	}
	t := &T{k: tLin, c: l.c, args: ts}
	var sb strings.Builder
	sb.WriteString("+")
	lo, hi := l.c, l.c
	for _, a := range ts {
		k := l.m[a]
		t.co = append(t.co, k)
		fmt.Fprintf(&sb, "%d*%d ", k, a.id)
		x, y := mulInf(a.lo, k), mulInf(a.hi, k)
		if k < 0 {
			x, y = y, x
		}
		lo, hi = addInf(lo, x), addInf(hi, y)
	}
	fmt.Fprintf(&sb, "%d", l.c)
	t.key, t.lo, t.hi = sb.String(), lo, hi
	return intern(t)
}

func addInf(a, b int64) int64 {
	if a <= -tInf || b <= -tInf {
		return -tInf
	}
	if a >= tInf || b >= tInf {
		return tInf
	}
	s := a + b
	if s >= tInf {
		return tInf
	}
	if s <= -tInf {
		return -tInf
	}
	return s
}

func mulInf(a, k int64) int64 {
	if k == 0 || a == 0 {
		return 0
	}
	neg := (a < 0) != (k < 0)
	x, y := a, k
	if x < 0 {
		x = -x
	}
	if y < 0 {
		y = -y
	}
	if hi, lo := bits.Mul64(uint64(x), uint64(y)); hi == 0 && lo < uint64(tInf) {
		if neg {
			return -int64(lo)
		}
		return int64(lo)
	}
	if neg {
		return -tInf
	}
	return tInf
}

func tadd(a, b *T) *T {
	l := lc(a)
	l.addT(b, 1)
	return l.term()
}

func tsub(a, b *T) *T {
	l := lc(a)
	l.addT(b, -1)
	return l.term()
}

func tmulc(a *T, k int64) *T {
	l := lcomb{m: map[*T]int64{}}
	l.addT(a, k)
	return l.term()
}

// parts gives the terms and coefficients of a term seen as a linear combination.
func (t *T) parts() ([]*T, []int64, int64) {
	switch t.k {
	case tConst:
		return nil, nil, t.c
	case tLin:
		return t.args, t.co, t.c
	}
	return []*T{t}, []int64{1}, 0
}

// splitC separates the constant of a term.
func (t *T) splitC() (*T, int64) {
	_, _, c := t.parts()
	if t.isC() {
		return tk(0), c
	}
	if c == 0 {
		return t, 0
	}
	return tsub(t, tk(c)), c
}

func bitlen(x int64) int { return bits.Len64(uint64(x)) }
