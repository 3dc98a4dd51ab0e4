package main

// Values and memory of the layout analysis.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bpFail struct{ msg string }

func (e *bp) fail(f string, a ...any) {
	panic(bpFail{fmt.Sprintf(f, a...)})
}

func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeRange(t types.Type) (int64, int64) {
	w, signed, ok := intInfo(t)
	if !ok {
		return -tInf, tInf
	}
	switch {
	case signed && w == 64:
		return -tInf, tInf
	case signed:
		return -(1 << (w - 1)), 1<<(w-1) - 1
	case w == 64:
		return 0, tInf
	}
	return 0, 1<<w - 1
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// zero is the zero value of a type.
func (e *bp) zero(t types.Type) SV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			return tk(0)
		}
		if u.Info()&types.IsString != 0 {
			return SStr{known: true}
		}
		if u.Info()&types.IsFloat != 0 {
			return SAny{"float"}
		}
		return SAny{"basic"}
	case *types.Pointer, *types.Chan:
		return &SPtr{typ: types.Typ[types.Int]}
	case *types.Slice:
		return &SSlice{off: tk(0), ln: tk(0), cp: tk(0), elem: u.Elem()}
	case *types.Struct:
		s := &SStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return &SArr{elem: u.Elem(), el: map[string]arrEl{}, b: newBuf(u.Elem()), n: u.Len()}
	case *types.Interface:
		return &SIface{}
	case *types.Map:
		return &SMap{}
	case *types.Signature:
		return &SFn{}
	}
	return SAny{"zero " + t.String()}
}

func newBuf(elem types.Type) *bbuf {
	if isByte(elem) {
		return &bbuf{groups: map[*T]map[int]Bit{}}
	}
	return nil
}

// sym is the input of a given name.
func (e *bp) sym(name string, t types.Type) SV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			lo, hi := typeRange(t)
			return tatom(name, lo, hi)
		}
		if u.Info()&types.IsString != 0 {
			return SStr{name: name}
		}
		return SAny{name}
	case *types.Pointer:
		return &SPtr{name: name, typ: u.Elem(), nilT: tatom("nil("+name+")", 0, 1)}
	case *types.Slice:
		return &SSlice{
			arr: &SPtr{name: name, typ: types.NewArray(u.Elem(), 0)}, off: tk(0), ln: tatom("len("+name+")", 0, 1<<40),
			cp: tatom("cap("+name+")", 0, 1<<40), nilT: tatom("nil("+name+")", 0, 1), elem: u.Elem(),
		}
	case *types.Struct:
		s := &SStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.sym(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return &SArr{elem: u.Elem(), el: map[string]arrEl{}, name: name, b: newBuf(u.Elem()), n: u.Len()}
	case *types.Interface:
		return SAny{name}
	}
	return SAny{name}
}

func (e *bp) alloc(st *sst, v SV) int {
	e.nobj++
	st.objs[e.nobj] = v
	return e.nobj
}

// objOf finds or makes the object a pointer points into.
func (e *bp) objOf(st *sst, p *SPtr) int {
	if p.obj != 0 {
		return p.obj
	}
	if p.name == "" {
		if os.Getenv("VT_STACK") != "" {
			for _, f := range e.stack {
				fmt.Println("  in", FName(f))
			}
			fmt.Println("  at", e.r.Pos(e.cur.Pos()), e.cur)
			fmt.Println("  when", e.pathOf(st))
		}
		e.fail("nil pointer followed")
	}
	if id := st.lazy[p.name]; id != 0 {
		return id
	}
	var v SV
	if a, ok := p.typ.Underlying().(*types.Array); ok {
		v = &SArr{elem: a.Elem(), el: map[string]arrEl{}, name: p.name, b: newBuf(a.Elem())}
	} else {
		v = e.sym(p.name, p.typ)
	}
	id := e.alloc(st, v)
	st.lazy[p.name] = id
	return id
}

func (e *bp) load(st *sst, p *SPtr) SV {
	v := st.objs[e.objOf(st, p)]
	for _, s := range p.path {
		v = e.sel(st, v, s)
	}
	return v
}

func (e *bp) sel(st *sst, v SV, s pstep) SV {
	switch x := v.(type) {
	case *SStruct:
		if s.x == nil {
			return x.f[s.f]
		}
	case *SArr:
		if s.x != nil {
			return e.arrGet(st, x, s.x)
		}
	case SAny:
		return SAny{x.why}
	}
	e.fail("cannot select in %T", v)
	return nil
}

func (e *bp) arrGet(st *sst, a *SArr, x *T) SV {
	x = st.res(x)
	if a.b != nil {
		return st.normBits(e.readBits(st, a, tmulc(x, 8), 8))
	}
	if v, ok := a.el[x.key]; ok {
		return v.v
	}
	for _, el := range a.el {
		if st.decide(st.cmp("eq0", tsub(el.x, x))) != 0 {
			if st.decide(st.cmp("eq0", tsub(el.x, x))) == 1 {
				return el.v
			}
			return SAny{"element of an array stored at an unknown place"}
		}
	}
	if a.junk {
		return SAny{"element"}
	}
	if a.name != "" {
		return e.sym(fmt.Sprintf("%s[%s]", a.name, x), a.elem)
	}
	return e.zero(a.elem)
}

func (e *bp) store(st *sst, p *SPtr, v SV) {
	id := e.objOf(st, p)
	st.objs[id] = e.upd(st, st.objs[id], p.path, v)
}

func (e *bp) upd(st *sst, old SV, path []pstep, v SV) SV {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	switch x := old.(type) {
	case *SStruct:
		n := &SStruct{typ: x.typ, f: append([]SV{}, x.f...)}
		n.f[s.f] = e.upd(st, x.f[s.f], path[1:], v)
		return n
	case *SArr:
		n := x.clone()
		ix := st.res(s.x)
		if n.b != nil {
			t, ok := v.(*T)
			if !ok {
				n.b.bad = "byte of unknown value"
				t = e.fresh("byte", 0, 255)
			}
			e.writeBits(st, n, tmulc(ix, 8), st.bitsOf(st.res(t), 8))
			return n
		}
		if len(path) > 1 {
			v = e.upd(st, e.arrGet(st, x, ix), path[1:], v)
		}
		for k, el := range n.el {
			if k != ix.key && st.decide(st.cmp("eq0", tsub(el.x, ix))) != 0 {
				delete(n.el, k)
				n.junk = true
			}
		}
		n.el[ix.key] = arrEl{ix, v}
		return n
	case SAny:
		return x
	}
	e.fail("cannot store in %T", old)
	return nil
}

func (e *bp) fresh(name string, lo, hi int64) *T {
	e.nfresh++
	return tatom(fmt.Sprintf("?%s%d", name, e.nfresh), lo, hi)
}

// bit memory

func (e *bp) writeBits(st *sst, a *SArr, pos *T, bs []Bit) {
	base, off := st.res(pos).splitC()
	g := a.b.groups[base]
	if g == nil {
		g = map[int]Bit{}
		a.b.groups[base] = g
	}
	for i, b := range bs {
		// the first bit in the stream is the highest
		g[int(off)+len(bs)-1-i] = b
	}
}

// readBits gives n bits, lowest first.
func (e *bp) readBits(st *sst, a *SArr, pos *T, n int) []Bit {
	out := make([]Bit, n)
	pos = st.res(pos)
	a.b.reads = append(a.b.reads, bregion{pos: pos, n: tk(int64(n))})
	for i := 0; i < n; i++ {
		out[n-1-i] = e.readBit(st, a, tadd(pos, tk(int64(i))))
	}
	return out
}

func (e *bp) readBit(st *sst, a *SArr, pos *T) Bit {
	base, off := pos.splitC()
	if g := a.b.groups[base]; g != nil {
		if b, ok := g[int(off)]; ok {
			return b
		}
	}
	if len(a.b.groups) > 0 {
		for gb, g := range a.b.groups {
			rb := st.res(gb)
			if rb == gb && gb == base {
				continue
			}
			d := tsub(pos, rb)
			if !d.isC() {
				continue
			}
			if b, ok := g[int(d.c)]; ok {
				return b
			}
		}
	}
	for i := len(a.b.regs) - 1; i >= 0; i-- {
		r := a.b.regs[i]
		d := tsub(pos, st.res(r.pos))
		before := st.decide(st.cmp("lt0", d))
		if before == 1 {
			continue
		}
		after := st.decide(st.cmp("lt0", tsub(d, st.res(r.n))))
		if after == 0 {
			continue
		}
		if before == 0 && after == 1 && r.src != nil {
			// bit d of the source
			src, ok := e.load(st, r.src).(*SArr)
			if ok && src.b != nil {
				return e.readBit(st, src, tadd(d, tmulc(r.off, 8)))
			}
		}
		return Bit{k: 2, t: e.fresh("bit", 0, 1)}
	}
	// groups that could hold it
	for gb, g := range a.b.groups {
		rb := st.res(gb)
		if rb == base {
			continue
		}
		mn, mx := int64(1)<<60, int64(-1)<<60
		for k := range g {
			mn, mx = min(mn, int64(k)), max(mx, int64(k))
		}
		d := tsub(pos, rb)
		if st.decide(st.cmp("lt0", tsub(d, tk(mn)))) == 1 || st.decide(st.cmp("lt0", tsub(tk(mx), d))) == 1 {
			continue
		}
		return Bit{k: 2, t: e.fresh("bit", 0, 1)}
	}
	if a.name != "" {
		by := st.divmod("div", pos, 8)
		r := st.divmod("mod", pos, 8)
		if !r.isC() {
			return Bit{k: 2, t: top_("bit", 0, 1, tatom("content("+a.name+")", 0, 0), pos)}
		}
		return st.bitOf(tatom(fmt.Sprintf("%s[%s]", a.name, by), 0, 255), 7-int(r.c))
	}
	return Bit{}
}

// copyBytes copies n bytes.
func (e *bp) copyBytes(st *sst, dst *SPtr, doff *T, src *SPtr, soff *T, n *T) {
	n = st.res(n)
	if n.isC() && n.c == 0 {
		return
	}
	a, ok := e.load(st, dst).(*SArr)
	s, ok2 := e.load(st, src).(*SArr)
	if !ok || !ok2 || a.b == nil || s.b == nil {
		e.fail("copy between %T and %T", a, s)
	}
	a = a.clone()
	if n.isC() && n.c <= 64 {
		for i := int64(0); i < n.c; i++ {
			bs := e.readBits(st, s, tmulc(tadd(soff, tk(i)), 8), 8)
			e.writeBits(st, a, tmulc(tadd(doff, tk(i)), 8), bs)
		}
	} else {
		// what was copied before is followed to where it came from
		src2, off2 := e.origin(st, s, src, soff, n)
		if src2 == nil {
			src2, off2 = src, soff
			if s.name == "" && len(s.b.groups)+len(s.b.regs) > 0 {
				// the source may change later: copy a snapshot
				id := e.alloc(st, s)
				src2 = &SPtr{obj: id, typ: src.typ}
			}
		}
		a.b.regs = append(a.b.regs, bregion{pos: st.res(tmulc(doff, 8)), n: tmulc(n, 8), src: src2, off: off2})
	}
	e.store(st, dst, a)
}

// origin finds the region a whole range of bytes was copied from.
func (e *bp) origin(st *sst, s *SArr, p *SPtr, off, n *T) (*SPtr, *T) {
	off, n = st.res(off), st.res(n)
	for i := len(s.b.regs) - 1; i >= 0; i-- {
		r := s.b.regs[i]
		d := tsub(tmulc(off, 8), st.res(r.pos))
		end := tadd(d, tmulc(n, 8)) // from the start of the region
		if r.src == nil || st.decide(st.cmp("lt0", d)) != 0 || st.decide(st.cmp("lt0", tsub(st.res(r.n), end))) != 0 {
			// what was stored later must be elsewhere
			if st.decide(st.cmp("lt0", tsub(tk(0), end))) == 0 || st.decide(st.cmp("lt0", tsub(d, st.res(r.n)))) == 0 {
				continue
			}
			return nil, nil
		}
		if e.bitsIn(st, s, tmulc(off, 8), tmulc(n, 8)) {
			return nil, nil
		}
		return r.src, tadd(r.off, st.divmod("div", d, 8))
	}
	return nil, nil
}

// piece gives the length of the region that starts at an offset, when it ends before n bytes.
func (e *bp) piece(st *sst, s *SArr, off, n *T) *T {
	for i := len(s.b.regs) - 1; i >= 0; i-- {
		r := s.b.regs[i]
		d := tsub(tmulc(st.res(off), 8), st.res(r.pos))
		if r.src == nil || st.decide(st.cmp("lt0", d)) != 0 {
			continue
		}
		m := st.res(tsub(st.divmod("div", st.res(r.n), 8), st.divmod("div", d, 8)))
		if st.decide(st.cmp("lt0", tsub(tk(0), m))) == 1 && st.decide(st.cmp("lt0", tsub(m, n))) == 1 {
			return m
		}
	}
	return nil
}

// bitsIn tells whether bits stored one by one may be within a range.
func (e *bp) bitsIn(st *sst, s *SArr, pos, n *T) bool {
	end := st.res(tadd(pos, n))
	for gb, g := range s.b.groups {
		d := tsub(st.res(gb), pos)
		if d.isC() {
			// constant distance from the start: only those up to the end
			rem := tsub(end, st.res(gb))
			for k := range g {
				if d.c+int64(k) >= 0 && st.decide(st.cmp("lt0", tsub(tk(int64(k)), rem))) != 0 {
					return true
				}
			}
			continue
		}
		mn, mx := int64(1)<<60, int64(-1)<<60
		for k := range g {
			mn, mx = min(mn, int64(k)), max(mx, int64(k))
		}
		if st.decide(st.cmp("lt0", tadd(d, tk(mx)))) == 1 || st.decide(st.cmp("lt0", tsub(tadd(st.res(gb), tk(mn)), end))) == 0 {
			continue
		}
		return true
	}
	return false
}

// byteAt tells whether a whole byte is stored bit by bit at a position.
func (e *bp) byteAt(st *sst, s *SArr, off *T) bool {
	if s.b == nil {
		return false
	}
	base, k := st.res(tmulc(off, 8)).splitC()
	for gb, g := range s.b.groups {
		d := tsub(base, st.res(gb))
		if !d.isC() {
			continue
		}
		n := 0
		for i := range 8 {
			if _, ok := g[int(d.c)+int(k)+i]; ok {
				n++
			}
		}
		if n == 8 {
			return true
		}
	}
	return false
}

// constVal turns a constant of the program into a value.
func (e *bp) constVal(c *ssa.Const) SV {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	if _, _, ok := intInfo(c.Type()); ok {
		switch c.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(c.Value) {
				return tk(1)
			}
			return tk(0)
		case constant.Int, constant.Float:
			v, exact := constant.Int64Val(constant.ToInt(c.Value))
			if exact && v < tInf && v > -tInf {
				return tk(v)
			}
			lo, hi := typeRange(c.Type())
			return tatom("const "+c.Value.ExactString(), lo, hi)
		}
	}
	if c.Value.Kind() == constant.String {
		return SStr{known: true, s: constant.StringVal(c.Value)}
	}
	return SAny{"constant"}
}

// show renders a value.
func (e *bp) show(st *sst, v SV) string {
	switch x := v.(type) {
	case *T:
		return st.res(x).String()
	case *SPtr:
		if x.obj == 0 && x.name == "" {
			return "nil"
		}
		return "&" + x.name + fmt.Sprint(x.obj)
	case *SSlice:
		if x.arr == nil {
			return "[]"
		}
		return fmt.Sprintf("%s%d[%s:+%s]", x.arr.name, x.arr.obj, st.res(x.off), st.res(x.ln))
	case *SStruct:
		var p []string
		for _, f := range x.f {
			p = append(p, e.show(st, f))
		}
		return "{" + strings.Join(p, " ") + "}"
	case SStr:
		if x.known {
			return fmt.Sprintf("%q", x.s)
		}
		return x.name
	case *SIface:
		if x.typ == nil {
			return "nil"
		}
		return x.typ.String() + ":" + e.show(st, x.v)
	case *SArr:
		return "array " + x.name
	case SAny:
		return "unknown " + x.why
	}
	return fmt.Sprintf("%T", v)
}

// same tells whether two values are equal: 1, 0 (not shown), with the place where they differ.
func (e *bp) same(st *sst, a, b SV) (bool, string) {
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		if !ok {
			return false, "different kinds"
		}
		if st.res(tsub(st.res(x), st.res(y))) == tk(0) {
			return true, ""
		}
		if st.res(x) == st.res(y) {
			return true, ""
		}
		return false, fmt.Sprintf("%s instead of %s", st.res(x), st.res(y))
	case *SStruct:
		y, ok := b.(*SStruct)
		if !ok || len(x.f) != len(y.f) {
			return false, "different kinds"
		}
		for i := range x.f {
			if ok, w := e.same(st, x.f[i], y.f[i]); !ok {
				return false, x.typ.Underlying().(*types.Struct).Field(i).Name() + ": " + w
			}
		}
		return true, ""
	case *SArr:
		y, ok := b.(*SArr)
		if !ok {
			return false, "different kinds"
		}
		if x.b != nil && y.b != nil {
			if x.n != y.n {
				return false, "different lengths"
			}
			for i := int64(0); i < x.n*8; i++ {
				p, q := e.readBit(st, x, tk(i)), e.readBit(st, y, tk(i))
				if p != q {
					return false, fmt.Sprintf("byte %d", i/8)
				}
			}
			return true, ""
		}
		for k, el := range y.el {
			if ok, w := e.same(st, e.arrGet(st, x, el.x), el.v); !ok {
				return false, k + ": " + w
			}
		}
		for k, el := range x.el {
			if ok, w := e.same(st, el.v, e.arrGet(st, y, el.x)); !ok {
				return false, k + ": " + w
			}
		}
		if x.name == y.name && x.junk == y.junk {
			return true, ""
		}
		return false, "different arrays"
	case *SSlice:
		y, ok := b.(*SSlice)
		if !ok {
			return false, "different kinds"
		}
		if ok, w := e.same(st, x.ln, y.ln); !ok {
			return false, "length " + w
		}
		if n := st.res(x.ln); n.isC() && n.c == 0 {
			return true, ""
		}
		if x.arr == nil || y.arr == nil {
			return false, "nil slice"
		}
		return e.sameRange(st, x, y)
	case *SPtr:
		y, ok := b.(*SPtr)
		if !ok {
			return false, "different kinds"
		}
		xn, yn := e.isNil(st, x), e.isNil(st, y)
		if xn == tk(1) && yn == tk(1) {
			return true, ""
		}
		if xn != tk(0) || yn != tk(0) {
			if xn == yn && x.name == y.name {
				return true, ""
			}
			return false, fmt.Sprintf("pointer %s instead of %s", e.show(st, x), e.show(st, y))
		}
		if e.objOf(st, x) == e.objOf(st, y) && fmt.Sprint(x.path) == fmt.Sprint(y.path) {
			return true, ""
		}
		return e.same(st, e.load(st, x), e.load(st, y))
	case *SIface:
		y, ok := b.(*SIface)
		if !ok || (x.typ == nil) != (y.typ == nil) {
			return false, "different kinds"
		}
		if x.typ == nil {
			return true, ""
		}
		if !types.Identical(x.typ, y.typ) {
			return false, fmt.Sprintf("a %s instead of a %s", x.typ, y.typ)
		}
		return e.same(st, x.v, y.v)
	case SStr:
		y, ok := b.(SStr)
		if ok && x.known == y.known && x.s == y.s && x.name == y.name {
			return true, ""
		}
		return false, fmt.Sprintf("%s instead of %s", e.show(st, a), e.show(st, b))
	case SAny:
		y, ok := b.(SAny)
		if ok && x.why == y.why {
			return true, ""
		}
		return false, "unknown value " + x.why
	}
	return false, fmt.Sprintf("%T", a)
}

// sameRange compares the content of two slices of equal length.
func (e *bp) sameRange(st *sst, x, y *SSlice) (bool, string) {
	a, ok := e.load(st, x.arr).(*SArr)
	b, ok2 := e.load(st, y.arr).(*SArr)
	if !ok || !ok2 {
		return false, "unknown content"
	}
	n := st.res(x.ln)
	if a.b != nil && b.b != nil && !n.isC() {
		// bytes stored one by one at the start
		k := int64(0)
		for k < 16 && st.decide(st.cmp("lt0", tsub(tk(k), n))) == 1 &&
			(e.byteAt(st, a, tadd(x.off, tk(k))) || e.byteAt(st, b, tadd(y.off, tk(k)))) {
			for i := int64(0); i < 8; i++ {
				at := tk(k*8 + i)
				u := st.normBits([]Bit{e.readBit(st, a, tadd(st.res(tmulc(x.off, 8)), at))})
				v := st.normBits([]Bit{e.readBit(st, b, tadd(st.res(tmulc(y.off, 8)), at))})
				if st.res(u) != st.res(v) {
					return false, fmt.Sprintf("byte %d, bit %d: %s instead of %s", k, i, st.res(u), st.res(v))
				}
			}
			k++
		}
		if k > 0 {
			c := tk(k)
			x = &SSlice{arr: x.arr, off: tadd(x.off, c), ln: tsub(n, c), cp: x.cp, elem: x.elem}
			y = &SSlice{arr: y.arr, off: tadd(y.off, c), ln: tsub(n, c), cp: y.cp, elem: y.elem}
			n = st.res(x.ln)
			if n.isC() && n.c == 0 {
				return true, ""
			}
		}
	}
	if a.b != nil && b.b != nil {
		p, po := x.arr, st.res(x.off)
		for i := 0; i < 8; i++ {
			s, ok := e.load(st, p).(*SArr)
			if !ok {
				break
			}
			q, qo := e.origin(st, s, p, po, n)
			if q == nil {
				break
			}
			p, po = q, qo
		}
		r, ro := y.arr, st.res(y.off)
		for i := 0; i < 8; i++ {
			s, ok := e.load(st, r).(*SArr)
			if !ok {
				break
			}
			q, qo := e.origin(st, s, r, ro, n)
			if q == nil {
				break
			}
			r, ro = q, qo
		}
		if e.objOf(st, p) == e.objOf(st, r) && st.res(po) == st.res(ro) {
			return true, ""
		}
		if n.isC() && n.c <= 256 {
			for i := int64(0); i < n.c*8; i++ {
				u := e.readBit(st, a, tadd(tmulc(x.off, 8), tk(i)))
				v := e.readBit(st, b, tadd(tmulc(y.off, 8), tk(i)))
				if u != v {
					return false, fmt.Sprintf("bit %d: %s instead of %s", i, st.normBits([]Bit{u}), st.normBits([]Bit{v}))
				}
			}
			return true, ""
		}
		// pieces copied one after the other
		if m := e.piece(st, a, x.off, n); m != nil {
			part := func(v *SSlice, from, ln *T) *SSlice {
				return &SSlice{arr: v.arr, off: st.res(tadd(v.off, from)), ln: ln, cp: v.cp, elem: v.elem}
			}
			if ok, w := e.sameRange(st, part(x, tk(0), m), part(y, tk(0), m)); !ok {
				return false, w
			}
			rest := st.res(tsub(n, m))
			return e.sameRange(st, part(x, m, rest), part(y, m, rest))
		}
		return false, fmt.Sprintf("bytes of %s%d at %s instead of %s%d at %s", p.name, p.obj, po, r.name, r.obj, ro)
	}
	if n.isC() {
		for i := int64(0); i < n.c; i++ {
			if ok, w := e.same(st, e.arrGet(st, a, tadd(x.off, tk(i))), e.arrGet(st, b, tadd(y.off, tk(i)))); !ok {
				return false, fmt.Sprintf("[%d]: %s", i, w)
			}
		}
		return true, ""
	}
	if e.objOf(st, x.arr) == e.objOf(st, y.arr) && st.res(x.off) == st.res(y.off) {
		return true, ""
	}
	return false, "content of unknown length"
}

func (e *bp) isNil(st *sst, v SV) *T {
	switch x := v.(type) {
	case *SPtr:
		if x.obj == 0 && x.name == "" {
			return tk(1)
		}
		if x.nilT == nil {
			return tk(0)
		}
		return st.res(x.nilT)
	case *SSlice:
		if x.arr == nil {
			return tk(1)
		}
		if x.nilT == nil {
			return tk(0)
		}
		return st.res(x.nilT)
	case *SIface:
		if x.typ == nil {
			return tk(1)
		}
		return tk(0)
	case *SFn:
		if x.fn == nil {
			return tk(1)
		}
		return tk(0)
	case *SMap:
		if x.keys == nil {
			return tk(1)
		}
		return tk(0)
	case SAny:
		return tatom("nil("+x.why+")", 0, 1)
	}
	e.fail("nil test of %T", v)
	return nil
}
