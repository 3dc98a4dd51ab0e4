package main

// Values and memory of the abstract interpreter.
//
// Every symbol of a state is an existential variable of that state: definitions always take fresh symbols, and joins
// pair the linear expressions found in the same slot of the two states.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Values are immutable. nil means "no value" (dead or undefined).
type Val interface{}

type VInt struct{ l Lin }

const (
	cGE = iota // l >= 0
	cEQ        // l == 0
	cNE        // l != 0
)

// VBool is a condition.
type VBool struct {
	k int8
	l Lin
}

var vTrue = VBool{cGE, K(0)}
var vFalse = VBool{cGE, K(-1)}

func (b VBool) not() VBool {
	switch b.k {
	case cGE:
		n, _ := b.l.scale(-1)
		return VBool{cGE, laddc(n, -1)}
	case cEQ:
		return VBool{cNE, b.l}
	}
	return VBool{cEQ, b.l}
}

func mkBool(v bool) VBool {
	if v {
		return vTrue
	}
	return vFalse
}

type ObjID int32

// Sel is a step of a path inside an object.
type Sel struct {
	field int // -1: array element
	idx   Lin
	any   bool // unknown index
}

type Tgt struct {
	o ObjID
	p []Sel
}

type VPtr struct {
	nn Lin
	tg []Tgt
}

type VSlice struct {
	nn          Lin
	arr         []Tgt // targets are arrays
	off, ln, cp Lin
}

type VStr struct {
	ln  Lin
	cst *string
	id  Lin // identity symbol of an unknown string (isConst when unused)
}

type IfAlt struct {
	t types.Type
	v Val
}

type VIface struct {
	nn   Lin
	alts []IfAlt
	open bool // may hold other types
}

type FnAlt struct {
	fn    *ssa.Function
	binds []Val
	recv  Val // bound method value
}

type VFunc struct {
	nn   Lin
	alts []FnAlt
	open bool
}

type VMap struct {
	nn Lin
	o  []ObjID
}

type VStruct struct {
	f []Val
}

type arrElem struct {
	i int64
	v Val
}

// VArr is the content of an array: known elements and a template for the others.
type VArr struct {
	elems []arrElem // sorted
	rest  *VTmpl    // nil: no other element was written
	et    types.Type
	hull  *VTmpl // cache
	cell  *arrCell
	// an array filled in order: elements before pos are described by pfx, the others by rest, and elems is empty
	seg bool
	pos Lin
	pfx *VTmpl
}

// arrCell is what is known of the element at one unknown index; the other fields cover it too.
type arrCell struct {
	idx Lin
	v   Val
}

// noCells drops the cells of a value.
func noCells(v Val) Val {
	switch v := v.(type) {
	case VStruct:
		for i, x := range v.f {
			if y := noCells(x); !sameVal(x, y) {
				o := VStruct{append([]Val(nil), v.f...)}
				o.f[i] = y
				for k := i + 1; k < len(o.f); k++ {
					o.f[k] = noCells(o.f[k])
				}
				return o
			}
		}
	case *VArr:
		ch := v.cell != nil
		el := v.elems
		for i, e := range v.elems {
			if y := noCells(e.v); !sameVal(e.v, y) {
				if !ch || len(el) > 0 && &el[0] == &v.elems[0] {
					el = append([]arrElem(nil), v.elems...)
				}
				ch = true
				el[i].v = y
			}
		}
		if ch {
			return &VArr{elems: el, rest: v.rest, et: v.et, seg: v.seg, pos: v.pos, pfx: v.pfx}
		}
	}
	return v
}

// sameVal tells whether noCells left a value alone.
func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case VStruct:
		y, ok := b.(VStruct)
		return ok && len(x.f) == len(y.f) && (len(x.f) == 0 || &x.f[0] == &y.f[0])
	case *VArr:
		y, ok := b.(*VArr)
		return ok && x == y
	}
	return true
}

// VTmpl describes any of many values: v over local symbols constrained by cons and the static bounds in iv.
type VTmpl struct {
	v    Val
	loc  []Sym // local symbols, instantiated at each use
	cons []Con // over local and ambient symbols
	iv   map[Sym]Iv
	ext  bool // unknown value of type t
	t    types.Type
	name string
}

type VTuple []Val

// VTop is an opaque value.
type VTop struct{}

// VFlt is a floating point number within bounds; it does not survive a join with anything else.
type VFlt struct{ lo, hi float64 }

// VIter is a map or string iterator.
type VIter struct{ m Val }

// ---- objects

type objInfo struct {
	name    string
	t       types.Type // type of the content
	ext     bool       // unknown initial content
	summary bool       // stands for several objects
	input   bool       // bytes given by the caller
	heap    bool
	multi   bool // stands for several arrays made at one site
}

var objTab []objInfo
var objByName = map[string]ObjID{}

func internObj(name string, t types.Type, ext, summary bool) ObjID {
	if o, ok := objByName[name]; ok {
		return o
	}
	objTab = append(objTab, objInfo{name: name, t: t, ext: ext, summary: summary})
	o := ObjID(len(objTab) - 1)
	objByName[name] = o
	return o
}

// ---- integer types

const maxLen = int64(1) << 47

// maxMake bounds the length of what make is given: a multiple of the size of a supplied buffer.
const maxMake = int64(1) << 57

func intRange(t types.Type) (Iv, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return fullIv, false
	}
	switch b.Kind() {
	case types.Int8:
		return Iv{-128, 127}, true
	case types.Int16:
		return Iv{-32768, 32767}, true
	case types.Int32, types.UntypedRune:
		return Iv{math.MinInt32, math.MaxInt32}, true
	case types.Int, types.Int64, types.UntypedInt:
		return fullIv, true
	case types.Uint8:
		return Iv{0, 255}, true
	case types.Uint16:
		return Iv{0, 65535}, true
	case types.Uint32:
		return Iv{0, math.MaxUint32}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return Iv{0, posInf}, true
	}
	return fullIv, false
}

func isInt(t types.Type) bool {
	_, ok := intRange(t)
	return ok
}

func intBits(t types.Type) (int, bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func fresh(iv Iv) Lin { return V(freshSym("", iv)) }
func freshBit() Lin   { return fresh(Iv{0, 1}) }
func freshLen() Lin   { return fresh(Iv{0, maxLen}) }
func unkBool() VBool  { return VBool{cGE, laddc(freshBit(), -1)} }

// zeroVal is the zero value of a type.
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{K(0)}
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsString != 0:
			s := ""
			return VStr{ln: K(0), cst: &s}
		case u.Kind() == types.UnsafePointer:
			return VPtr{nn: K(0)}
		case u.Kind() == types.UntypedNil:
			return VPtr{nn: K(0)}
		}
		return VTop{}
	case *types.Pointer:
		return VPtr{nn: K(0)}
	case *types.Slice:
		return VSlice{nn: K(0), off: K(0), ln: K(0), cp: K(0)}
	case *types.Interface:
		return VIface{nn: K(0)}
	case *types.Signature:
		return VFunc{nn: K(0)}
	case *types.Map:
		return VMap{nn: K(0)}
	case *types.Chan:
		return VTop{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		return &VArr{rest: &VTmpl{v: zeroVal(u.Elem())}, et: u.Elem()}
	}
	return VTop{}
}

// ---- unknown values

// unknownVal is an arbitrary value of type t. name identifies the external objects it may point to; sum tells that
// the holder is a summary.
func (m *Mach) unknownVal(st *State, t types.Type, name string, sum bool, depth int) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if iv, ok := intRange(t); ok {
			return VInt{fresh(iv)}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return unkBool()
		case u.Info()&types.IsString != 0:
			return VStr{ln: freshLen(), id: fresh(fullIv)}
		}
		return VTop{}
	case *types.Pointer:
		o := m.extObj(st, name+"*", u.Elem(), sum, depth)
		nn := freshBit()
		if strings.HasSuffix(name, "[*]") {
			nn = K(1) // lists of pointers have no nil entries
		}
		return VPtr{nn: nn, tg: []Tgt{{o: o}}}
	case *types.Slice:
		o := m.extObj(st, name+"[]", types.NewArray(u.Elem(), -1), sum, depth)
		nn, ln, cp := freshBit(), freshLen(), freshLen()
		st.num.GE(lsub(cp, ln))
		// nil slices are empty
		x, _ := nn.scale(maxLen)
		st.num.GE(lsub(x, cp))
		return VSlice{nn: nn, arr: []Tgt{{o: o}}, off: K(0), ln: ln, cp: cp}
	case *types.Interface:
		return VIface{nn: freshBit(), open: true}
	case *types.Signature:
		return VFunc{nn: freshBit(), open: true}
	case *types.Map:
		o := m.extObj(st, name+"{}", types.NewArray(u.Elem(), -1), sum, depth)
		return VMap{nn: freshBit(), o: []ObjID{o}}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = m.unknownVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name(), sum, depth)
		}
		return VStruct{f}
	case *types.Array:
		return &VArr{rest: &VTmpl{ext: true, t: u.Elem(), name: name + "[*]"}, et: u.Elem()}
	}
	return VTop{}
}

const extDepth = 4

func (m *Mach) extObj(st *State, name string, t types.Type, sum bool, depth int) ObjID {
	if len(name) > 200 {
		// deep structures share objects
		name = name[:150] + "~"
		sum = true
	}
	o := internObj(name, t, true, sum)
	if sum {
		objTab[o].summary = true
	}
	if objTab[o].summary {
		return o
	}
	if _, ok := st.mem[o]; !ok && depth > 0 {
		st.mem[o] = VTop{} // cycle guard
		st.mem[o] = m.unknownVal(st, t, name, sum, depth-1)
	}
	return o
}

// content returns the content of an object.
func (m *Mach) content(st *State, o ObjID) Val {
	if v, ok := st.mem[o]; ok {
		return v
	}
	if v, ok := m.globals[o]; ok {
		return v
	}
	inf := &objTab[o]
	if inf.summary {
		v := &VTmpl{ext: true, t: inf.t, name: inf.name}
		st.mem[o] = v
		return v
	}
	if inf.ext {
		v := m.unknownVal(st, inf.t, inf.name, false, 1)
		st.mem[o] = v
		return v
	}
	return nil
}

// ---- symbol traversal

// mapVal rebuilds a value with f applied to every linear expression outside templates, and ft to templates.
func mapVal(v Val, f func(Lin) Lin, ft func(*VTmpl) *VTmpl) Val {
	switch v := v.(type) {
	case VInt:
		return VInt{f(v.l)}
	case VBool:
		if v.l.isConst() {
			return v
		}
		return VBool{v.k, f(v.l)}
	case VPtr:
		return VPtr{f(v.nn), mapTgts(v.tg, f)}
	case VSlice:
		return VSlice{f(v.nn), mapTgts(v.arr, f), f(v.off), f(v.ln), f(v.cp)}
	case VStr:
		return VStr{f(v.ln), v.cst, f(v.id)}
	case VIface:
		o := VIface{nn: f(v.nn), open: v.open}
		for _, a := range v.alts {
			o.alts = append(o.alts, IfAlt{a.t, mapVal(a.v, f, ft)})
		}
		return o
	case VFunc:
		o := VFunc{nn: f(v.nn), open: v.open}
		for _, a := range v.alts {
			b := FnAlt{fn: a.fn, recv: mapVal(a.recv, f, ft)}
			for _, x := range a.binds {
				b.binds = append(b.binds, mapVal(x, f, ft))
			}
			o.alts = append(o.alts, b)
		}
		return o
	case VMap:
		return VMap{f(v.nn), v.o}
	case VStruct:
		o := VStruct{make([]Val, len(v.f))}
		for i, x := range v.f {
			o.f[i] = mapVal(x, f, ft)
		}
		return o
	case *VArr:
		o := &VArr{et: v.et}
		for _, e := range v.elems {
			o.elems = append(o.elems, arrElem{e.i, mapVal(e.v, f, ft)})
		}
		if v.cell != nil {
			o.cell = &arrCell{f(v.cell.idx), mapVal(v.cell.v, f, ft)}
		}
		if v.rest != nil {
			o.rest = ft(v.rest)
		}
		if v.seg {
			o.seg, o.pos = true, f(v.pos)
			if v.pfx != nil {
				o.pfx = ft(v.pfx)
			}
		}
		return o
	case *VTmpl:
		return ft(v)
	case VTuple:
		o := make(VTuple, len(v))
		for i, x := range v {
			o[i] = mapVal(x, f, ft)
		}
		return o
	case VIter:
		return VIter{mapVal(v.m, f, ft)}
	}
	return v
}

func mapTgts(tg []Tgt, f func(Lin) Lin) []Tgt {
	plain := true
	for _, t := range tg {
		for _, s := range t.p {
			if s.field < 0 && !s.any && !s.idx.isConst() {
				plain = false
			}
		}
	}
	if plain {
		return tg
	}
	out := make([]Tgt, len(tg))
	for i, t := range tg {
		out[i] = Tgt{o: t.o}
		for _, s := range t.p {
			if s.field < 0 && !s.any {
				s.idx = f(s.idx)
			}
			out[i].p = append(out[i].p, s)
		}
	}
	return out
}

// walk visits linear expressions and object references of a value.
type walker struct {
	lin  func(Lin)
	obj  func(ObjID)
	tmpl func(*VTmpl) // called for templates; default walks ambient symbols and objects
}

func (w *walker) tgts(tg []Tgt) {
	for _, t := range tg {
		if w.obj != nil {
			w.obj(t.o)
		}
		for _, s := range t.p {
			if s.field < 0 && !s.any && w.lin != nil {
				w.lin(s.idx)
			}
		}
	}
}

func (w *walker) l(x Lin) {
	if w.lin != nil && len(x.t) > 0 {
		w.lin(x)
	}
}

func (w *walker) val(v Val) {
	switch v := v.(type) {
	case VInt:
		w.l(v.l)
	case VBool:
		w.l(v.l)
	case VPtr:
		w.l(v.nn)
		w.tgts(v.tg)
	case VSlice:
		w.l(v.nn)
		w.tgts(v.arr)
		w.l(v.off)
		w.l(v.ln)
		w.l(v.cp)
	case VStr:
		w.l(v.ln)
		w.l(v.id)
	case VIface:
		w.l(v.nn)
		for _, a := range v.alts {
			w.val(a.v)
		}
	case VFunc:
		w.l(v.nn)
		for _, a := range v.alts {
			w.val(a.recv)
			for _, x := range a.binds {
				w.val(x)
			}
		}
	case VMap:
		w.l(v.nn)
		if w.obj != nil {
			for _, o := range v.o {
				w.obj(o)
			}
		}
	case VStruct:
		for _, x := range v.f {
			w.val(x)
		}
	case *VArr:
		for _, e := range v.elems {
			w.val(e.v)
		}
		if v.cell != nil {
			w.l(v.cell.idx)
			w.val(v.cell.v)
		}
		if v.rest != nil {
			w.tm(v.rest)
		}
		if v.seg {
			w.l(v.pos)
			if v.pfx != nil {
				w.tm(v.pfx)
			}
		}
	case *VTmpl:
		w.tm(v)
	case VTuple:
		for _, x := range v {
			w.val(x)
		}
	case VIter:
		w.val(v.m)
	}
}

func (w *walker) tm(t *VTmpl) {
	if w.tmpl != nil {
		w.tmpl(t)
		return
	}
	if t.ext {
		return
	}
	loc := map[Sym]bool{}
	for _, s := range t.loc {
		loc[s] = true
	}
	in := walker{obj: w.obj}
	if w.lin != nil {
		in.lin = func(l Lin) {
			for _, x := range l.t {
				if !loc[x.s] {
					w.lin(V(x.s))
				}
			}
		}
	}
	in.val(t.v)
	if w.lin != nil {
		for _, c := range t.cons {
			in.lin(c.l)
		}
	}
}

func symsOf(v Val, add func(Sym)) {
	w := walker{lin: func(l Lin) {
		for _, t := range l.t {
			add(t.s)
		}
	}}
	w.val(v)
}

// ---- templates

// instantiate turns a template into a value of the state.
func (m *Mach) instantiate(st *State, t *VTmpl) Val {
	if t.ext {
		return m.unknownVal(st, t.t, t.name, true, 0)
	}
	if len(t.loc) == 0 {
		return t.v
	}
	ren := map[Sym]Lin{}
	for _, s := range t.loc {
		iv := symTab[s].iv
		if x, ok := t.iv[s]; ok {
			iv = x
		}
		ren[s] = fresh(iv)
	}
	sub := func(l Lin) Lin {
		r, ok := l.substAll(ren)
		if !ok {
			return fresh(fullIv)
		}
		return r
	}
	v := mapVal(t.v, sub, func(in *VTmpl) *VTmpl { return substTmpl(in, ren) })
	for _, c := range t.cons {
		x, ok := c.l.substAll(ren)
		if !ok {
			continue
		}
		if c.eq {
			st.num.EQ(x)
		} else {
			st.num.GE(x)
		}
	}
	return v
}

// substTmpl renames the ambient symbols of a template; constraints that cannot be expressed are dropped.
func substTmpl(t *VTmpl, ren map[Sym]Lin) *VTmpl {
	if t == nil || t.ext {
		return t
	}
	hit := false
	w := walker{lin: func(l Lin) {
		for _, x := range l.t {
			if _, ok := ren[x.s]; ok {
				hit = true
			}
		}
	}}
	w.tm(t)
	if !hit {
		return t
	}
	sub := func(l Lin) Lin {
		r, ok := l.substAll(ren)
		if !ok {
			return fresh(fullIv)
		}
		return r
	}
	o := &VTmpl{loc: t.loc, iv: t.iv}
	o.v = mapVal(t.v, sub, func(in *VTmpl) *VTmpl { return substTmpl(in, ren) })
	for _, c := range t.cons {
		if x, ok := c.l.substAll(ren); ok {
			o.cons = append(o.cons, Con{x, c.eq})
		}
	}
	return o
}

// tmplOf makes a template of a value of the state. roots are the symbols that may stay ambient.
func (m *Mach) tmplOf(st *State, v Val, roots map[Sym]bool) *VTmpl {
	v = noCells(v)
	vs := map[Sym]bool{}
	var order []Sym
	symsOf(v, func(s Sym) {
		if !vs[s] {
			vs[s] = true
			order = append(order, s)
		}
	})
	if len(order) == 0 {
		return &VTmpl{v: v}
	}
	t := &VTmpl{iv: map[Sym]Iv{}}
	// every symbol of the value becomes local
	ren := map[Sym]Lin{}
	for _, s := range order {
		q := freshSym("", symTab[s].iv)
		ren[s] = V(q)
		t.loc = append(t.loc, q)
		t.iv[q] = st.num.bounds(s)
	}
	cons := project(coneCons(st.num, vs), func(s Sym) bool { return vs[s] || roots[s] }, st.num.bounds)
	for _, c := range cons {
		hit := false
		for _, x := range c.l.t {
			if vs[x.s] {
				hit = true
			}
		}
		if !hit || len(c.l.t) > 4 {
			continue
		}
		if x, ok := c.l.substAll(ren); ok {
			t.cons = append(t.cons, Con{x, c.eq})
		}
	}
	// a local symbol that is also ambient keeps its tie
	for _, s := range order {
		if roots[s] {
			d := lsub(ren[s], V(s))
			t.cons = append(t.cons, Con{d, true})
		}
	}
	sub := func(l Lin) Lin {
		r, ok := l.substAll(ren)
		if !ok {
			return fresh(fullIv)
		}
		return r
	}
	t.v = mapVal(v, sub, func(in *VTmpl) *VTmpl { return substTmpl(in, ren) })
	return t
}

// coneCons selects the constraints connected to the given symbols.
func coneCons(n *Num, vs map[Sym]bool) []Con {
	cur := map[Sym]bool{}
	for s := range vs {
		cur[s] = true
	}
	used := make([]bool, len(n.cons))
	var out []Con
	for {
		any := false
		for i, c := range n.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range c.l.t {
				if cur[t.s] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				any = true
				for _, t := range c.l.t {
					cur[t.s] = true
				}
			}
		}
		if !any || len(out) > 120 {
			return out
		}
	}
}

// joinTmpl returns the least template found covering both.
func (m *Mach) joinTmpl(st *State, a, b *VTmpl, roots map[Sym]bool) *VTmpl {
	if a == nil {
		return b
	}
	if b == nil || a == b {
		return a
	}
	if a.ext {
		return a
	}
	if b.ext {
		return b
	}
	sa, sb := &State{num: st.num.clone(), mem: st.mem, m: m}, &State{num: st.num.clone(), mem: st.mem, m: m}
	va, vb := m.instantiate(sa, a), m.instantiate(sb, b)
	r, _ := m.joinTmplStates(sa, va, sb, vb, roots, false)
	return r
}

// joinTmplStates joins two values, each living in its own state, into a template over roots.
// changed tells that the result is weaker than the first one.
func (m *Mach) joinTmplStates(sa *State, va Val, sb *State, vb Val, roots map[Sym]bool, widen bool) (*VTmpl, bool) {
	j := newJoiner(m, sa, sb)
	j.widen = widen
	j.inTmpl = true
	v := j.val(va, vb)
	vs := map[Sym]bool{}
	var order []Sym
	symsOf(v, func(s Sym) {
		if !vs[s] {
			vs[s] = true
			order = append(order, s)
		}
	})
	out := j.solve(func(s Sym) bool { return vs[s] || roots[s] })
	tmp := &State{num: out, mem: sa.mem, m: m}
	t := m.tmplOf(tmp, v, roots)
	return t, j.changed
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok && fits(i) {
				return VInt{K(i)}
			}
			// out of the representable range
			if constant.Sign(v) > 0 {
				return VInt{fresh(Iv{big, posInf})}
			}
			return VInt{fresh(Iv{negInf, -big})}
		case u.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			s := constant.StringVal(c.Value)
			return VStr{ln: K(int64(len(s))), cst: &s}
		}
	}
	return VTop{}
}

func sortObjs(m map[ObjID]Val) []ObjID {
	out := make([]ObjID, 0, len(m))
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func showVal(v Val, n *Num) string {
	l := func(x Lin) string {
		s := x.key()
		if n != nil {
			r := n.rng(x)
			s += fmt.Sprintf("∈[%s,%s]", showB(r.lo), showB(r.hi))
		}
		return s
	}
	switch v := v.(type) {
	case nil:
		return "-"
	case VFlt:
		return fmt.Sprintf("float[%g,%g]", v.lo, v.hi)
	case VInt:
		return l(v.l)
	case VBool:
		return fmt.Sprintf("bool(%d,%s)", v.k, l(v.l))
	case VPtr:
		s := "ptr(nn=" + l(v.nn)
		for _, t := range v.tg {
			s += " " + objTab[t.o].name + fmt.Sprint(t.p)
		}
		return s + ")"
	case VSlice:
		s := "slice(nn=" + l(v.nn) + " off=" + l(v.off) + " len=" + l(v.ln)
		for _, t := range v.arr {
			s += " " + objTab[t.o].name
		}
		return s + ")"
	case VStruct:
		s := "{"
		for _, f := range v.f {
			s += showVal(f, n) + ", "
		}
		return s + "}"
	case *VArr:
		s := "["
		for _, e := range v.elems {
			s += fmt.Sprintf("%d:%s ", e.i, showVal(e.v, n))
		}
		if v.cell != nil {
			s += "cell " + l(v.cell.idx) + ":" + showVal(v.cell.v, n) + " "
		}
		if v.seg {
			s += "until " + l(v.pos) + " "
			if v.pfx != nil {
				s += showVal(v.pfx, n) + " "
			}
		}
		if v.rest != nil {
			s += "rest " + showVal(v.rest, n)
		}
		return s + "]"
	case *VTmpl:
		if v.ext {
			return "ext"
		}
		s := "tmpl(" + showVal(v.v, nil)
		for _, c := range v.cons {
			s += " " + c.key()
		}
		for _, x := range v.loc {
			if iv, ok := v.iv[x]; ok {
				s += fmt.Sprintf(" s%d:[%s,%s]", x, showB(iv.lo), showB(iv.hi))
			}
		}
		return s + ")"
	case VIface:
		s := "iface(nn=" + l(v.nn)
		for _, a := range v.alts {
			s += " " + a.t.String() + ":" + showVal(a.v, n)
		}
		if v.open {
			s += " open"
		}
		return s + ")"
	}
	return fmt.Sprintf("%T", v)
}

func showB(v int64) string {
	if v == posInf {
		return "+inf"
	}
	if v == negInf {
		return "-inf"
	}
	return fmt.Sprint(v)
}
