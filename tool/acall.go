package main

// Calls: built-in functions, functions of the repository (entered in the caller's state), contracts of the bit readers
// and of external functions, and the intrinsics of the drivers.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const driverPkg = modPath + "/internal/zzverif"

func (m *Mach) call(x *fexec, st *State, in ssa.CallInstruction) []callOut {
	cm := in.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		return m.builtin(x, st, in, b.Name(), cm.Args)
	}
	args := make([]Val, len(cm.Args))
	for i, a := range cm.Args {
		args[i] = m.eval(st, a)
	}
	if cm.IsInvoke() {
		return m.invoke(x, st, in, args)
	}
	if f := cm.StaticCallee(); f != nil {
		if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
			if v, ok := m.eval(st, mc).(VFunc); ok && len(v.alts) == 1 {
				return m.callFn(x, st, in, f, args, v.alts[0].binds)
			}
		}
		return m.callFn(x, st, in, f, args, nil)
	}
	v, ok := m.eval(st, cm.Value).(VFunc)
	if !ok {
		m.gaps["call of an unknown function value in "+FName(x.fi.fn)]++
		return []callOut{{st, m.unknownResults(st, cm.Signature().Results(), "dyn")}}
	}
	return m.callFuncVal(x, st, in, v, args)
}

func (m *Mach) callFuncVal(x *fexec, st *State, in ssa.CallInstruction, v VFunc, args []Val) []callOut {
	if !(v.nn.isConst() && v.nn.c == 1) {
		m.need(x, st, in, "nil", laddc(v.nn, -1), func() string { return "call of a nil function" })
		if st.bot() {
			return nil
		}
	}
	var outs []callOut
	for i, a := range v.alts {
		s := st
		if i < len(v.alts)-1 || v.open {
			s = st.clone()
		}
		aa := args
		if a.recv != nil {
			aa = append([]Val{a.recv}, args...)
		}
		outs = append(outs, m.callFn(x, s, in, a.fn, aa, a.binds)...)
	}
	if v.open || len(v.alts) == 0 {
		// a function supplied by the user
		outs = append(outs, callOut{st, m.unknownResults(st, in.Common().Signature().Results(), "callback")})
	}
	return outs
}

func (m *Mach) unknownResults(st *State, t *types.Tuple, name string) []Val {
	var out []Val
	for i := 0; i < t.Len(); i++ {
		out = append(out, m.unknownVal(st, t.At(i).Type(), fmt.Sprintf("ext:%s#%d:%s", name, i, t.At(i).Type()), true, 0))
	}
	return out
}

// implementers of an interface among the types of the repository.
func (m *Mach) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, p := range m.r.Pkgs {
		if p.Types == nil || !IsRepoPath(p.Types.Path()) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt := tn.Type()
			if _, ok := nt.Underlying().(*types.Interface); ok {
				continue
			}
			if nm, ok := nt.(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(nt, it) {
				out = append(out, nt)
			} else if types.Implements(types.NewPointer(nt), it) {
				out = append(out, types.NewPointer(nt))
			}
		}
	}
	return out
}

func (m *Mach) invoke(x *fexec, st *State, in ssa.CallInstruction, args []Val) []callOut {
	cm := in.Common()
	v, ok := m.eval(st, cm.Value).(VIface)
	if !ok {
		v = VIface{nn: freshBit(), open: true}
	}
	if !(v.nn.isConst() && v.nn.c == 1) {
		m.need(x, st, in, "nil", laddc(v.nn, -1), func() string { return "method call on a nil interface" })
		if st.bot() {
			return nil
		}
	}
	it, _ := cm.Value.Type().Underlying().(*types.Interface)
	alts := v.alts
	open := v.open
	if open {
		if nt, ok := cm.Value.Type().(*types.Named); ok && nt.Obj().Pkg() != nil && IsRepoPath(nt.Obj().Pkg().Path()) && it != nil {
			alts = nil
			for _, t := range m.implementers(it) {
				u := m.unknownVal(st, t, "impl:"+t.String(), true, 0)
				if p, ok := u.(VPtr); ok {
					st.num.EQ(laddc(p.nn, -1))
				}
				alts = append(alts, IfAlt{t, u})
			}
			open = len(alts) == 0
		}
	}
	var outs []callOut
	for i, a := range alts {
		s := st
		if i < len(alts)-1 || open {
			s = st.clone()
		}
		sel := m.r.Prog.MethodSets.MethodSet(a.t).Lookup(cm.Method.Pkg(), cm.Method.Name())
		if sel == nil {
			continue
		}
		f := m.r.Prog.MethodValue(sel)
		if f == nil {
			continue
		}
		outs = append(outs, m.callFn(x, s, in, f, append([]Val{a.v}, args...), nil)...)
	}
	if open || len(alts) == 0 {
		outs = append(outs, m.extInvoke(x, st, in, cm.Method, args)...)
	}
	return outs
}

// ---- functions of the repository

func (m *Mach) callFn(x *fexec, st *State, in ssa.CallInstruction, f *ssa.Function, args, binds []Val) []callOut {
	if outs, ok := m.intrinsic(x, st, in, f, args); ok {
		return outs
	}
	if m.onCall != nil {
		if outs, ok := m.onCall(m, st, in, f, args); ok {
			return outs
		}
	}
	if m.r != nil && len(m.cutNames) > 0 {
		if c := m.r.cuts[FName(f)]; c != nil && m.cutNames[c.Name()] {
			f = c
		}
	}
	if f.Blocks == nil || (f.Pkg != nil && !IsRepoPath(f.Pkg.Pkg.Path())) {
		return m.external(x, st, in, f, args)
	}
	for _, g := range m.stack {
		if g == f {
			m.gaps["recursion into "+FName(f)]++
			m.errs = append(m.errs, "recursion into "+FName(f))
			return []callOut{{st, m.unknownResults(st, f.Signature.Results(), "rec:"+FName(f))}}
		}
	}
	fi := m.fnInfo(f)
	if live, ok := x.fi.after[in]; ok {
		st.prune(live)
	}
	ctx := m.ctx(x.ctx, in, f)
	fr := &Frame{fi: fi, ctx: ctx, vals: make([]Val, fi.n), own: st}
	for i, p := range f.Params {
		if i < len(args) {
			a := args[i]
			// a compound length gets a name: what the callee learns is then expressed with fewer terms
			if v, ok := a.(VSlice); ok && len(v.ln.t) > m.nameLen && m.nameLen > 0 {
				v.ln = m.named(st, v.ln)
				a = v
			}
			fr.vals[fi.num[p]] = a
		}
	}
	for i, p := range f.FreeVars {
		if i < len(binds) {
			fr.vals[fi.num[p]] = binds[i]
		}
	}
	st.fr = append(append([]*Frame(nil), st.fr...), fr)
	fr.own = st
	outs := m.run(fi, ctx, st)
	return m.mergeOuts(x, in, outs)
}

func (m *Mach) named(st *State, l Lin) Lin {
	q := V(freshSym("", st.num.rng(l)))
	d, ok := q.sub(l)
	if !ok {
		return l
	}
	st.num.EQ(d)
	return q
}

// mergeOuts pops the callee's frame and joins outcomes that callers need not tell apart.
func (m *Mach) mergeOuts(x *fexec, in ssa.CallInstruction, outs []callOut) []callOut {
	v, isV := in.(ssa.Value)
	type grp struct {
		key string
		st  *State
	}
	var groups []grp
	num := -1
	if isV {
		if n, ok := x.fi.num[v]; ok {
			num = n
		}
	}
	for _, o := range outs {
		if o.st.bot() {
			continue
		}
		s := o.st
		s.fr = append([]*Frame(nil), s.fr[:len(s.fr)-1]...)
		if num >= 0 {
			f := s.wtop()
			f.vals[num] = VTuple(o.res)
		}
		s.gc()
		if s.bot() {
			continue
		}
		k := m.resKey(s, o.res)
		found := false
		for i := range groups {
			if groups[i].key == k || groups[i].key == "*" {
				groups[i].st, _, _ = joinStates(m, groups[i].st, s, false)
				found = true
				break
			}
		}
		if !found {
			groups = append(groups, grp{k, s})
		}
	}
	lim := max(6, m.maxKeys-2)
	if m.unroll {
		lim = 400
	}
	if len(groups) > lim {
		s := groups[0].st
		for _, g := range groups[1:] {
			s, _, _ = joinStates(m, s, g.st, false)
		}
		groups = []grp{{"*", s}}
	}
	var res []callOut
	for _, g := range groups {
		var rv []Val
		if num >= 0 {
			if t, ok := g.st.top().vals[num].(VTuple); ok {
				rv = t
			}
			f := g.st.wtop()
			f.vals[num] = nil
		}
		res = append(res, callOut{g.st, rv})
	}
	return res
}

func (m *Mach) resKey(st *State, res []Val) string {
	var sb strings.Builder
	if m.cellKeys {
		sb.WriteString(m.cellKey(st))
	}
	sb.WriteString(st.tags)
	if st.past {
		sb.WriteByte('*')
	}
	bit := func(l Lin) byte {
		r := st.num.rng(l)
		if r.lo == r.hi {
			return byte('0' + r.lo)
		}
		return '?'
	}
	for _, v := range res {
		switch v := v.(type) {
		case VPtr:
			sb.WriteByte(bit(v.nn))
		case VSlice:
			// nil slices and errors travel together
			sb.WriteByte(bit(v.nn))
		case VIface:
			sb.WriteByte(bit(v.nn))
			if len(v.alts) == 1 && !v.open {
				if !isErrorType(v.alts[0].t) {
					sb.WriteString(v.alts[0].t.String())
				}
			}
		case VFunc:
			sb.WriteByte(bit(v.nn))
		case VBool:
			sb.WriteByte(byte('0' + 1 + evalBool(st.num, v)))
		case VInt:
			if m.unroll && v.l.isConst() {
				fmt.Fprintf(&sb, "i%d", v.l.c)
			}
		}
		sb.WriteByte('|')
	}
	if m.unroll {
		for _, o := range sortObjs(st.mem) {
			if v, ok := st.mem[o].(VInt); ok && v.l.isConst() {
				fmt.Fprintf(&sb, "m%d", v.l.c)
			}
		}
	}
	return sb.String()
}

func isErrorType(t types.Type) bool {
	return types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

// ---- built-in functions

func (m *Mach) builtin(x *fexec, st *State, in ssa.CallInstruction, name string, args []ssa.Value) []callOut {
	one := func(v Val) []callOut { return []callOut{{st, []Val{v}}} }
	switch name {
	case "len":
		switch v := m.eval(st, args[0]).(type) {
		case VSlice:
			if st.num.rng(v.ln).hi > maxLen*8 {
				st.num.GE(lsub(K(maxLen), v.ln)) // a slice that exists
			}
			return one(VInt{v.ln})
		case VStr:
			return one(VInt{v.ln})
		case VPtr:
			if a, ok := args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return one(VInt{K(a.Len())})
			}
		case *VArr:
			if a, ok := args[0].Type().Underlying().(*types.Array); ok {
				return one(VInt{K(a.Len())})
			}
		}
		return one(VInt{freshLen()})
	case "cap":
		if v, ok := m.eval(st, args[0]).(VSlice); ok {
			return one(VInt{v.cp})
		}
		return one(VInt{freshLen()})
	case "append":
		return m.appendCall(x, st, in, args)
	case "copy":
		return m.copyCall(x, st, in, args)
	case "min", "max":
		if !isInt(args[0].Type()) {
			return one(m.unknownVal(st, args[0].Type(), "minmax", true, 0))
		}
		sts := []callOut{{st, []Val{VInt{m.evalInt(st, args[0])}}}}
		for _, a := range args[1:] {
			var next []callOut
			for _, o := range sts {
				p := o.res[0].(VInt).l
				q := m.evalInt(o.st, a)
				if name == "max" {
					p, q = q, p // the smaller of the swapped pair is dropped
				}
				d, ok := q.sub(p) // min: p if q >= p
				if !ok {
					next = append(next, callOut{o.st, []Val{VInt{fresh(fullIv)}}})
					continue
				}
				lo, hi := p, q
				if name == "max" {
					lo, hi = q, p
					// d = q-p with q the first argument: max is q if q >= p
					lo, hi = q, p
				}
				switch evalBool(o.st.num, VBool{cGE, d}) {
				case 1:
					next = append(next, callOut{o.st, []Val{VInt{lo}}})
				case 0:
					next = append(next, callOut{o.st, []Val{VInt{hi}}})
				default:
					t := o.st.clone()
					t.num.GE(d)
					next = append(next, callOut{t, []Val{VInt{lo}}})
					o.st.num.GE(laddc(mustNeg(d), -1))
					next = append(next, callOut{o.st, []Val{VInt{hi}}})
				}
			}
			sts = next
		}
		return sts
	case "delete", "print", "println", "clear", "close":
		return []callOut{{st, nil}}
	case "recover":
		return one(VIface{nn: freshBit(), open: true})
	case "panic":
		m.record(in, "panic", false, "an explicit panic is reachable", x.ctx)
		return nil
	case "ssa:wrapnilchk":
		return one(m.eval(st, args[0]))
	}
	m.gaps["builtin "+name]++
	if v, ok := in.(ssa.Value); ok {
		return one(m.unknownVal(st, v.Type(), "builtin", true, 0))
	}
	return []callOut{{st, nil}}
}

// elemsTmpl describes any element of a slice (nil: it has none).
func (m *Mach) elemsTmpl(st *State, s VSlice, roots map[Sym]bool) *VTmpl {
	if s.ln.isConst() && s.ln.c == 0 {
		return nil
	}
	if st.num.rng(s.ln).hi <= 0 {
		return nil
	}
	var t *VTmpl
	for _, tg := range s.arr {
		c := m.loadPath(st, m.content(st, tg.o), objTab[tg.o].t, tg.p)
		a, ok := c.(*VArr)
		if !ok {
			continue
		}
		if a.seg {
			if e, ok := s.off.add(s.ln); ok && s.off.isConst() && st.num.prove(lsub(a.pos, e)) {
				if a.pfx != nil {
					t = m.joinTmpl(st, t, a.pfx, roots)
				}
				continue
			}
			a = m.flat(st, a)
		}
		if a.rest != nil && a.rest.ext {
			t = m.joinTmpl(st, t, a.rest, roots)
			continue
		}
		lo, hi := int64(negInf), int64(posInf)
		ro := st.num.rng(s.off)
		lo = ro.lo
		if e, ok := s.off.add(s.ln); ok {
			hi = st.num.rng(e).hi
		}
		covered := int64(0)
		for _, e := range a.elems {
			if e.i >= lo && e.i < hi {
				covered++
				t = m.joinTmpl(st, t, m.tmplOf(st, e.v, roots), roots)
			}
		}
		if s.off.isConst() && s.ln.isConst() && covered == s.ln.c {
			continue
		}
		t = m.joinTmpl(st, t, a.rest, roots)
	}
	return t
}

func (m *Mach) appendCall(x *fexec, st *State, in ssa.CallInstruction, args []ssa.Value) []callOut {
	v := in.(ssa.Value)
	sl, _ := v.Type().Underlying().(*types.Slice)
	a, ok := m.eval(st, args[0]).(VSlice)
	if !ok {
		return []callOut{{st, []Val{m.unknownVal(st, v.Type(), "append", true, 0)}}}
	}
	var b VSlice
	switch y := m.eval(st, args[1]).(type) {
	case VSlice:
		b = y
	case VStr:
		o := m.alloc(st, x, in, "str", types.NewArray(sl.Elem(), -1), &VArr{rest: &VTmpl{ext: true, t: sl.Elem(), name: "str"}, et: sl.Elem()})
		b = VSlice{nn: K(1), arr: []Tgt{{o: o}}, off: K(0), ln: y.ln, cp: y.ln}
	default:
		return []callOut{{st, []Val{m.unknownVal(st, v.Type(), "append", true, 0)}}}
	}
	ln := ladd(a.ln, b.ln)
	roots := st.roots()
	name := fmt.Sprintf("%s@%d.%d", FName(x.fi.fn), x.ctx, x.fi.instrNum[in])
	arr := &VArr{et: sl.Elem()}
	exact := false
	if a.ln.isConst() && a.ln.c <= 8 && b.ln.isConst() && b.ln.c <= 8 && (a.ln.c == 0 || a.off.isConst() && len(a.arr) == 1) && (b.ln.c == 0 || b.off.isConst() && len(b.arr) == 1) {
		exact = true
		k := int64(0)
		for _, s := range []VSlice{a, b} {
			for i := int64(0); i < s.ln.c; i++ {
				e := m.load(st, addSel(s.arr, Sel{field: -1, idx: laddc(s.off, i)}), sl.Elem())
				arr.elems = append(arr.elems, arrElem{k, e})
				k++
			}
		}
	} else {
		ta, tb := m.elemsTmpl(st, a, roots), m.elemsTmpl(st, b, roots)
		arr.rest = m.joinTmpl(st, ta, tb, roots)
	}
	// writing in place: what other slices of the same array see beyond their length
	if len(a.arr) > 0 && !st.num.prove(lsub(a.ln, a.cp)) {
		var tb *VTmpl
		if exact {
			for i := a.ln.c; i < ln.c; i++ {
				e, _ := elemsGet(arr.elems, i)
				tb = m.joinTmpl(st, tb, m.tmplOf(st, e, roots), roots)
			}
		} else {
			tb = m.elemsTmpl(st, b, roots)
		}
		if tb != nil {
			for _, tg := range a.arr {
				c := m.loadPath(st, m.content(st, tg.o), objTab[tg.o].t, tg.p)
				if ca, ok := c.(*VArr); ok && (ca.rest == nil || !ca.rest.ext) && len(tg.p) == 0 && !objTab[tg.o].summary {
					ca = m.flat(st, ca)
					n := &VArr{et: ca.et, elems: ca.elems, rest: m.joinTmpl(st, ca.rest, tb, roots)}
					// known elements beyond the length may be overwritten
					lo := st.num.rng(ladd(a.off, a.ln)).lo
					var el []arrElem
					for _, e := range ca.elems {
						if e.i < lo {
							el = append(el, e)
						} else {
							n.rest = m.joinTmpl(st, n.rest, m.tmplOf(st, e.v, roots), roots)
						}
					}
					n.elems = el
					st.mem[tg.o] = n
				}
			}
		}
	}
	if live, ok := x.fi.after[in]; ok {
		st.prune(live)
	}
	o := internObj(name, types.NewArray(sl.Elem(), -1), false, false)
	if old, ok := st.mem[o].(*VArr); ok && m.referenced(st, o) {
		old = m.flat(st, old)
		objTab[o].multi = true
		n := &VArr{et: sl.Elem(), rest: arr.rest}
		for _, l := range [][]arrElem{arr.elems, old.elems} {
			for _, e := range l {
				n.rest = m.joinTmpl(st, n.rest, m.tmplOf(st, e.v, roots), roots)
			}
		}
		n.rest = m.joinTmpl(st, n.rest, old.rest, roots)
		arr = n
	}
	st.mem[o] = arr
	cp := freshLen()
	st.num.GE(lsub(cp, ln))
	if m.checkMem {
		m.needSize(x, st, in, ln, sl.Elem(), "append")
	}
	nn := K(1)
	if !st.num.prove(laddc(b.ln, -1)) && !(a.nn.isConst() && a.nn.c == 1) {
		nn = freshBit()
		st.num.GE(lsub(nn, a.nn))
		if y, ok := nn.scale(maxLen); ok {
			st.num.GE(lsub(y, ln))
			st.num.GE(lsub(y, cp))
		}
	}
	return []callOut{{st, []Val{VSlice{nn: nn, arr: []Tgt{{o: o}}, off: K(0), ln: ln, cp: cp}}}}
}

// havoc makes the elements of a slice arbitrary values described by t (nil: unknown bytes and the like).
func (m *Mach) havoc(st *State, s VSlice, et types.Type, t *VTmpl) {
	if s.ln.isConst() && s.ln.c == 0 {
		return
	}
	if t == nil {
		t = &VTmpl{ext: true, t: et, name: "read"}
	}
	for _, tg := range s.arr {
		c := m.content(st, tg.o)
		st.mem[tg.o] = m.storeAll(st, c, tg.p, t)
	}
}

// storeAll makes every element of the array at the path possibly equal to a value of the template.
func (m *Mach) storeAll(st *State, v Val, p []Sel, t *VTmpl) Val {
	if len(p) == 0 {
		if tm, ok := v.(*VTmpl); ok {
			if tm.ext {
				return tm
			}
			cur, ok := m.instantiate(st, tm).(*VArr)
			if !ok {
				return v
			}
			return m.joinTmpl(st, tm, m.tmplOf(st, m.storeAll(st, cur, nil, t), st.roots()), st.roots())
		}
		a, ok := v.(*VArr)
		if !ok {
			return v
		}
		a = m.flat(st, a)
		if a.rest != nil && a.rest.ext && len(a.elems) == 0 {
			return a
		}
		n := &VArr{et: a.et}
		roots := st.roots()
		if t.ext {
			n.rest = t
			return n
		}
		n.rest = m.joinTmpl(st, a.rest, t, roots)
		for _, e := range a.elems {
			n.rest = m.joinTmpl(st, n.rest, m.tmplOf(st, e.v, roots), roots)
		}
		return n
	}
	s := p[0]
	switch c := v.(type) {
	case VStruct:
		if s.field >= 0 && s.field < len(c.f) {
			o := VStruct{append([]Val(nil), c.f...)}
			o.f[s.field] = m.storeAll(st, c.f[s.field], p[1:], t)
			return o
		}
	case *VArr:
		if s.field < 0 && !s.any && s.idx.isConst() {
			if e, ok := elemsGet(c.elems, s.idx.c); ok {
				return &VArr{et: c.et, rest: c.rest, elems: elemsSet(c.elems, s.idx.c, m.storeAll(st, e, p[1:], t))}
			}
		}
		// everything below becomes unknown
		return &VArr{et: c.et, rest: &VTmpl{ext: true, t: c.et, name: "havoc"}}
	case *VTmpl:
		if c.ext {
			return c
		}
		return &VTmpl{ext: true, t: c.t, name: "havoc"}
	}
	return v
}

func (m *Mach) copyCall(x *fexec, st *State, in ssa.CallInstruction, args []ssa.Value) []callOut {
	d, ok := m.eval(st, args[0]).(VSlice)
	if !ok {
		return []callOut{{st, []Val{VInt{freshLen()}}}}
	}
	et := args[0].Type().Underlying().(*types.Slice).Elem()
	var sl Lin
	var t *VTmpl
	switch s := m.eval(st, args[1]).(type) {
	case VSlice:
		sl = s.ln
		t = m.elemsTmpl(st, s, st.roots())
		if t == nil {
			return []callOut{{st, []Val{VInt{K(0)}}}}
		}
	case VStr:
		sl = s.ln
	default:
		sl = freshLen()
	}
	m.havoc(st, d, et, t)
	var n Lin
	switch {
	case st.num.prove(lsub(d.ln, sl)):
		n = sl
	case st.num.prove(lsub(sl, d.ln)):
		n = d.ln
	default:
		n = freshLen()
		st.num.GE(lsub(d.ln, n))
		st.num.GE(lsub(sl, n))
	}
	if m.checkFill {
		short := !st.num.prove(lsub(d.ln, sl))
		dd := ""
		if short {
			dd = fmt.Sprintf("the copy may be cut short: the destination may be smaller than the source (%s)", m.explain(st, lsub(d.ln, sl)))
		}
		m.record(in, "short copy", !short, dd, x.ctx)
	}
	return []callOut{{st, []Val{VInt{n}}}}
}

// ---- intrinsics

func (m *Mach) intrinsic(x *fexec, st *State, in ssa.CallInstruction, f *ssa.Function, args []Val) ([]callOut, bool) {
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	}
	switch {
	case pkg == driverPkg:
		name := f.Name()
		if o := f.Origin(); o != nil {
			name = o.Name()
		}
		switch name {
		case "any_":
			v := m.anyVal(x, st, in, f.TypeArgs()[0], "", 4)
			return []callOut{{st, []Val{v}}}, true
		case "assert":
			c, ok := args[0].(VBool)
			if !ok {
				c = unkBool()
			}
			okv := evalBool(st.num, c) == 1
			msg := "assertion"
			if s, isS := args[1].(VStr); isS && s.cst != nil {
				msg = *s.cst
			}
			d := ""
			if !okv {
				d = msg
				if m.trace {
					d += " | " + m.explain(st, c.l)
				}
			}
			m.record(in, "assert", okv, d, x.ctx)
			m.assume(st, c)
			return []callOut{{st, nil}}, true
		case "inv":
			c, ok := args[0].(VBool)
			if !ok {
				c = unkBool()
			}
			if m.invAssert {
				okv := evalBool(st.num, c) == 1
				d := ""
				if !okv {
					d = "invariant not established: "
					if s, isS := args[1].(VStr); isS && s.cst != nil {
						d += *s.cst
					}
					if m.trace {
						d += " | " + m.explain(st, c.l)
					}
				}
				m.record(m.invAt, "invariant", okv, d, m.invCtx)
			}
			m.assume(st, c)
			return []callOut{{st, nil}}, true
		case "assume":
			if c, ok := args[0].(VBool); ok {
				m.assume(st, c)
			}
			return []callOut{{st, nil}}, true
		case "some_":
			t := f.Signature.Results().At(0).Type()
			v := m.anyVal(x, st, in, t, "", 4)
			switch w := v.(type) {
			case VPtr:
				w.nn = K(1)
				v = w
			case VIface:
				w.nn = K(1)
				v = w
			case VFunc:
				w.nn = K(1)
				v = w
			}
			return []callOut{{st, []Val{v}}}, true
		case "apart":
			if i, ok := args[0].(VInt); ok && i.l.isConst() {
				st.tags += fmt.Sprintf("{a%d}", i.l.c)
			}
			return []callOut{{st, nil}}, true
		case "consumed":
			m.consume(st)
			return []callOut{{st, nil}}, true
		case "dump":
			if m.trace {
				i, _ := args[0].(VIface)
				fmt.Println("DUMP", showVal(i, st.num))
			}
			return []callOut{{st, nil}}, true
		}
	case pkg == modPath+"/pkg/bits":
		if !m.noBits {
			return m.bitsCall(x, st, in, f, args)
		}
	}
	return nil, false
}

// anyVal creates an arbitrary value supplied by the caller of the library.
func (m *Mach) anyVal(x *fexec, st *State, in ssa.CallInstruction, t types.Type, path string, depth int) Val {
	if depth == 0 {
		return m.unknownVal(st, t, "deep:"+t.String(), true, 0)
	}
	name := fmt.Sprintf("in@%d.%d%s", x.ctx, x.fi.instrNum[in], path)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c := m.anyVal(x, st, in, u.Elem(), path+"*", depth-1)
		o := m.alloc(st, x, in, path+"*", u.Elem(), c)
		return VPtr{nn: freshBit(), tg: []Tgt{{o: o}}}
	case *types.Slice:
		nn, ln, cp := freshBit(), freshLen(), freshLen()
		st.num.GE(lsub(cp, ln))
		if y, ok := nn.scale(maxLen); ok {
			st.num.GE(lsub(y, cp))
		}
		arr := &VArr{et: u.Elem()}
		if in2, ok := u.Elem().Underlying().(*types.Slice); ok && m.checkMem {
			// elements no longer than the input as a whole
			total := m.inTotal(st)
			st.num.GE(lsub(total, ln))
			eo := m.extObj(st, name+"[][]", types.NewArray(in2.Elem(), -1), true, 0)
			q, ql, qc := freshSym("", Iv{0, 1}), freshSym("", Iv{0, maxLen}), freshSym("", Iv{0, maxLen})
			v := VSlice{nn: V(q), arr: []Tgt{{o: eo}}, off: K(0), ln: V(ql), cp: V(qc)}
			nnm, _ := V(q).scale(maxLen)
			arr.rest = &VTmpl{v: v, loc: []Sym{q, ql, qc}, iv: map[Sym]Iv{q: {0, 1}, ql: {0, maxLen}, qc: {0, maxLen}},
				cons: []Con{{lsub(V(qc), V(ql)), false}, {lsub(nnm, V(qc)), false}, {lsub(total, V(ql)), false}}}
		} else {
			if m.checkMem {
				st.num.GE(lsub(m.inTotal(st), ln))
			}
			arr.rest = &VTmpl{ext: true, t: u.Elem(), name: name + "[*]"}
		}
		o := m.alloc(st, x, in, path+"[]", types.NewArray(u.Elem(), -1), arr)
		return VSlice{nn: nn, arr: []Tgt{{o: o}}, off: K(0), ln: ln, cp: cp}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = m.anyVal(x, st, in, u.Field(i).Type(), path+"."+u.Field(i).Name(), depth)
		}
		return VStruct{f}
	}
	return m.unknownVal(st, t, name, true, 0)
}

func (m *Mach) inTotal(st *State) Lin {
	if l, ok := st.ghost["input"]; ok {
		return l
	}
	if st.ghost == nil {
		st.ghost = map[string]Lin{}
	}
	l := freshLen()
	st.ghost["input"] = l
	return l
}

// ---- bit readers

func (m *Mach) bitsCall(x *fexec, st *State, in ssa.CallInstruction, f *ssa.Function, args []Val) ([]callOut, bool) {
	name := f.Name()
	switch name {
	case "ReadBits", "ReadBitsUnsafe", "ReadFlag", "ReadFlagUnsafe", "ReadGolombUnsigned", "ReadGolombSigned", "WriteBitsUnsafe", "WriteFlagUnsafe", "HasSpace":
	default:
		return nil, false
	}
	buf, ok1 := args[0].(VSlice)
	if !ok1 {
		return nil, false
	}
	B, _ := buf.ln.scale(8)
	errV := VIface{nn: K(1), open: true}
	nilE := VIface{nn: K(0)}
	if name == "HasSpace" {
		p, ok1 := args[1].(VInt)
		n, ok2 := args[2].(VInt)
		if !ok1 || !ok2 {
			return nil, false
		}
		// pos + n <= 8*len
		d := lsub(lsub(B, p.l), n.l)
		switch evalBool(st.num, VBool{cGE, d}) {
		case 1:
			return []callOut{{st, []Val{nilE}}}, true
		case 0:
			return []callOut{{st, []Val{errV}}}, true
		}
		t := st.clone()
		t.num.GE(d)
		st.num.GE(laddc(mustNeg(d), -1))
		return []callOut{{t, []Val{nilE}}, {st, []Val{errV}}}, true
	}
	pos, ok2 := args[1].(VPtr)
	if !ok2 {
		return nil, false
	}
	m.needPtr(x, st, in, pos, "")
	if st.bot() {
		return nil, true
	}
	pv, ok := m.load(st, pos.tg, types.Typ[types.Int]).(VInt)
	if !ok {
		return nil, false
	}
	P := pv.l
	setPos := func(s *State, l Lin) { m.store(s, pos.tg, VInt{l}) }
	m.need(x, st, in, "index", P, func() string { return "the bit position may be negative" })
	if st.bot() {
		return nil, true
	}
	zero := func(t types.Type) Val { return zeroVal(t) }
	switch name {
	case "ReadBits", "ReadBitsUnsafe", "WriteBitsUnsafe":
		ni := 2
		if name == "WriteBitsUnsafe" {
			ni = 3
		}
		nv, ok := args[ni].(VInt)
		if !ok {
			return nil, false
		}
		n := nv.l
		m.need(x, st, in, "shift", n, func() string { return "the number of bits may be negative" })
		if st.bot() {
			return nil, true
		}
		np := ladd(P, n)
		d := lsub(B, np)
		val := func(s *State) Val {
			r := s.num.rng(n)
			if n.isConst() && n.c <= 0 {
				return VInt{K(0)}
			}
			if r.hi <= 62 && r.hi >= 0 {
				return VInt{fresh(Iv{0, int64(1)<<uint(r.hi) - 1})}
			}
			return VInt{fresh(Iv{0, posInf})}
		}
		if name == "ReadBits" {
			var outs []callOut
			b := evalBool(st.num, VBool{cGE, d})
			if b != 1 {
				e := st
				if b != 0 {
					e = st.clone()
				}
				e.num.GE(laddc(mustNeg(d), -1))
				if !e.bot() {
					outs = append(outs, callOut{e, []Val{VInt{K(0)}, errV}})
				}
			}
			if b != 0 {
				st.num.GE(d)
				if !st.bot() {
					v := val(st)
					setPos(st, np)
					outs = append(outs, callOut{st, []Val{v, nilE}})
				}
			}
			return outs, true
		}
		m.need(x, st, in, "index", d, func() string {
			return fmt.Sprintf("bits are accessed without available space: the buffer may hold fewer bits than needed (%s)", showNeed(st, d))
		})
		if st.bot() {
			return nil, true
		}
		// an access at the very end needs a byte even when no bit is wanted (write side)
		if name == "WriteBitsUnsafe" {
			if m.checkFill {
				m.havoc(st, buf, types.Typ[types.Uint8], nil)
			} else {
				m.havoc(st, buf, types.Typ[types.Uint8], nil)
			}
			m.need(x, st, in, "index", laddc(lsub(B, P), -1), func() string { return "bits are written at the end of the buffer" })
			setPos(st, np)
			return []callOut{{st, nil}}, true
		}
		v := val(st)
		setPos(st, np)
		return []callOut{{st, []Val{v}}}, true
	case "ReadFlag", "ReadFlagUnsafe", "WriteFlagUnsafe":
		np := laddc(P, 1)
		d := lsub(B, np)
		if name == "ReadFlag" {
			var outs []callOut
			b := evalBool(st.num, VBool{cGE, d})
			if b != 1 {
				e := st
				if b != 0 {
					e = st.clone()
				}
				e.num.GE(laddc(mustNeg(d), -1))
				if !e.bot() {
					outs = append(outs, callOut{e, []Val{vFalse, errV}})
				}
			}
			if b != 0 {
				st.num.GE(d)
				if !st.bot() {
					setPos(st, np)
					outs = append(outs, callOut{st, []Val{unkBool(), nilE}})
				}
			}
			return outs, true
		}
		m.need(x, st, in, "index", d, func() string {
			return fmt.Sprintf("a bit is accessed without available space (%s)", showNeed(st, d))
		})
		if st.bot() {
			return nil, true
		}
		setPos(st, np)
		if name == "WriteFlagUnsafe" {
			m.havoc(st, buf, types.Typ[types.Uint8], nil)
			return []callOut{{st, nil}}, true
		}
		return []callOut{{st, []Val{unkBool()}}}, true
	case "ReadGolombUnsigned", "ReadGolombSigned":
		m.need(x, st, in, "index", lsub(B, P), func() string { return "the bit position may be beyond the end of the buffer" })
		if st.bot() {
			return nil, true
		}
		rt := f.Signature.Results().At(0).Type()
		e := st.clone()
		q := fresh(Iv{0, posInf})
		e.num.GE(lsub(q, P))
		e.num.GE(lsub(B, q))
		setPos(e, q)
		// success: the position advances
		q2 := fresh(Iv{1, posInf})
		st.num.GE(laddc(lsub(q2, P), -1))
		st.num.GE(lsub(B, q2))
		var outs []callOut
		if !st.bot() {
			setPos(st, q2)
			iv, _ := intRange(rt)
			outs = append(outs, callOut{st, []Val{VInt{fresh(iv)}, nilE}})
		}
		return append(outs, callOut{e, []Val{zero(rt), errV}}), true
	}
	return nil, false
}

func showNeed(st *State, d Lin) string {
	r := st.num.rng(d)
	return fmt.Sprintf("may lack %s bits", showB(-r.lo))
}

// ---- external functions

func (m *Mach) errOuts(st *State, ok []Val, fail []Val) []callOut {
	e := st.clone()
	return []callOut{{st, append(ok, VIface{nn: K(0)})}, {e, append(fail, VIface{nn: K(1), open: true})}}
}

func (m *Mach) external(x *fexec, st *State, in ssa.CallInstruction, f *ssa.Function, args []Val) []callOut {
	res := f.Signature.Results()
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	ret := func(v ...Val) []callOut { return []callOut{{st, v}} }
	switch name {
	case "errors.New", "fmt.Errorf":
		return ret(VIface{nn: K(1), open: true})
	case "errors.Is":
		return ret(unkBool())
	case "errors.As":
		// the target is set only if an error of its type is found
		e := st.clone()
		m.errorsAs(x, st, in, args[1])
		return []callOut{{st, []Val{vTrue}}, {e, []Val{vFalse}}}
	case "bytes.Equal", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
		a, ok1 := args[0].(VSlice)
		b, ok2 := args[1].(VSlice)
		if ok1 && ok2 {
			t := st.clone()
			if name == "bytes.Equal" {
				t.num.EQ(lsub(a.ln, b.ln))
			} else {
				t.num.GE(lsub(a.ln, b.ln))
			}
			outs := []callOut{{st, []Val{vFalse}}}
			if !t.bot() {
				outs = append(outs, callOut{t, []Val{vTrue}})
			}
			return outs
		}
		return ret(unkBool())
	case "bytes.Index", "bytes.LastIndex", "bytes.IndexByte", "bytes.LastIndexByte":
		a, ok1 := args[0].(VSlice)
		sep := K(1)
		if b, ok := args[1].(VSlice); ok {
			sep = b.ln
		}
		if ok1 {
			t := st.clone()
			r := freshLen()
			t.num.GE(lsub(lsub(a.ln, sep), r))
			outs := []callOut{{st, []Val{VInt{K(-1)}}}}
			if !t.bot() {
				outs = append(outs, callOut{t, []Val{VInt{r}}})
			}
			return outs
		}
	case "bytes.Clone", "slices.Clone":
		if a, ok := args[0].(VSlice); ok {
			et := f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			roots := st.roots()
			o := m.alloc(st, x, in, "clone", types.NewArray(et, -1), &VArr{et: et, rest: m.elemsTmpl(st, a, roots)})
			return ret(VSlice{nn: a.nn, arr: []Tgt{{o: o}}, off: K(0), ln: a.ln, cp: a.ln})
		}
	case "io.ReadFull", "io.ReadAtLeast":
		if b, ok := args[1].(VSlice); ok {
			m.havoc(st, b, types.Typ[types.Uint8], nil)
			m.consume(st)
			e := st.clone()
			n := freshLen()
			e.num.GE(lsub(b.ln, n))
			m.unconsume(e)
			r := b.ln
			if name == "io.ReadAtLeast" {
				r = freshLen()
				st.num.GE(lsub(b.ln, r))
				if mn, ok := args[2].(VInt); ok {
					st.num.GE(lsub(r, mn.l))
				}
			}
			return []callOut{{st, []Val{VInt{r}, VIface{nn: K(0)}}}, {e, []Val{VInt{n}, VIface{nn: K(1), open: true}}}}
		}
	case "math.Ceil", "math.Floor", "math.Log2", "math.Round":
		if v, ok := args[0].(VFlt); ok {
			switch name {
			case "math.Ceil":
				return ret(VFlt{math.Ceil(v.lo), math.Ceil(v.hi)})
			case "math.Floor":
				return ret(VFlt{math.Floor(v.lo), math.Floor(v.hi)})
			case "math.Round":
				return ret(VFlt{math.Round(v.lo), math.Round(v.hi)})
			}
			if v.lo > 0 {
				return ret(VFlt{math.Log2(v.lo), math.Log2(v.hi)})
			}
		}
		return ret(VTop{})
	case "(*bytes.Buffer).Len", "(*bytes.Reader).Len", "(*bytes.Buffer).Cap":
		return ret(VInt{freshLen()})
	case "(*bytes.Buffer).Bytes":
		u := m.unknownVal(st, res.At(0).Type(), "ext:buffer", true, 0)
		return ret(u)
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64",
		"(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		if b, ok := args[1].(VSlice); ok {
			n := int64(2)
			if strings.HasSuffix(name, "32") {
				n = 4
			} else if strings.HasSuffix(name, "64") {
				n = 8
			}
			m.need(x, st, in, "index", laddc(b.ln, -n), func() string { return "a fixed-size access to a slice that may be too short" })
			if strings.Contains(name, "Put") {
				m.havoc(st, b, types.Typ[types.Uint8], nil)
			}
		}
	}
	if outs, ok := m.mp4Call(x, st, in, f, name, args); ok {
		return outs
	}
	m.extSeen(name)
	// results of constructors are not nil unless an error says so
	if res.Len() > 0 && res.At(res.Len()-1).Type().String() == "error" {
		okv := m.unknownResults(st, res, name)
		var good []Val
		for i := 0; i < res.Len()-1; i++ {
			good = append(good, okv[i])
		}
		st2 := st.clone()
		for i, v := range good {
			if _, isP := res.At(i).Type().Underlying().(*types.Pointer); isP {
				if l, ok := nnOf(v); ok {
					st.num.EQ(laddc(l, -1))
				}
			}
		}
		bad := m.unknownResults(st2, res, name)
		return []callOut{{st, append(good, VIface{nn: K(0)})}, {st2, append(bad[:len(bad)-1:len(bad)-1], VIface{nn: K(1), open: true})}}
	}
	out := m.unknownResults(st, res, name)
	for i, v := range out {
		switch res.At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			if l, ok := nnOf(v); ok {
				st.num.EQ(laddc(l, -1))
			}
		}
	}
	return []callOut{{st, out}}
}

func (m *Mach) extSeen(name string) {
	if m.exts == nil {
		m.exts = map[string]int{}
	}
	m.exts[name]++
}

func (m *Mach) extNames() []string {
	var out []string
	for k := range m.exts {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// consume counts a successful read from a supplied stream.
func (m *Mach) consume(st *State) {
	if st.ghost == nil {
		st.ghost = map[string]Lin{}
	}
	l, ok := st.ghost["reads"]
	if !ok {
		l = K(0)
	}
	st.ghost["reads"] = laddc(l, 1)
}

func (m *Mach) unconsume(st *State) {
	st.ghost["reads"] = laddc(st.ghost["reads"], -1)
}

// errorsAs stores an error in the target of errors.As. Errors carried by other errors are never nil.
func (m *Mach) errorsAs(x *fexec, st *State, in ssa.CallInstruction, v Val) {
	i, ok := v.(VIface)
	if !ok || i.open {
		return
	}
	for _, a := range i.alts {
		p, ok := a.v.(VPtr)
		if !ok {
			continue
		}
		for _, t := range p.tg {
			if len(t.p) != 0 {
				continue
			}
			r := m.anyVal(x, st, in, objTab[t.o].t, "as", 2)
			if q, ok := r.(VPtr); ok {
				q.nn = K(1)
				if len(q.tg) == 1 {
					if f, ok := st.mem[q.tg[0].o].(VStruct); ok {
						for k, e := range f.f {
							if e, ok := e.(VIface); ok {
								e.nn = K(1)
								f.f[k] = e
							}
						}
					}
				}
				r = q
			}
			st.mem[t.o] = r
		}
	}
}

// havocReach makes what a pointer held by an interface designates unknown.
func (m *Mach) havocReach(st *State, v Val) {
	switch v := v.(type) {
	case VIface:
		for _, a := range v.alts {
			m.havocReach(st, a.v)
		}
	case VPtr:
		for _, t := range v.tg {
			if len(t.p) == 0 {
				st.mem[t.o] = m.unknownVal(st, objTab[t.o].t, "as:"+objTab[t.o].name, true, 0)
			}
		}
	}
}

// extInvoke is a method of a value of unknown type.
func (m *Mach) extInvoke(x *fexec, st *State, in ssa.CallInstruction, meth *types.Func, args []Val) []callOut {
	sig := meth.Type().(*types.Signature)
	res := sig.Results()
	switch meth.Name() {
	case "Read":
		if len(args) == 1 && res.Len() == 2 {
			if b, ok := args[0].(VSlice); ok {
				m.havoc(st, b, types.Typ[types.Uint8], nil)
				n := freshLen()
				st.num.GE(lsub(b.ln, n))
				e := st.clone()
				m.consume(st)
				return []callOut{{st, []Val{VInt{n}, VIface{nn: K(0)}}}, {e, []Val{VInt{n}, VIface{nn: K(1), open: true}}}}
			}
		}
	case "Write":
		if len(args) == 1 && res.Len() == 2 {
			if b, ok := args[0].(VSlice); ok {
				n := freshLen()
				e := st.clone()
				e.num.GE(lsub(b.ln, n))
				return []callOut{{st, []Val{VInt{b.ln}, VIface{nn: K(0)}}}, {e, []Val{VInt{n}, VIface{nn: K(1), open: true}}}}
			}
		}
	case "Seek":
		if res.Len() == 2 {
			e := st.clone()
			return []callOut{{st, []Val{VInt{fresh(Iv{0, posInf})}, VIface{nn: K(0)}}}, {e, []Val{VInt{fresh(fullIv)}, VIface{nn: K(1), open: true}}}}
		}
	}
	if res.Len() > 0 && res.At(res.Len()-1).Type().String() == "error" {
		e := st.clone()
		a := m.unknownResults(st, res, meth.FullName())
		b := m.unknownResults(e, res, meth.FullName())
		a[len(a)-1] = VIface{nn: K(0)}
		b[len(b)-1] = VIface{nn: K(1), open: true}
		return []callOut{{st, a}, {e, b}}
	}
	return []callOut{{st, m.unknownResults(st, res, meth.FullName())}}
}
