package main

// Calls of the layout analysis: library stand-ins and the intrinsics of the drivers.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bpErrType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "anError", nil), types.NewStruct(nil, nil), nil)

// anErr is an error, identified by the place that makes it ("w" prefix: one that wraps another).
func (e *bp) anErr(pos token.Pos, wraps bool) SV {
	k := "error "
	if wraps {
		k = "wrapping error "
	} else if e.inInit {
		k = "global error "
	}
	return &SIface{typ: bpErrType, v: SStr{known: true, s: k + e.r.Prog.Fset.Position(pos).String()}}
}

// errIs: whether an error is a given one; -1: not known.
func errIs(a, b *SIface, deep bool) int {
	x, ok1 := a.v.(SStr)
	y, ok2 := b.v.(SStr)
	if a.typ != bpErrType || b.typ != bpErrType || !ok1 || !ok2 {
		return -1
	}
	if deep && strings.HasPrefix(x.s, "wrapping") {
		return -1
	}
	if x.s != y.s {
		return 0
	}
	if strings.HasPrefix(x.s, "global") {
		return 1
	}
	return -1
}

func (e *bp) where(st *sst) string {
	var p []string
	n := len(e.stack)
	for i := max(0, n-3); i < n; i++ {
		p = append(p, FName(e.stack[i]))
	}
	return strings.Join(p, " > ")
}

func (e *bp) pathOf(st *sst) string {
	var p []string
	for _, c := range st.conds {
		s := c.t.String()
		if len(s) > 90 {
			continue
		}
		if !c.truth {
			s = "not " + s
		}
		p = append(p, s)
	}
	if len(p) > 8 {
		p = append(p[:8], "...")
	}
	return strings.Join(p, "; ")
}

func (e *bp) violate(st *sst, pos token.Pos, f string, a ...any) {
	e.viols = append(e.viols, bpViol{fmt.Sprintf(f, a...), pos, e.pathOf(st)})
}

// doCall evaluates a call; done: the value was set in the frame and the state is the same.
func (e *bp) doCall(fr *bfr, x *ssa.Call, st *sst) (outs []bout, done bool) {
	set := func(v SV) ([]bout, bool) {
		fr.vals[x] = v
		return nil, true
	}
	c := &x.Call
	var args []SV
	for _, a := range c.Args {
		args = append(args, e.get(fr, st, a))
	}
	if c.IsInvoke() {
		rv := e.get(fr, st, c.Value)
		i, ok := rv.(*SIface)
		if !ok || i.typ == nil {
			return e.unknownCall(fr, x, st, c.Method.Name(), append([]SV{rv}, args...))
		}
		if i.typ == bpErrType {
			return set(SStr{name: "error"})
		}
		m := e.r.Prog.LookupMethod(i.typ, c.Method.Pkg(), c.Method.Name())
		if m == nil || m.Blocks == nil {
			return e.extern(fr, x, st, m, append([]SV{i.v}, args...))
		}
		return e.callOuts(m, append([]SV{i.v}, args...), nil, st), false
	}
	fv := e.get(fr, st, c.Value)
	f, ok := fv.(*SFn)
	if !ok || f.fn == nil {
		return e.unknownCall(fr, x, st, "function value", args)
	}
	switch fn := f.fn.(type) {
	case *ssa.Builtin:
		return e.builtin(fr, x, st, fn.Name(), args)
	case *ssa.Function:
		if r := e.r.cuts[FName(fn)]; r != nil && !e.inInit && (e.marks || r.Name() != "Cut_marks_index") {
			return e.callOuts(r, args, nil, st), false
		}
		if fn.Blocks == nil || !e.follow(fn) {
			return e.extern(fr, x, st, fn, args)
		}
		if e.inInit && fn.Name() == "init" && fn.Synthetic != "" {
			if !IsRepoPath(fn.Pkg.Pkg.Path()) {
				return nil, true
			}
		}
		return e.callOuts(fn, args, f.bind, st), false
	}
	return e.unknownCall(fr, x, st, "function value", args)
}

func (e *bp) follow(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			p := f.Pkg.Pkg.Path()
			if p == driverPkg {
				return !bpIntrinsics[strings.SplitN(f.Name(), "[", 2)[0]]
			}
			return IsRepoPath(p) || followed(fn, p)
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			if o.Pkg.Pkg.Path() == driverPkg {
				return !bpIntrinsics[o.Name()]
			}
			return IsRepoPath(o.Pkg.Pkg.Path()) || followed(fn, o.Pkg.Pkg.Path())
		}
	}
	return fn.Synthetic != "" // wrappers
}

var bpIntrinsics = map[string]bool{
	"any_": true, "some_": true, "assert": true, "assume": true, "same": true, "full": true, "dump": true, "record": true,
	"recorded": true, "nrecorded": true, "sized": true,
}

func (e *bp) callOuts(fn *ssa.Function, args, bind []SV, st *sst) []bout {
	return e.call(fn, args, bind, st)
}

func (e *bp) unknownCall(fr *bfr, x *ssa.Call, st *sst, name string, args []SV) ([]bout, bool) {
	e.exts[name] = true
	res := x.Call.Signature().Results()
	switch res.Len() {
	case 0:
		return nil, true
	case 1:
		fr.vals[x] = e.resOf(name, res.At(0).Type())
	default:
		var t STuple
		for i := 0; i < res.Len(); i++ {
			t = append(t, e.resOf(name, res.At(i).Type()))
		}
		fr.vals[x] = t
	}
	return nil, true
}

func (e *bp) resOf(name string, t types.Type) SV {
	if _, ok := t.Underlying().(*types.Slice); ok {
		e.nfresh++
		s := e.sym(fmt.Sprintf("?%s%d", name, e.nfresh), t).(*SSlice)
		s.nilT = nil
		return s
	}
	return e.anyOf("result of "+name, t)
}

func (e *bp) builtin(fr *bfr, x *ssa.Call, st *sst, name string, args []SV) ([]bout, bool) {
	set := func(v SV) ([]bout, bool) {
		fr.vals[x] = v
		return nil, true
	}
	switch name {
	case "ssa:wrapnilchk":
		return set(args[0])
	case "len", "cap":
		switch s := args[0].(type) {
		case *SSlice:
			if name == "cap" {
				return set(st.res(s.cp))
			}
			return set(st.res(s.ln))
		case SStr:
			if s.known {
				return set(tk(int64(len(s.s))))
			}
			return set(tatom("len("+s.name+")", 0, 1<<40))
		case *SArr:
			if a, ok := x.Call.Args[0].Type().Underlying().(*types.Array); ok {
				return set(tk(a.Len()))
			}
		case *SPtr:
			if p, ok := x.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return set(tk(a.Len()))
				}
			}
		case *SMap:
			return set(tk(int64(len(st.mapOf(s).keys))))
		}
		return set(e.fresh("len", 0, 1<<40))
	case "min", "max":
		a, ok := args[0].(*T)
		b, ok2 := args[1].(*T)
		if ok && ok2 && len(args) == 2 {
			c := st.cmp("lt0", tsub(a, b))
			return e.forkRes(st, c, func(s *sst, truth bool) SV {
				if truth == (name == "min") {
					return a
				}
				return b
			}), false
		}
		return set(e.anyOf(name, x.Type()))
	case "copy":
		d, ok := args[0].(*SSlice)
		if !ok {
			return set(e.fresh("copied", 0, 1<<40))
		}
		var s *SSlice
		switch y := args[1].(type) {
		case *SSlice:
			s = y
		case SStr:
			if y.known {
				s = e.byteSlice(st, d.elem, []byte(y.s))
			}
		}
		if s == nil {
			return set(e.fresh("copied", 0, 1<<40))
		}
		n := st.res(s.ln)
		room := tsub(st.res(d.ln), n)
		short := st.decide(st.cmp("lt0", room))
		if short == 1 {
			n = st.res(d.ln)
		}
		// when it cannot be told whether there is room, the copy is taken to be complete; the room is then checked by
		// the size of the whole buffer
		if d.arr == nil || s.arr == nil {
			return set(tk(0))
		}
		if d.elem != nil && !isByte(d.elem) {
			a, ok := e.load(st, s.arr).(*SArr)
			if n.isC() && n.c <= 64 && ok {
				var vs []SV
				for i := int64(0); i < n.c; i++ {
					vs = append(vs, e.arrGet(st, a, tadd(s.off, tk(i))))
				}
				for i, v := range vs {
					e.store(st, e.ptrAdd(d.arr, pstep{f: -1, x: tadd(d.off, tk(int64(i)))}), v)
				}
				return set(n)
			}
			e.fail("copy of elements at %s", e.r.Pos(x.Pos()))
		}
		if short == -1 && e.exact {
			return e.forkRes(st, st.cmp("lt0", room), func(s2 *sst, truth bool) SV {
				m := s2.res(s.ln)
				if truth {
					m = s2.res(d.ln)
				}
				e.copyBytes(s2, d.arr, d.off, s.arr, s.off, m)
				return m
			}), false
		}
		e.copyBytes(st, d.arr, d.off, s.arr, s.off, n)
		if short == 1 {
			if a, ok := e.load(st, d.arr).(*SArr); ok && a.b != nil && a.b.bad == "" {
				a = a.clone()
				a.b.bad = fmt.Sprintf("the copy at %s has no room for all of its %s bytes", e.r.Pos(x.Pos()), st.res(s.ln))
				e.store(st, d.arr, a)
			}
		}
		return set(n)
	case "append":
		return set(e.appendOp(st, x, args))
	case "delete":
		if m, ok := args[0].(*SMap); ok && m.obj != 0 {
			cur := st.mapOf(m)
			n := &SMap{keys: []SV{}}
			for i := range cur.keys {
				switch eq, _ := st.sameKey(cur.keys[i], args[1]); eq {
				case 0:
					n.keys, n.vals = append(n.keys, cur.keys[i]), append(n.vals, cur.vals[i])
				case -1:
					e.fail("deletion of an unknown key at %s", e.r.Pos(x.Pos()))
				}
			}
			st.objs[m.obj] = n
			return nil, true
		}
		e.fail("deletion from an unknown map at %s", e.r.Pos(x.Pos()))
	case "print", "println", "clear", "close":
		return nil, true
	}
	e.fail("builtin %s", name)
	return nil, true
}

// appendOp makes a new slice: arrays are not shared by appending.
func (e *bp) appendOp(st *sst, x *ssa.Call, args []SV) SV {
	d, ok := args[0].(*SSlice)
	if !ok {
		return SAny{"append"}
	}
	var s *SSlice
	switch y := args[1].(type) {
	case *SSlice:
		s = y
	case SStr:
		if y.known {
			s = e.byteSlice(st, d.elem, []byte(y.s))
		}
	}
	if s == nil {
		return SAny{"append"}
	}
	el := x.Type().Underlying().(*types.Slice).Elem()
	dl, sl := st.res(d.ln), st.res(s.ln)
	if sl.isC() && sl.c == 0 {
		return d
	}
	at := types.NewArray(el, 0)
	var dst *SPtr
	off := tk(0)
	if d.arr != nil && d.arr.name == "" && len(d.arr.path) == 0 && isByte(el) && e.ownAppend(st, d) {
		// what lies beyond the end of this array is not used by anyone else: appended in place
		dst, off = d.arr, d.off
	} else {
		id := e.alloc(st, &SArr{elem: el, el: map[string]arrEl{}, b: newBuf(el)})
		dst = &SPtr{obj: id, typ: at}
		if d.arr != nil {
			if isByte(el) {
				e.copyBytes(st, dst, tk(0), d.arr, d.off, dl)
			} else {
				e.copyEls(st, dst, tk(0), d, dl)
			}
		}
	}
	if s.arr != nil {
		if isByte(el) {
			e.copyBytes(st, dst, st.res(tadd(off, dl)), s.arr, s.off, sl)
		} else {
			e.copyEls(st, dst, dl, s, sl)
		}
	}
	n := st.res(tadd(dl, sl))
	return &SSlice{arr: dst, off: off, ln: n, cp: n, elem: el}
}

// ownAppend tells whether nothing is stored beyond the end of the slice.
func (e *bp) ownAppend(st *sst, d *SSlice) bool {
	a, ok := e.load(st, d.arr).(*SArr)
	if !ok || a.b == nil {
		return false
	}
	end := st.res(tmulc(tadd(d.off, d.ln), 8))
	base, off := end.splitC()
	for g, m := range a.b.groups {
		rg := st.res(g)
		for k := range m {
			d := tsub(tadd(rg, tk(int64(k))), end)
			if rg == base && int64(k) < off {
				continue
			}
			if st.decide(st.cmp("lt0", d)) != 1 {
				return false
			}
		}
	}
	for _, r := range a.b.regs {
		if st.decide(st.cmp("lt0", tsub(end, st.res(tadd(r.pos, r.n))))) != 0 {
			return false
		}
	}
	return true
}

func (e *bp) copyEls(st *sst, dst *SPtr, off *T, s *SSlice, n *T) {
	a, ok := e.load(st, s.arr).(*SArr)
	if !ok {
		e.fail("append of %T", e.load(st, s.arr))
	}
	if n.isC() && n.c <= 300 {
		for i := int64(0); i < n.c; i++ {
			e.store(st, e.ptrAdd(dst, pstep{f: -1, x: tadd(off, tk(i))}), e.arrGet(st, a, tadd(s.off, tk(i))))
		}
		return
	}
	d := e.load(st, dst).(*SArr).clone()
	d.junk = true
	e.store(st, dst, d)
}

func (e *bp) forkRes(st *sst, c *T, f func(*sst, bool) SV) []bout {
	return e.fork(st, c, func(s *sst, truth bool) []bout { return []bout{{s, []SV{f(s, truth)}}} })
}

// find is the place of some bytes in a slice of known length, nil when it depends on unknown content.
func (e *bp) find(st *sst, in, what SV) *T {
	s, ok := in.(*SSlice)
	if !ok {
		return nil
	}
	var sep []*T
	switch w := what.(type) {
	case *T:
		sep = []*T{w}
	case *SSlice:
		n := st.res(w.ln)
		a, ok := e.load(st, w.arr).(*SArr)
		if !n.isC() || n.c > 16 || !ok || a.b == nil {
			return nil
		}
		for i := int64(0); i < n.c; i++ {
			sep = append(sep, st.normBits(e.readBits(st, a, tmulc(tadd(w.off, tk(i)), 8), 8)))
		}
	}
	n := st.res(s.ln)
	if !n.isC() || n.c > 4096 || len(sep) == 0 {
		return nil
	}
	if n.c < int64(len(sep)) {
		return tk(-1)
	}
	a, ok := e.load(st, s.arr).(*SArr)
	if !ok || a.b == nil {
		return nil
	}
	cache := map[int64]*T{}
	at := func(i int64) *T {
		if v := cache[i]; v != nil {
			return v
		}
		cache[i] = st.normBits(e.readBits(st, a, tmulc(tadd(s.off, tk(i)), 8), 8))
		return cache[i]
	}
	for i := int64(0); i+int64(len(sep)) <= n.c; i++ {
		all := 1
		for k, w := range sep {
			switch st.decide(st.cmp("eq0", tsub(at(i+int64(k)), w))) {
			case 0:
				all = 0
			case -1:
				if all == 1 {
					all = -1
				}
			}
			if all == 0 {
				break
			}
		}
		switch all {
		case 1:
			return tk(i)
		case -1:
			return nil
		}
	}
	return tk(-1)
}

// extern is a call of a library function or of an intrinsic.
func (e *bp) extern(fr *bfr, x *ssa.Call, st *sst, fn *ssa.Function, args []SV) ([]bout, bool) {
	set := func(v SV) ([]bout, bool) {
		fr.vals[x] = v
		return nil, true
	}
	name := ""
	if fn != nil {
		name = fn.String()
		if o := fn.Origin(); o != nil {
			name = o.String()
		}
	}
	short := strings.TrimPrefix(name, driverPkg+".")
	switch short {
	case "any_", "some_":
		t := fn.TypeArgs()[0]
		lbl := ""
		if s, ok := args[0].(SStr); ok {
			lbl = s.s
		}
		v := e.sym(lbl, t)
		if short == "some_" {
			switch p := v.(type) {
			case *SPtr:
				p.nilT = nil
			case *SSlice:
				p.nilT = nil
			}
		}
		return set(v)
	case "assert":
		c, _ := args[0].(*T)
		msg := args[1].(SStr).s
		if e.track {
			e.asserts[msg]++
		}
		if c == nil || st.decide(c) != 1 {
			w := "undetermined"
			if c != nil {
				w = st.res(c).String()
			}
			if len(w) > 300 {
				w = w[:300] + "..."
			}
			e.violate(st, x.Pos(), "%s: %s", msg, w)
		}
		return nil, true
	case "assume":
		c, ok := args[0].(*T)
		if !ok {
			return nil, true
		}
		st.split = true
		ok = st.decide(c) != 0 && st.assume(c, true)
		st.split = false
		if !ok {
			return []bout{}, false
		}
		return nil, true
	case "same":
		msg := args[2].(SStr).s
		if e.track {
			e.asserts[msg]++
		}
		var a, b SV = args[0], args[1]
		if i, ok := a.(*SIface); ok {
			a = i.v
		}
		if i, ok := b.(*SIface); ok {
			b = i.v
		}
		if ok, w := e.same(st, a, b); !ok {
			if len(w) > 400 {
				w = w[:400] + "..."
			}
			e.violate(st, x.Pos(), "%s: %s", msg, w)
		}
		return nil, true
	case "full":
		msg := args[1].(SStr).s
		if e.track {
			e.asserts[msg]++
		}
		if s, ok := args[0].(*SSlice); ok {
			if w := e.fullBuf(st, s); w != "" {
				if len(w) > 5000 {
					w = w[:500] + "..."
				}
				e.violate(st, x.Pos(), "%s: %s", msg, w)
			}
		} else {
			e.violate(st, x.Pos(), "%s: no buffer", msg)
		}
		return nil, true
	case "dump":
		fmt.Println("dump:", e.show(st, args[0]), "|", e.pathOf(st))
		return nil, true
	case "record":
		st.boxes = append(st.boxes, args[0])
		return nil, true
	case "nrecorded":
		return set(tk(int64(len(st.boxes))))
	case "recorded":
		i, ok := args[0].(*T)
		if ok && i.isC() && int(i.c) < len(st.boxes) {
			return set(st.boxes[i.c])
		}
		e.fail("recorded value out of range")
	case "fmt.Errorf", "errors.New":
		wraps := false
		if name == "fmt.Errorf" {
			f, ok := args[0].(SStr)
			wraps = !ok || !f.known || strings.Contains(f.s, "%w")
		}
		return set(e.anErr(x.Pos(), wraps))
	case "errors.Is":
		a, ok := args[0].(*SIface)
		b, ok2 := args[1].(*SIface)
		if ok && ok2 {
			if a.typ == nil || b.typ == nil {
				return set(e.eq(st, a, b))
			}
			if r := errIs(a, b, true); r >= 0 {
				return set(tk(int64(r)))
			}
		}
		return set(e.fresh("errors.Is", 0, 1))
	case "fmt.Sprintf", "fmt.Sprint":
		return set(SStr{name: "formatted"})
	case "bytes.Equal":
		a, ok := args[0].(*SSlice)
		b, ok2 := args[1].(*SSlice)
		if ok && ok2 {
			if same, _ := e.same(st, a, b); same {
				return set(tk(1))
			}
			if st.decide(st.cmp("eq0", tsub(a.ln, b.ln))) == 0 {
				return set(tk(0))
			}
		}
		return set(e.fresh("equal", 0, 1))
	case "bytes.Index", "bytes.Contains", "bytes.IndexByte":
		v := e.find(st, args[0], args[1])
		if name != "bytes.Contains" {
			if v == nil {
				v = e.fresh("index", -1, 1<<40)
			}
			return set(v)
		}
		if v == nil {
			return set(e.fresh("contained", 0, 1))
		}
		if v.c >= 0 {
			return set(tk(1))
		}
		return set(tk(0))
	case "(*sync.Once).Do", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return nil, true
	case "math/bits.Len", "math/bits.Len64", "math/bits.Len32", "math/bits.Len8", "math/bits.Len16":
		a, ok := args[0].(*T)
		if ok {
			a = st.res(a)
			lo, hi := st.rg(a)
			if lo >= 0 && bitlen(lo) == bitlen(hi) {
				return set(tk(int64(bitlen(lo))))
			}
			// one path for each length
			var outs []bout
			for n := bitlen(max(lo, 0)); n <= bl64(hi); n++ {
				s := st.clone()
				l, h := int64(0), tInf
				if n > 0 {
					l = 1 << (n - 1)
				}
				if n < 61 {
					h = 1<<n - 1
				}
				c1 := s.cmp("lt0", tsub(a, tk(l)))
				c2 := s.cmp("lt0", tsub(tk(h), a))
				if s.decide(c1) == 1 || s.decide(c2) == 1 || !s.assume(c1, false) || !s.assume(c2, false) {
					continue
				}
				outs = append(outs, bout{s, []SV{tk(int64(n))}})
			}
			return outs, false
		}
	case "encoding/binary.bigEndian":
	}
	if strings.HasPrefix(name, "(encoding/binary.bigEndian)") || strings.HasPrefix(name, "(encoding/binary.littleEndian)") {
		return e.binaryCall(fr, x, st, fn, args)
	}
	return e.unknownCall(fr, x, st, name, args)
}

func (e *bp) binaryCall(fr *bfr, x *ssa.Call, st *sst, fn *ssa.Function, args []SV) ([]bout, bool) {
	big := strings.Contains(fn.String(), "bigEndian")
	n := 0
	switch {
	case strings.HasSuffix(fn.Name(), "Uint16"):
		n = 2
	case strings.HasSuffix(fn.Name(), "Uint32"):
		n = 4
	case strings.HasSuffix(fn.Name(), "Uint64"):
		n = 8
	}
	s, ok := args[1].(*SSlice)
	if n == 0 || !ok || s.arr == nil || strings.HasPrefix(fn.Name(), "Append") {
		return e.unknownCall(fr, x, st, fn.String(), args)
	}
	if strings.HasPrefix(fn.Name(), "Put") {
		v, ok := args[2].(*T)
		if !ok {
			e.fail("value of %s", fn)
		}
		a := e.load(st, s.arr).(*SArr).clone()
		for i := 0; i < n; i++ {
			k := n - 1 - i
			if !big {
				k = i
			}
			bs := st.bitsOf(st.res(v), 64)[8*k : 8*k+8]
			e.writeBits(st, a, tmulc(tadd(s.off, tk(int64(i))), 8), bs)
		}
		e.store(st, s.arr, a)
		return nil, true
	}
	a := e.load(st, s.arr).(*SArr)
	out := make([]Bit, 8*n)
	for i := 0; i < n; i++ {
		k := n - 1 - i
		if !big {
			k = i
		}
		copy(out[8*k:], e.readBits(st, a, tmulc(tadd(s.off, tk(int64(i))), 8), 8))
	}
	fr.vals[x] = st.normBits(out)
	return nil, true
}

// fullBuf tells what is wrong with the filling of a buffer: something written outside, or its end neither written nor
// read back.
func (e *bp) fullBuf(st *sst, s *SSlice) string {
	if s.arr == nil {
		if n := st.res(s.ln); n.isC() && n.c == 0 {
			return ""
		}
		return "nil buffer"
	}
	a, ok := e.load(st, s.arr).(*SArr)
	if !ok || a.b == nil {
		return "no content known"
	}
	if a.b.bad != "" {
		return a.b.bad
	}
	spans := e.spans(st, a, nil)
	cur, w := e.chain(st, st.res(tmulc(s.off, 8)), spans)
	if w != "" {
		return w
	}
	for _, sp := range spans {
		if sp.gap != "" {
			return sp.gap
		}
	}
	end := st.res(tmulc(tadd(s.off, s.ln), 8))
	// what the decoder reads counts for the end only
	if st.decide(st.cmp("lt0", tsub(end, cur))) != 0 {
		return fmt.Sprintf("%s bits are written to a buffer of %s", cur, end)
	}
	if st.decide(st.cmp("lt0", tsub(tsub(end, cur), tk(8)))) == 1 {
		return ""
	}
	for _, r := range a.b.reads {
		re := st.res(tadd(r.pos, r.n))
		d := tsub(end, re)
		if st.decide(st.cmp("lt0", d)) == 0 && st.decide(st.cmp("lt0", tsub(d, tk(8)))) == 1 {
			return ""
		}
	}
	return fmt.Sprintf("buffer of %s bits, %s written", end, cur)
}

// spans are the runs of bits written.
func (e *bp) spans(st *sst, a *SArr, old *SArr) []bregion {
	var out []bregion
	merged := map[*T]map[int]Bit{}
	for g, m := range a.b.groups {
		rg := st.res(g)
		base, off := rg.splitC()
		if merged[base] == nil {
			merged[base] = map[int]Bit{}
		}
		for k, b := range m {
			if old != nil {
				if ob, ok := old.b.groups[g][k]; ok && ob == b {
					continue
				}
			}
			merged[base][k+int(off)] = b
		}
	}
	for base, m := range merged {
		for k := range m {
			if _, ok := m[k-1]; ok {
				continue
			}
			n := 1
			for {
				if _, ok := m[k+n]; !ok {
					break
				}
				n++
			}
			out = append(out, bregion{pos: tadd(base, tk(int64(k))), n: tk(int64(n))})
		}
	}
	no := 0
	if old != nil {
		no = len(old.b.regs)
	}
	for _, r := range a.b.regs[min(no, len(a.b.regs)):] {
		out = append(out, bregion{pos: st.res(r.pos), n: st.res(r.n), gap: r.gap})
	}
	return out
}

// chain puts spans one after the other from a position on; gaps are allowed where their size is known not to be negative.
func (e *bp) chain(st *sst, cur *T, spans []bregion) (*T, string) {
	left := append([]bregion{}, spans...)
	for len(left) > 0 {
		best := -1
		for i, sp := range left {
			if sp.pos == cur {
				best = i
				break
			}
		}
		if best < 0 {
			for i, sp := range left {
				if st.decide(st.cmp("lt0", tsub(sp.pos, cur))) != 0 {
					continue
				}
				if best < 0 || st.decide(st.cmp("lt0", tsub(sp.pos, left[best].pos))) == 1 {
					best = i
				}
			}
		}
		if best < 0 {
			// nothing but overlapping or empty spans
			return cur, fmt.Sprintf("what is written at bit %s does not follow what ends at bit %s", left[0].pos, cur)
		}
		cur = st.res(tadd(left[best].pos, left[best].n))
		left = append(left[:best], left[best+1:]...)
	}
	return cur, ""
}
