package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkC16 }

const amp4Path = "github.com/abema/go-mp4"

// boxParents: where ISO/IEC 14496-12 (and the codec specifications) allow a box, by go-mp4 type name.
// Types that are not listed are not constrained.
var boxParents = map[string][]string{
	"Ftyp": {""}, "Moov": {""}, "Moof": {""}, "Mdat": {""},
	"Mvhd": {"Moov"}, "Trak": {"Moov"}, "Mvex": {"Moov"},
	"Trex": {"Mvex"}, "Mehd": {"Mvex"},
	"Tkhd": {"Trak"}, "Edts": {"Trak"}, "Mdia": {"Trak"}, "Elst": {"Edts"},
	"Mdhd": {"Mdia"}, "Hdlr": {"Mdia", "Meta"}, "Minf": {"Mdia"},
	"Vmhd": {"Minf"}, "Smhd": {"Minf"}, "Nmhd": {"Minf"}, "Dinf": {"Minf"}, "Stbl": {"Minf"},
	"Dref": {"Dinf"}, "Url": {"Dref"},
	"Stsd": {"Stbl"}, "Stts": {"Stbl"}, "Stss": {"Stbl"}, "Ctts": {"Stbl"}, "Stsc": {"Stbl"}, "Stsz": {"Stbl"}, "Stco": {"Stbl"}, "Co64": {"Stbl"},
	"VisualSampleEntry": {"Stsd"}, "AudioSampleEntry": {"Stsd"},
	"Av1C": {"VisualSampleEntry"}, "VpcC": {"VisualSampleEntry"}, "HvcC": {"VisualSampleEntry"}, "AVCDecoderConfiguration": {"VisualSampleEntry"},
	"Esds": {"VisualSampleEntry", "AudioSampleEntry"}, "DOps": {"AudioSampleEntry"}, "Dac3": {"AudioSampleEntry"}, "Dec3": {"AudioSampleEntry"},
	"PcmC": {"AudioSampleEntry"}, "DfLa": {"AudioSampleEntry"}, "Btrt": {"VisualSampleEntry", "AudioSampleEntry"}, "Pasp": {"VisualSampleEntry"},
	"Mfhd": {"Moof"}, "Traf": {"Moof"}, "Tfhd": {"Traf"}, "Tfdt": {"Traf"}, "Trun": {"Traf"},
}

// bxEnv binds the parameters and free variables of an inlined function.
type bxEnv struct {
	fn     *ssa.Function
	bind   map[ssa.Value]bxVal
	parent *bxEnv
	caller *bxEnv
	site   token.Pos
}

type bxVal struct {
	v   ssa.Value
	env *bxEnv
}

func (e *bxEnv) resolve(v ssa.Value) bxVal {
	cur := bxVal{v, e}
	for i := 0; i < 20; i++ {
		switch x := cur.v.(type) {
		case *ssa.ChangeInterface:
			cur.v = x.X
			continue
		case *ssa.ChangeType:
			cur.v = x.X
			continue
		case *ssa.UnOp:
			// an element of a literal, at the current iteration of a constant loop
			if cur.env != nil {
				if b, ok := cur.env.bind[x]; ok {
					cur = b
					continue
				}
			}
			// a captured variable that is stored once
			if x.Op == token.MUL {
				addr := bxVal{x.X, cur.env}
				if _, ok := x.X.(*ssa.FreeVar); ok && cur.env != nil {
					if b, ok := cur.env.bind[x.X]; ok {
						addr = b
					}
				}
				if al, ok := addr.v.(*ssa.Alloc); ok {
					var st *ssa.Store
					n := 0
					for _, u := range *al.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
							st = s
							n++
						}
					}
					if n == 1 {
						cur = bxVal{st.Val, addr.env}
						continue
					}
				}
			}
			return cur
		case *ssa.Parameter, *ssa.FreeVar:
			if cur.env == nil {
				return cur
			}
			b, ok := cur.env.bind[cur.v]
			if !ok {
				return cur
			}
			cur = b
			continue
		}
		return cur
	}
	return cur
}

type bxState struct {
	stack  string // "/"-separated types
	seek   bool
	decide map[string]bool
}

func (s bxState) key() string {
	var k []string
	for c, v := range s.decide {
		k = append(k, fmt.Sprintf("%s=%v", c, v))
	}
	sort.Strings(k)
	return fmt.Sprintf("%s|%v|%s", s.stack, s.seek, strings.Join(k, ";"))
}

func (s bxState) push(t string) bxState { s.stack += "/" + t; return s }
func (s bxState) top() string {
	i := strings.LastIndex(s.stack, "/")
	if i < 0 {
		return ""
	}
	return s.stack[i+1:]
}
func (s bxState) pop() (bxState, bool) {
	i := strings.LastIndex(s.stack, "/")
	if i < 0 {
		return s, false
	}
	s.stack = s.stack[:i]
	return s, true
}

type bxRun struct {
	r     *Repo
	res   *Result
	steps int
	ops   map[token.Pos]bool
	root  *ssa.Function
	cur   *bxEnv
	bad   bool
	fns   map[*ssa.Function]bool
	touch map[*ssa.Function]bool // functions that may open or close boxes
}

func (x *bxRun) report(fn *ssa.Function, pos token.Pos, what string) {
	x.bad = true
	// the chain of calls
	chain := ""
	for e := x.cur; e != nil; e = e.caller {
		if e.site.IsValid() {
			chain += " <- " + x.r.Pos(e.site)
			pos = e.site
			if !strings.HasSuffix(FName(e.caller.fn), "Writer).WriteBox") && strings.HasPrefix(FName(e.caller.fn), "(*internal/mp4.Writer)") {
				continue
			}
		}
	}
	if x.cur != nil {
		// attribute to the innermost function that is not a method of the box writer
		for e := x.cur; e != nil && e.caller != nil; e = e.caller {
			fn, pos = e.caller.fn, e.site
			if !strings.HasPrefix(FName(fn), "(*internal/mp4.Writer)") {
				break
			}
		}
		what += chain
	}
	k, _, _ := strings.Cut(what, " <- ")
	x.res.add(fmt.Sprintf("C16:%s:%s:%s", FName(x.root), FName(fn), k), x.r.Pos(pos), "%s (writing %s): %s", FName(fn), FName(x.root), what)
}

// exec runs one function from one state and returns the states in which it may succeed.
func (x *bxRun) exec(fn *ssa.Function, env *bxEnv, st bxState, depth int) []bxState {
	x.fns[fn] = true
	if depth > 30 {
		x.report(fn, fn.Pos(), "recursion while writing boxes")
		return nil
	}
	type item struct {
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
		st   bxState
		nn   map[ssa.Value]int // error values: 1 non-nil, 2 nil
	}
	var out []bxState
	outSeen := map[string]bool{}
	seen := map[string]bool{}
	outer := st.decide
	start := st
	start.decide = map[string]bool{}
	work := []item{{fn.Blocks[0], nil, start, map[ssa.Value]int{}}}
	conds := repeatedConds(fn)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		x.steps++
		if x.steps > 2000000 {
			x.report(fn, fn.Pos(), "too many states to decide")
			return nil
		}
		// phis of errors
		nn := map[ssa.Value]int{}
		for k, v := range it.nn {
			nn[k] = v
		}
		if it.from != nil {
			pi := 0
			for i, p := range it.b.Preds {
				if p == it.from {
					pi = i
				}
			}
			for _, in := range it.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if trackedLoop(ph) {
					delete(nn, ph)
					if k, ok := bxInt(ph.Edges[pi], it.nn); ok {
						nn[ph] = k + bxIntBias
					}
				}
				if isErrorT(ph.Type()) {
					delete(nn, ph)
					if v := bxErr(ph.Edges[pi], it.nn); v != 0 {
						nn[ph] = v
					}
				}
			}
		}
		var nk []string
		for k, v := range nn {
			nk = append(nk, fmt.Sprintf("%s:%d", k.Name(), v))
		}
		sort.Strings(nk)
		k := fmt.Sprintf("%d|%s|%s", it.b.Index, it.st.key(), strings.Join(nk, ","))
		if seen[k] {
			continue
		}
		seen[k] = true
		states := []bxState{it.st}
		dead := false
		for _, in := range it.b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if env.bind != nil {
					delete(env.bind, in)
					if e := literalElem(in, nn); e != nil {
						env.bind[in] = bxVal{e, env}
					}
				}
			case *ssa.Call:
				var next []bxState
				for _, s := range states {
					next = append(next, x.call(fn, env, in, s, depth)...)
				}
				states = dedupStates(next)
				if len(states) == 0 {
					dead = true
				}
			case *ssa.Defer:
				if x.callTouches(env, &in.Call) {
					x.report(fn, in.Pos(), "boxes are opened or closed in a deferred call: not decidable here")
				}
			case *ssa.Go:
				if x.callTouches(env, &in.Call) {
					x.report(fn, in.Pos(), "boxes are opened or closed in another goroutine")
				}
			case *ssa.Panic:
				dead = true
			case *ssa.Return:
				if ei := errResult(fn.Signature); ei >= 0 {
					if bxErr(in.Results[ei], nn) == 1 {
						dead = true
						break
					}
				}
				for _, s := range states {
					s.decide = outer
					if kk := s.key(); !outSeen[kk] {
						outSeen[kk] = true
						out = append(out, s)
					}
				}
			case *ssa.Jump:
				for _, s := range states {
					work = append(work, item{it.b.Succs[0], it.b, s, nn})
				}
			case *ssa.If:
				for _, s := range states {
					v := bxCond(in.Cond, nn)
					ck := ""
					if v < 0 {
						if ck = conds[in.Cond]; ck != "" {
							if d, ok := s.decide[ck]; ok {
								v = 0
								if d {
									v = 1
								}
							}
						}
					}
					for i := 0; i < 2; i++ {
						if v >= 0 && v == i { // v==1: only Succs[0]; v==0: only Succs[1]
							continue
						}
						s2 := s
						if ck != "" && v < 0 {
							s2.decide = map[string]bool{ck: i == 0}
							for k, d := range s.decide {
								s2.decide[k] = d
							}
						}
						n2 := nn
						if ev, nonnilOnTrue := bxErrTest(in.Cond); ev != nil {
							n2 = map[ssa.Value]int{}
							for k, q := range nn {
								n2[k] = q
							}
							if (i == 0) == nonnilOnTrue {
								n2[ev] = 1
							} else {
								n2[ev] = 2
							}
						}
						work = append(work, item{it.b.Succs[i], it.b, s2, n2})
					}
				}
			}
			if dead {
				break
			}
		}
	}
	return out
}

func dedupStates(in []bxState) []bxState {
	seen := map[string]bool{}
	var out []bxState
	for _, s := range in {
		if k := s.key(); !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

// bxErr: 1 non-nil, 2 nil, 0 unknown
func bxErr(v ssa.Value, nn map[ssa.Value]int) int {
	if isNilConst(v) {
		return 2
	}
	if q := nn[v]; q != 0 {
		return q
	}
	switch v := v.(type) {
	case *ssa.Call:
		if makesError(v.Call.StaticCallee()) {
			return 1
		}
	case *ssa.MakeInterface:
		return 1
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && isErrorT(g.Type().(*types.Pointer).Elem()) {
			return 1
		}
	}
	return 0
}

func bxErrTest(c ssa.Value) (ssa.Value, bool) {
	b, ok := c.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return nil, false
	}
	a, y := b.X, b.Y
	if isNilConst(a) {
		a, y = y, a
	}
	if !isNilConst(y) || !isErrorT(a.Type()) {
		return nil, false
	}
	return a, b.Op == token.NEQ
}

// bxCond: 1 true, 0 false, -1 unknown.
func bxCond(c ssa.Value, nn map[ssa.Value]int) int {
	if v, nonnil := bxErrTest(c); v != nil {
		switch bxErr(v, nn) {
		case 1:
			if nonnil {
				return 1
			}
			return 0
		case 2:
			if nonnil {
				return 0
			}
			return 1
		}
	}
	if k, ok := c.(*ssa.Const); ok && k.Value != nil {
		if constant.BoolVal(k.Value) {
			return 1
		}
		return 0
	}
	if b, ok := c.(*ssa.BinOp); ok {
		l, ok1 := bxInt(b.X, nn)
		r, ok2 := bxInt(b.Y, nn)
		if ok1 && ok2 {
			t, known := false, true
			switch b.Op {
			case token.LSS:
				t = l < r
			case token.LEQ:
				t = l <= r
			case token.GTR:
				t = l > r
			case token.GEQ:
				t = l >= r
			case token.EQL:
				t = l == r
			case token.NEQ:
				t = l != r
			default:
				known = false
			}
			if known && t {
				return 1
			} else if known {
				return 0
			}
		}
	}
	return -1
}

// Counters of loops whose number of iterations is a small constant are followed exactly:
// their value is kept next to the error values, shifted by bxIntBias.
const bxIntBias = 1000

const bxMaxTrips = 16

func bxInt(v ssa.Value, nn map[ssa.Value]int) (int, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			if k, ok := constant.Int64Val(v.Value); ok && k > -bxIntBias/2 && k < bxIntBias/2 {
				return int(k), true
			}
		}
	case *ssa.Phi:
		if q, ok := nn[v]; ok && q > bxIntBias/2 {
			return q - bxIntBias, true
		}
	case *ssa.BinOp:
		if v.Op == token.ADD || v.Op == token.SUB {
			l, ok1 := bxInt(v.X, nn)
			r, ok2 := bxInt(v.Y, nn)
			if ok1 && ok2 {
				if v.Op == token.SUB {
					r = -r
				}
				return l + r, true
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if arr := literalArray(v.Call.Args[0]); arr != nil {
				return int(arr.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), true
			}
		}
	}
	return 0, false
}

// literalArray: the array behind a slice literal.
func literalArray(v ssa.Value) *ssa.Alloc {
	switch v := v.(type) {
	case *ssa.Slice:
		if v.Low == nil && v.High == nil && v.Max == nil {
			if al, ok := v.X.(*ssa.Alloc); ok {
				if _, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
					return al
				}
			}
		}
	}
	return nil
}

// trackedLoop: an integer counter compared with a small constant.
func trackedLoop(ph *ssa.Phi) bool {
	if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	vals := []ssa.Value{ph}
	for _, u := range *ph.Referrers() {
		if b, ok := u.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			vals = append(vals, b)
		}
	}
	for _, v := range vals {
		for _, u := range *v.Referrers() {
			b, ok := u.(*ssa.BinOp)
			if !ok || (b.Op != token.LSS && b.Op != token.LEQ && b.Op != token.GTR && b.Op != token.GEQ && b.Op != token.NEQ) {
				continue
			}
			o := b.Y
			if o == v {
				o = b.X
			}
			if k, ok := bxInt(o, nil); ok && k >= 0 && k <= bxMaxTrips {
				return true
			}
		}
	}
	return false
}

// literalElem: what a load of an element of a slice literal yields, when the index is known and
// the literal is only written while it is built.
func literalElem(u *ssa.UnOp, nn map[ssa.Value]int) ssa.Value {
	ia, ok := u.X.(*ssa.IndexAddr)
	if u.Op != token.MUL || !ok {
		return nil
	}
	k, ok := bxInt(ia.Index, nn)
	if !ok {
		return nil
	}
	arr, _ := ia.X.(*ssa.Alloc)
	if arr == nil {
		arr = literalArray(ia.X)
	}
	if arr == nil {
		return nil
	}
	var val ssa.Value
	for _, r := range *arr.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			for _, w := range *r.Referrers() {
				switch w := w.(type) {
				case *ssa.Store:
					ki, ok := bxInt(r.Index, nil)
					if w.Addr != ssa.Value(r) || !ok {
						return nil
					}
					if ki == k {
						if val != nil {
							return nil
						}
						val = w.Val
					}
				case *ssa.UnOp:
				default:
					return nil
				}
			}
		case *ssa.Slice:
			for _, w := range *r.Referrers() {
				switch w := w.(type) {
				case *ssa.IndexAddr:
					for _, q := range *w.Referrers() {
						if _, ok := q.(*ssa.UnOp); !ok {
							return nil
						}
					}
				case *ssa.Call:
					if b, ok := w.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
						return nil
					}
				default:
					return nil
				}
			}
		case *ssa.UnOp:
		default:
			return nil
		}
	}
	return val
}

// repeatedConds names the conditions tested more than once in a function, so that correlated branches stay correlated.
func repeatedConds(fn *ssa.Function) map[ssa.Value]string {
	cnt := map[string]int{}
	name := map[ssa.Value]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if i, ok := in.(*ssa.If); ok {
				s := canonExpr(i.Cond, 0)
				if s == "" {
					continue
				}
				if _, ok := bxErrTest(i.Cond); ok {
					continue
				}
				name[i.Cond] = s
				cnt[s]++
			}
		}
	}
	for v, s := range name {
		if cnt[s] < 2 {
			delete(name, v)
		}
	}
	return name
}

// canonExpr renders loop-independent pure expressions; "" when not one.
func canonExpr(v ssa.Value, d int) string {
	if d > 8 {
		return ""
	}
	sub := func(x ssa.Value) string { return canonExpr(x, d+1) }
	switch v := v.(type) {
	case *ssa.Const:
		return v.String()
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return v.Name()
	case *ssa.Alloc:
		return v.Name()
	case *ssa.BinOp:
		a, b := sub(v.X), sub(v.Y)
		if a == "" || b == "" {
			return ""
		}
		return "(" + a + v.Op.String() + b + ")"
	case *ssa.UnOp:
		a := sub(v.X)
		if a == "" {
			return ""
		}
		return v.Op.String() + a
	case *ssa.FieldAddr:
		a := sub(v.X)
		if a == "" {
			return ""
		}
		return fmt.Sprintf("&%s.%d", a, v.Field)
	case *ssa.Field:
		a := sub(v.X)
		if a == "" {
			return ""
		}
		return fmt.Sprintf("%s.%d", a, v.Field)
	case *ssa.Convert:
		return sub(v.X)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			a := sub(v.Call.Args[0])
			if a == "" {
				return ""
			}
			return b.Name() + "(" + a + ")"
		}
	case *ssa.Extract:
		// the result of a type assertion of a loop-independent value
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok {
			a := sub(ta.X)
			if a == "" {
				return ""
			}
			return fmt.Sprintf("%s.(%s)#%d", a, ta.AssertedType, v.Index)
		}
	case *ssa.Phi:
		// a value computed before the branch, fixed on the path (not in a loop)
		if !inLoop(v.Block()) {
			return "phi:" + v.Name()
		}
	}
	return ""
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var q []*ssa.BasicBlock
	q = append(q, b.Succs...)
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		if c == b {
			return true
		}
		if seen[c] {
			continue
		}
		seen[c] = true
		q = append(q, c.Succs...)
	}
	return false
}

func (x *bxRun) callTouches(env *bxEnv, c *ssa.CallCommon) bool {
	f, _ := x.callee(env, c)
	return f != nil && x.touch[f]
}

func (x *bxRun) callee(env *bxEnv, c *ssa.CallCommon) (*ssa.Function, *bxEnv) {
	if c.IsInvoke() {
		return nil, nil
	}
	v := env.resolve(c.Value)
	switch f := v.v.(type) {
	case *ssa.Function:
		return f, nil
	case *ssa.MakeClosure:
		fn := f.Fn.(*ssa.Function)
		e := &bxEnv{fn: fn, bind: map[ssa.Value]bxVal{}, parent: v.env}
		for i, fv := range fn.FreeVars {
			e.bind[fv] = bxVal{f.Bindings[i], v.env}
		}
		return fn, e
	}
	return nil, nil
}

func (x *bxRun) call(fn *ssa.Function, env *bxEnv, in *ssa.Call, s bxState, depth int) []bxState {
	f, cenv := x.callee(env, &in.Call)
	if f == nil {
		return []bxState{s}
	}
	switch f.String() {
	case "(*" + amp4Path + ".Writer).StartBox":
		x.ops[in.Pos()] = true
		if strings.Count(s.stack, "/") > 24 {
			x.report(fn, in.Pos(), "boxes are opened without being closed in a loop")
			return nil
		}
		return []bxState{s.push("?")}
	case "(*" + amp4Path + ".Writer).EndBox":
		x.ops[in.Pos()] = true
		n, ok := s.pop()
		if !ok {
			x.report(fn, in.Pos(), "a box is closed although none is open")
			return nil
		}
		return []bxState{n}
	case "(*" + amp4Path + ".Writer).Seek":
		if c, ok := in.Call.Args[2].(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
			s.seek = !s.seek
		}
		return []bxState{s}
	case amp4Path + ".Marshal":
		// the payload of the innermost open box: tells its type
		if s.top() == "?" {
			t := "?"
			bv := env.resolve(in.Call.Args[1])
			if mi, ok := bv.v.(*ssa.MakeInterface); ok {
				t = typeBase(mi.X.Type())
			}
			n, _ := s.pop()
			if ps, ok := boxParents[t]; ok && !s.seek {
				par := n.top()
				okp := par == "?"
				for _, p := range ps {
					if p == par {
						okp = true
					}
				}
				if !okp {
					if par == "" {
						par = "the top level"
					}
					x.report(fn, in.Pos(), fmt.Sprintf("box %s is written inside %s instead of %s", t, par, strings.Join(ps, " or ")))
				}
			}
			if t == "?" {
				t = "box"
			}
			return []bxState{n.push(t)}
		}
		return []bxState{s}
	}
	if !isRepoFn(f) || f.Blocks == nil || !x.touch[f] {
		return []bxState{s}
	}
	if cenv == nil {
		cenv = &bxEnv{fn: f, bind: map[ssa.Value]bxVal{}, parent: env}
	}
	for i, p := range f.Params {
		if i < len(in.Call.Args) {
			cenv.bind[p] = bxVal{in.Call.Args[i], env}
		}
	}
	cenv.site, cenv.caller = in.Pos(), env
	old := x.cur
	x.cur = cenv
	out := x.exec(f, cenv, s, depth+1)
	x.cur = old
	return out
}

func typeBase(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// touching computes the functions that may open or close boxes, through calls or function values they mention.
func touching(r *Repo) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range r.Funcs {
			if out[f] {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						g, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if g.Pkg != nil && g.Pkg.Pkg.Path() == amp4Path && (g.Name() == "StartBox" || g.Name() == "EndBox" || g.Name() == "Seek" || g.Name() == "Marshal") {
							hit = true
						}
						if out[g] {
							hit = true
						}
					}
					// calls through a function parameter may be given a closure that writes boxes
					if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() {
						switch c.Call.Value.(type) {
						case *ssa.Parameter, *ssa.FreeVar:
							if strings.Contains(f.Pkg.Pkg.Path(), "mp4") {
								hit = true
							}
						}
					}
				}
			}
			if hit {
				out[f] = true
				changed = true
			}
		}
	}
	return out
}

func checkC16(r *Repo, tier string) *Result {
	res := &Result{Rule: "Path-sensitive typestate (stack of open boxes) over SSA with callees inlined: on every path of a writing function that returns success, the stack of open MP4 boxes is empty, no box is closed when none is open, and every box is written inside a parent the format allows; boxes rewritten in place keep their size."}
	touch := touching(r)
	ops := map[token.Pos]bool{}
	fns := map[*ssa.Function]bool{}
	for _, f := range r.Funcs {
		isRoot := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && strings.HasSuffix(g.String(), "internal/mp4.Writer).Initialize") {
						isRoot = true
					}
				}
			}
		}
		if !isRoot {
			continue
		}
		res.count("writing entry points", 1)
		x := &bxRun{r: r, res: res, ops: ops, root: f, fns: fns, touch: touch}
		env := &bxEnv{fn: f, bind: map[ssa.Value]bxVal{}}
		for _, s := range x.exec(f, env, bxState{}, 0) {
			res.Obl++
			if s.stack != "" {
				x.report(f, f.Pos(), "returns success with open boxes: "+s.stack)
			}
		}
		res.Obl += x.steps
		res.count("block states", x.steps)
		res.Samples = append(res.Samples, fmt.Sprintf("%s: %d block states, every successful path leaves no open box", FName(f), x.steps))
	}
	res.count("functions", len(fns))
	res.min("writing entry points", 3)
	res.min("functions", 12)
	n := checkRewrite(r, res)
	res.count("stores checked against in-place rewriting", n)
	res.Assume = []string{"go-mp4's Writer keeps the stack of open boxes itself: EndBox closes the innermost one"}
	return res
}

// checkRewrite: the types of boxes rewritten in place must not have fields that determine their size modified after the first write.
func checkRewrite(r *Repo, res *Result) int {
	// types rewritten
	rew := map[string]bool{}
	for _, f := range r.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || !strings.HasSuffix(g.String(), "internal/mp4.Writer).RewriteBox") {
					continue
				}
				for _, a := range c.Call.Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						rew[typeBase(mi.X.Type())] = true
					}
				}
			}
		}
	}
	res.count("box types rewritten in place", len(rew))
	res.min("box types rewritten in place", 3)
	n := 0
	for _, f := range r.Funcs {
		written := map[ssa.Value][]ssa.Instruction{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					for _, a := range c.Call.Args {
						if mi, ok := a.(*ssa.MakeInterface); ok && rew[typeBase(mi.X.Type())] {
							written[mi.X] = append(written[mi.X], in)
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				// find the box type on the address path; element stores keep the size
				var base ssa.Value
				sizeField := false
				a := st.Addr
				name := ""
				for base == nil {
					fa, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
						if nm, ok := pt.Elem().(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == amp4Path && rew[nm.Obj().Name()] {
							base = fa.X
							stt := nm.Underlying().(*types.Struct)
							fld := stt.Field(fa.Field)
							name = nm.Obj().Name() + "." + fld.Name()
							if _, isSl := fld.Type().Underlying().(*types.Slice); isSl || fld.Name() == "FullBox" || fld.Name() == "EntryCount" || fld.Name() == "SampleCount" {
								sizeField = true
							}
							break
						}
					}
					a = fa.X
				}
				if base == nil {
					continue
				}
				n++
				res.Obl++
				if !sizeField {
					continue
				}
				bad := false
				if _, ok := base.(*ssa.Alloc); !ok {
					bad = true // not created here: already written elsewhere
				}
				for _, w := range written[base] {
					if reachable(w, in) {
						bad = true
					}
				}
				if bad {
					// appending to a box under construction that is only reachable through a variable is fine when not yet written
					if _, ok := base.(*ssa.Phi); ok && len(written[base]) == 0 {
						continue
					}
					res.add("C16:rewrite:"+FName(f)+":"+name, r.Pos(in.Pos()), "%s changes %s of a box that may already have been written and is rewritten in place: its size may change", FName(f), name)
				}
			}
		}
	}
	return n
}

// reachable tells whether b can execute after a.
func reachable(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		ai, bi := -1, -1
		for i, in := range a.Block().Instrs {
			if in == a {
				ai = i
			}
			if in == b {
				bi = i
			}
		}
		if ai < bi {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	q := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		if seen[c] {
			continue
		}
		seen[c] = true
		if c == b.Block() {
			return true
		}
		q = append(q, c.Succs...)
	}
	return false
}
