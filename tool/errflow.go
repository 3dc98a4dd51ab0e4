package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

var errorType = types.Universe.Lookup("error").Type()

func isErrorT(t types.Type) bool { return types.Identical(t, errorType) }

// errResult returns the index of the error among the results of a call, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorT(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// calleeName names the callee of a call in a stable way.
func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return FName(f)
	}
	if c.IsInvoke() {
		return "interface method " + c.Method.Name()
	}
	switch v := c.Value.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return "func field " + faName(fa)
		}
	case *ssa.Field:
		st := v.X.Type().Underlying().(*types.Struct)
		return "func field " + st.Field(v.Field).Name()
	case *ssa.Parameter:
		return "func parameter " + v.Name()
	case *ssa.FreeVar:
		return "captured func " + v.Name()
	case *ssa.Builtin:
		return v.Name()
	}
	return "func value"
}

func faName(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	st := t.Underlying().(*types.Struct)
	return st.Field(fa.Field).Name()
}

// certainly not failing: documented to always return a nil error
func neverFails(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write",
		"(*strings.Builder).WriteString", "(*strings.Builder).WriteByte":
		return true
	}
	return false
}

func makesError(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	switch f.String() {
	case "fmt.Errorf", "errors.New":
		return true
	}
	return false
}

// efState is the state carried along a path on which the tracked error is non-nil.
type efState struct {
	alias map[ssa.Value]bool // values equal to the tracked error (or certainly non-nil because of it)
	cells map[ssa.Value]bool // allocs / free variables whose content is the tracked error
	vals  map[ssa.Value]*ssa.Const
	as    []ssa.Value // targets of errors.As
}

func (s *efState) clone() *efState {
	n := &efState{alias: map[ssa.Value]bool{}, cells: map[ssa.Value]bool{}, vals: map[ssa.Value]*ssa.Const{}}
	for k := range s.alias {
		n.alias[k] = true
	}
	for k := range s.cells {
		n.cells[k] = true
	}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	n.as = append(n.as, s.as...)
	return n
}

func (s *efState) key(b *ssa.BasicBlock) string {
	var k []string
	for v := range s.alias {
		k = append(k, v.Name())
	}
	for v := range s.cells {
		k = append(k, "*"+v.Name())
	}
	for v, c := range s.vals {
		k = append(k, v.Name()+"="+c.String())
	}
	sort.Strings(k)
	return fmt.Sprintf("%d|%s", b.Index, strings.Join(k, ","))
}

type efRun struct {
	r       *Repo
	fn      *ssa.Function
	call    ssa.Instruction
	seen    map[string]bool
	bad     []string // descriptions of silent outcomes
	badPos  []token.Pos
	paths   int
	nonnil  map[ssa.Value]bool
	accept  func(in ssa.Instruction) bool
	checked bool // the error was compared or inspected somewhere
	cut     func(in ssa.Instruction, s *efState) bool
}

// certainly non-nil error values
func (e *efRun) isNonNil(v ssa.Value, s *efState, depth int) bool {
	if s.alias[v] {
		return true
	}
	if depth > 5 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		// an error value built from a struct: non-nil, unless it wraps a pointer that may be nil
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			_, isAlloc := v.X.(*ssa.Alloc)
			return isAlloc
		}
		return true
	case *ssa.Call:
		return makesError(v.Call.StaticCallee())
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok && isErrorT(g.Type().(*types.Pointer).Elem()) {
				return true // sentinel errors (io.EOF, ...)
			}
			if s.cells[v.X] {
				return true
			}
			// the error carried by the structure errors.As found
			for _, t := range s.as {
				if a := v.X; a != nil {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						if ld, ok := fa.X.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == t {
							return true
						}
						if fa.X == t {
							return true
						}
					}
				}
			}
		}
	case *ssa.ChangeInterface:
		return e.isNonNil(v.X, s, depth+1)
	case *ssa.Phi:
		// resolved on entry to the block; unresolved phis of certainly non-nil values
		for _, ed := range v.Edges {
			if !e.isNonNil(ed, s, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *efRun) walk(b *ssa.BasicBlock, start int, s *efState) {
	e.paths++
	if e.paths > 20000 {
		e.bad = append(e.bad, "too many paths to decide")
		e.badPos = append(e.badPos, e.call.Pos())
		return
	}
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == e.call && start == 0 {
			// the same call again: the pending error is lost, unless it was looked at by a function that
			// has no error to return (a search that goes on with the next candidate)
			if e.checked && errResult(e.fn.Signature) < 0 {
				return
			}
			e.fail(in, "the error is lost: the call is executed again before the error is looked at")
			return
		}
		if e.cut != nil && e.cut(in, s) {
			return
		}
		if truncatedConfig(in) {
			return
		}
		switch in := in.(type) {
		case *ssa.Store:
			// the error (or another value) is stored
			if e.isNonNil(in.Val, s, 0) && isErrorT(in.Val.Type()) {
				switch a := in.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					s.cells[a] = true
				default:
					return // stored in a structure: reported later
				}
			} else {
				delete(s.cells, in.Addr)
			}
			if wrapsAlias(in.Val, s) {
				if _, ok := rootAddr(in.Addr).(*ssa.Alloc); !ok {
					return
				}
				s.alias[rootAddr(in.Addr)] = true // e.g. the variadic argument slice or a composite error
			}
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if s.cells[in.X] {
					s.alias[in] = true
				} else {
					delete(s.alias, in)
				}
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType:
			if v, ok := in.(ssa.Value); ok {
				ops := in.Operands(nil)
				if len(ops) > 0 && s.alias[*ops[0]] && isErrorT((*ops[0]).Type()) {
					s.alias[v] = true
				}
			}
		case *ssa.Panic:
			return
		case *ssa.Send:
			if s.alias[in.X] {
				return
			}
		case *ssa.Call:
			// an alias passed to a call: a callback or a library function receiving the error
			consumed := false
			for _, a := range in.Call.Args {
				if s.alias[a] || sliceOfAlias(a, s) {
					consumed = true
				}
			}
			if consumed {
				f := in.Call.StaticCallee()
				switch {
				case f != nil && makesError(f):
					s.alias[in] = true
				case f != nil && (f.String() == "errors.Is" || f.String() == "errors.As"):
					e.checked = true
					if f.Name() == "As" {
						if mi, ok := in.Call.Args[1].(*ssa.MakeInterface); ok {
							s.as = append(s.as, mi.X)
						}
					}
				case f == nil && !in.Call.IsInvoke() && in.Call.Signature().Results().Len() == 0:
					return // reported through a callback
				case in.Call.IsInvoke() && in.Call.Method.Name() == "Error":
				case errResult(in.Call.Signature()) == 0:
					s.alias[in] = true // wrapped
				}
			}
		case *ssa.If:
			e.branch(b, in, s)
			return
		case *ssa.Jump:
			e.enter(b, b.Succs[0], s)
			return
		case *ssa.Return:
			e.ret(in, s)
			return
		}
	}
}

// wrapsAlias tells whether a value contains the error (boxed into an interface).
func wrapsAlias(v ssa.Value, s *efState) bool {
	if s.alias[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return wrapsAlias(v.X, s)
	case *ssa.ChangeInterface:
		return wrapsAlias(v.X, s)
	}
	return false
}

func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return v
		}
	}
}

func sliceOfAlias(v ssa.Value, s *efState) bool {
	if sl, ok := v.(*ssa.Slice); ok {
		return s.alias[rootAddr(sl.X)]
	}
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return wrapsAlias(mi.X, s)
	}
	return false
}

func (e *efRun) fail(in ssa.Instruction, what string) {
	e.bad = append(e.bad, what)
	e.badPos = append(e.badPos, in.Pos())
}

func (e *efRun) enter(from, to *ssa.BasicBlock, s *efState) {
	s = s.clone()
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type upd struct {
		v     ssa.Value
		alias bool
		c     *ssa.Const
	}
	var us []upd
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ed := ph.Edges[pi]
		u := upd{v: ph}
		if isErrorT(ph.Type()) && e.isNonNil(ed, s, 0) {
			u.alias = true
		}
		if c, ok := ed.(*ssa.Const); ok {
			u.c = c
		} else if c := s.vals[ed]; c != nil {
			u.c = c
		}
		us = append(us, u)
	}
	for _, u := range us {
		if u.alias {
			s.alias[u.v] = true
		} else {
			delete(s.alias, u.v)
		}
		if u.c != nil {
			s.vals[u.v] = u.c
		} else {
			delete(s.vals, u.v)
		}
	}
	k := s.key(to)
	if e.seen[k] {
		return
	}
	e.seen[k] = true
	e.walk(to, 0, s)
}

// condition value under the state: 1 true, 0 false, -1 unknown
func (e *efRun) cond(v ssa.Value, s *efState) int {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			c := e.cond(v.X, s)
			if c >= 0 {
				return 1 - c
			}
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			x, y := v.X, v.Y
			if isNilConst(x) {
				x, y = y, x
			}
			if isNilConst(y) && isErrorT(x.Type()) {
				if e.isNonNil(x, s, 0) {
					if s.alias[x] {
						e.checked = true
					}
					if v.Op == token.NEQ {
						return 1
					}
					return 0
				}
				if c := s.vals[x]; c != nil && c.Value == nil {
					if v.Op == token.EQL {
						return 1
					}
					return 0
				}
			} else if s.alias[x] || s.alias[y] {
				e.checked = true
			}
		}
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return 1
			}
			return 0
		}
	case *ssa.Phi:
		if c := s.vals[v]; c != nil {
			return e.cond(c, s)
		}
	}
	if bo, ok := v.(*ssa.BinOp); ok {
		get := func(x ssa.Value) *ssa.Const {
			if c := s.vals[x]; c != nil {
				return c
			}
			c, ok := constOf(x, map[ssa.Value]bool{})
			if !ok {
				return nil
			}
			return c
		}
		cx, cy := get(bo.X), get(bo.Y)
		if cx != nil && cy != nil && cx.Value != nil && cy.Value != nil {
			switch bo.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if constant.Compare(cx.Value, bo.Op, cy.Value) {
					return 1
				}
				return 0
			}
		}
	}
	return -1
}

func (e *efRun) branch(b *ssa.BasicBlock, in *ssa.If, s *efState) {
	switch e.cond(in.Cond, s) {
	case 1:
		e.enter(b, b.Succs[0], s)
	case 0:
		e.enter(b, b.Succs[1], s)
	default:
		if ok, zt := e.zeroReadTest(in.Cond); ok {
			if zt {
				e.enter(b, b.Succs[0], s)
			} else {
				e.enter(b, b.Succs[1], s)
			}
			return
		}
		// comparison with a sentinel (err == io.EOF, errors.Is): the accepted end-of-data idioms are looked up by the caller
		if sent := sentinelTest(in.Cond, s); sent != "" && e.acceptSentinel(sent) {
			// only the other outcome carries a failure
			if sentinelTrueBranch(in.Cond) {
				e.enter(b, b.Succs[1], s)
			} else {
				e.enter(b, b.Succs[0], s)
			}
			return
		}
		e.enter(b, b.Succs[0], s)
		e.enter(b, b.Succs[1], s)
	}
}

func (e *efRun) acceptSentinel(name string) bool {
	for _, a := range acceptedSentinels {
		if name == a.sentinel && shortPkg(e.fn.Pkg.Pkg) == a.pkg {
			return true
		}
	}
	return false
}

// sentinel errors that mean "end of data" rather than failure, and the package that treats them so
var acceptedSentinels = []struct{ pkg, sentinel, why string }{
	{"formats/fmp4", modPath + "/internal/mp4.ErrReadEnded", "the codec box reader tells that the codec boxes are over"},
	{"formats/pmp4", modPath + "/internal/mp4.ErrReadEnded", "the codec box reader tells that the codec boxes are over"},
}

// constOf evaluates values that are constant whatever the path (optimistically through loops).
func constOf(v ssa.Value, seen map[ssa.Value]bool) (*ssa.Const, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		return v, true
	case *ssa.Phi:
		if seen[v] {
			return nil, true
		}
		seen[v] = true
		var res *ssa.Const
		for _, ed := range v.Edges {
			c, ok := constOf(ed, seen)
			if !ok {
				return nil, false
			}
			if c == nil {
				continue
			}
			if res != nil && (res.Value == nil || c.Value == nil || res.Value.ExactString() != c.Value.ExactString()) {
				return nil, false
			}
			res = c
		}
		return res, true
	}
	return nil, false
}

// zeroReadTest recognises n == 0 / n > 0 on the count returned by the tracked Read call:
// with n > 0 an io.Reader's error may be left to the next call.
func (e *efRun) zeroReadTest(c ssa.Value) (isTest bool, zeroOnTrue bool) {
	call, ok := e.call.(*ssa.Call)
	if !ok || !call.Call.IsInvoke() || call.Call.Method.Name() != "Read" {
		return false, false
	}
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false, false
	}
	isN := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		return ok && ex.Tuple == ssa.Value(call) && ex.Index == 0
	}
	cst := func(v ssa.Value) (int64, bool) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		return k.Int64(), true
	}
	x, y, op := b.X, b.Y, b.Op
	if isN(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := cst(y)
	if !isN(x) || !ok {
		return false, false
	}
	switch {
	case op == token.EQL && k == 0, op == token.LEQ && k == 0, op == token.LSS && k == 1:
		return true, true
	case op == token.NEQ && k == 0, op == token.GTR && k == 0, op == token.GEQ && k == 1:
		return true, false
	}
	return false, false
}

// sentinelTest recognises err == X and errors.Is(err, X) for a package-level error X.
func sentinelTest(c ssa.Value, s *efState) string {
	glob := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok {
				return g.RelString(nil)
			}
		}
		return ""
	}
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return sentinelTest(c.X, s)
		}
	case *ssa.BinOp:
		if c.Op == token.EQL || c.Op == token.NEQ {
			if s.alias[c.X] {
				return glob(c.Y)
			}
			if s.alias[c.Y] {
				return glob(c.X)
			}
		}
	case *ssa.Call:
		if f := c.Call.StaticCallee(); f != nil && f.String() == "errors.Is" && s.alias[c.Call.Args[0]] {
			return glob(c.Call.Args[1])
		}
	}
	return ""
}

func sentinelTrueBranch(c ssa.Value) bool {
	switch c := c.(type) {
	case *ssa.UnOp:
		return !sentinelTrueBranch(c.X)
	case *ssa.BinOp:
		return c.Op == token.EQL
	}
	return true
}

func (e *efRun) ret(in *ssa.Return, s *efState) {
	sig := e.fn.Signature
	ei := errResult(sig)
	if ei < 0 {
		// no way to report an error: a looked-at failure must give a value that differs from success; booleans must be false
		if !e.checked {
			e.fail(in, "the function returns without having looked at the error")
			return
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				v := in.Results[i]
				if c := s.vals[v]; c != nil {
					v = c
				}
				if c, ok := v.(*ssa.Const); !ok || constant.BoolVal(c.Value) {
					e.fail(in, "the function may return true although the call failed")
				}
			}
		}
		return
	}
	v := in.Results[ei]
	if e.isNonNil(v, s, 0) {
		return
	}
	if isNilConst(v) || (s.vals[v] != nil && s.vals[v].Value == nil) {
		e.fail(in, "success is returned although the call failed")
		return
	}
	e.fail(in, "another result is returned in place of the error of the failed call ("+v.Name()+")")
}

type efSite struct {
	fn   *ssa.Function
	in   ssa.Instruction
	call *ssa.CallCommon
	errv ssa.Value // nil when the result is dropped
	drop bool
}

func errSites(f *ssa.Function) []efSite {
	var out []efSite
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				ei := errResult(in.Call.Signature())
				if ei < 0 || neverFails(&in.Call) {
					continue
				}
				st := efSite{fn: f, in: in, call: &in.Call}
				if in.Call.Signature().Results().Len() == 1 {
					st.errv = in
				} else {
					for _, u := range *in.Referrers() {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index == ei {
							st.errv = ex
						}
					}
					// the tuple is returned as a whole: "return f()"
				}
				if st.errv == nil || len(realRefs(st.errv)) == 0 {
					st.drop = true
				}
				out = append(out, st)
			case *ssa.Defer:
				if errResult(in.Call.Signature()) >= 0 {
					out = append(out, efSite{fn: f, in: in, call: &in.Call, drop: true})
				}
			case *ssa.Go:
				if errResult(in.Call.Signature()) >= 0 {
					out = append(out, efSite{fn: f, in: in, call: &in.Call, drop: true})
				}
			}
		}
	}
	return out
}

func realRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		out = append(out, u)
	}
	return out
}

func checkC11(r *Repo, tier string) *Result {
	res := &Result{Rule: "Path-sensitive error-flow analysis over SSA: from every call returning an error, every path on which that error is non-nil is followed to its returns; it must return a non-nil error (the same, a wrapped or a newly made one), report it to a callback, store it or panic."}
	for _, f := range r.Funcs {
		for _, st := range errSites(f) {
			res.Obl++
			res.count("call sites returning an error", 1)
			cn := calleeName(st.call)
			key := fmt.Sprintf("C11:%s:%s", FName(f), cn)
			if acc := acceptedDrop(f, cn); acc != "" && st.drop {
				res.count("accepted idioms", 1)
				continue
			}
			if st.drop {
				res.add(key, r.Pos(st.in.Pos()), "%s drops the error returned by %s", FName(f), cn)
				continue
			}
			e := &efRun{r: r, fn: f, call: st.in, seen: map[string]bool{}}
			s := &efState{alias: map[ssa.Value]bool{st.errv: true}, cells: map[ssa.Value]bool{}, vals: map[ssa.Value]*ssa.Const{}}
			b := st.in.Block()
			idx := 0
			for i, x := range b.Instrs {
				if x == st.in {
					idx = i + 1
				}
			}
			e.walk(b, idx, s)
			res.count("paths followed", e.paths)
			for i, bd := range e.bad {
				res.add(key, r.Pos(e.badPos[i]), "%s, after the failure of %s (called at %s): %s", FName(f), cn, r.Pos(st.in.Pos()), bd)
			}
			if len(res.Samples) < 10 && len(e.bad) == 0 {
				res.Samples = append(res.Samples, fmt.Sprintf("%s: error of %s propagated on all %d paths", FName(f), cn, e.paths))
			}
		}
	}
	res.min("call sites returning an error", 400)
	res.Assume = []string{
		"callbacks that take an error (OnDecodeError) report it",
		"an io.Reader that returns data together with an error returns the error again on the next call",
		"accepted: LATM configurations truncated before the buffer fullness (the value 255 is stored instead); av1.Bitstream.Marshal re-parses headers already validated by the sizing pass",
	}
	return res
}

// truncatedConfig recognises the documented tolerance for LATM configurations cut before the buffer fullness:
// the field is given its "unknown" value 255.
func truncatedConfig(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || faName(fa) != "LatmBufferFullness" {
		return false
	}
	c, ok := st.Val.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 255
}

// acceptedDrop lists dropped errors that cannot be failures.
func acceptedDrop(f *ssa.Function, cn string) string {
	if f.Pkg != nil && shortPkg(f.Pkg.Pkg) == "codecs/av1" && cn == "(*codecs/av1.OBUHeader).Unmarshal" && isEncoderName(f.Name()) {
		return "the same header was parsed, and its error returned, while computing the size"
	}
	return ""
}
