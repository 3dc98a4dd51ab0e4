package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

const mpegtsPath = modPath + "/pkg/formats/mpegts"

// isErrCallback: a func(error) without results
func isErrCallback(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && s.Results().Len() == 0 && isErrorT(s.Params().At(0).Type())
}

// isDataCallback: a user function returning only an error
func isDataCallback(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Results().Len() == 1 && isErrorT(s.Results().At(0).Type()) && s.Params().Len() > 0
}

// field of function type, loaded at the time of the call
func fieldOfCallee(c *ssa.CallCommon) string {
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return typeBase(fa.X.Type()) + "." + faName(fa)
		}
	}
	return ""
}

func checkC12(r *Repo, tier string) *Result {
	res := &Result{Rule: "Path enumeration over SSA (helpers inlined) of every payload handler registered by the MPEG-TS reader: each path either calls the user callback once and returns its result, or reports once through Reader.onDecodeError (loaded when called) and returns nil; error-origin analysis: errors returned by Reader.Read come only from the source reader or the user's callbacks; OnDecodeError reaches every layer."}
	// 1. handlers
	nh := 0
	for _, f := range r.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != mpegtsPath {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				u, ok := mu.Map.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok || typeBase(fa.X.Type()) != "Reader" || faName(fa) != "onData" {
					continue
				}
				vals := []ssa.Value{mu.Value}
				if ph, ok := mu.Value.(*ssa.Phi); ok {
					vals = ph.Edges
				}
				for _, v := range vals {
					for {
						if ct, ok := v.(*ssa.ChangeType); ok {
							v = ct.X
							continue
						}
						break
					}
					nh++
					checkHandler(r, res, f, v, in.Pos())
				}
			}
		}
	}
	res.count("payload handlers", nh)
	res.min("payload handlers", 11)
	// 2. error origins of the read call
	o := &errOrigins{r: r, seen: map[string]bool{}}
	for _, name := range []string{"(*formats/mpegts.Reader).Read", "(*formats/mpegts.robustDemuxer).nextData", "(*formats/mpegts.preDemuxer).Read"} {
		f := r.Func(name)
		if f == nil {
			if strings.Contains(name, "Reader") {
				res.Errors = append(res.Errors, name+" not found")
			}
			continue
		}
		o.root = name
		o.ofReturns(f)
	}
	for _, bad := range o.bad {
		res.add("C12:origin:"+bad.Key, bad.Pos, "%s", bad.Text)
	}
	res.Obl += o.n
	res.count("error values traced", o.n)
	res.min("error values traced", 8)
	// 3. Read: after a report, nil is returned and no payload is delivered
	if f := r.Func("(*formats/mpegts.Reader).Read"); f != nil {
		x := &px{r: r, inline: func(g *ssa.Function) bool { return reportsOrDelivers(g) }}
		x.hook = func(x *px, fn *ssa.Function, c *ssa.CallCommon, pos token.Pos, callee pxVal, args []pxVal, st pxState) ([]pxOut, bool) {
			if isErrCallback(c.Value.Type()) && !c.IsInvoke() && c.StaticCallee() == nil {
				st.mon["reported"] = plus(st.mon["reported"])
				return []pxOut{{st: st}}, true
			}
			if !c.IsInvoke() && c.StaticCallee() == nil && isDataCallback(c.Value.Type()) {
				st.mon["delivered"] = plus(st.mon["delivered"])
				return []pxOut{{st: st, ret: []pxVal{{kind: "tag", tag: "handler"}}}}, true
			}
			return nil, false
		}
		for _, out := range x.exec(f, nil, nil, pxState{}, "r", 0) {
			res.Obl++
			res.count("paths of Read", 1)
			ret := out.ret[0]
			rep, del := out.st.mon["reported"], out.st.mon["delivered"]
			switch {
			case rep != "" && del != "":
				res.add("C12:Read:both", r.Pos(out.pos), "Reader.Read reports a decode error and delivers the same payload")
			case rep != "" && ret.kind != "nil":
				res.add("C12:Read:abort", r.Pos(out.pos), "Reader.Read returns an error for something reported as a decode error")
			case del != "" && !strings.HasPrefix(ret.tag, "handler"):
				res.add("C12:Read:lost", r.Pos(out.pos), "Reader.Read does not return the result of the payload handler")
			case len(rep) > 1 || len(del) > 1:
				res.add("C12:Read:twice", r.Pos(out.pos), "Reader.Read reports or delivers more than once")
			}
		}
		if x.over {
			res.add("C12:Read:over", r.Pos(f.Pos()), "too many paths in Reader.Read")
		}
	}
	// 4. the callback setter reaches every layer that reports
	checkSetter(r, res)
	res.Assume = []string{"the third-party demuxer (go-astits) returns errors of its own for malformed packets and ErrNoMorePackets at the end of data"}
	return res
}

func plus(s string) string {
	if len(s) > 2 {
		return s
	}
	return s + "x"
}

// reportsOrDelivers tells whether a function (or something it calls in the package) calls function values.
func reportsOrDelivers(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != mpegtsPath {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if seen[g] || g.Pkg == nil || g.Pkg.Pkg.Path() != mpegtsPath {
			return false
		}
		seen[g] = true
		rt := ""
		if g.Signature.Recv() != nil {
			rt = typeBase(g.Signature.Recv().Type())
		}
		if rt == "robustDemuxer" || rt == "preDemuxer" {
			return false // layers below, with callbacks of their own
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if c.Call.StaticCallee() == nil && !c.Call.IsInvoke() {
					if isErrCallback(c.Call.Value.Type()) || isDataCallback(c.Call.Value.Type()) {
						return true
					}
				}
				if h := c.Call.StaticCallee(); h != nil && rec(h) {
					return true
				}
			}
		}
		return false
	}
	return rec(f)
}

// audio payloads have no reordering; AC-3 and MPEG-1 audio payloads must hold the frames they announce
var ptsIsDTS = map[string]bool{"OnDataOpus": true, "OnDataMPEG4Audio": true, "OnDataMPEG4AudioLATM": true, "OnDataMPEG1Audio": true, "OnDataAC3": true, "OnDataEAC3": true}
var sizeChecked = map[string]bool{"OnDataAC3": true, "OnDataMPEG1Audio": true}

func checkHandler(r *Repo, res *Result, reg *ssa.Function, v ssa.Value, pos token.Pos) {
	name := FName(reg)
	x := &px{r: r}
	x.inline = func(g *ssa.Function) bool { return g.Pkg != nil && g.Pkg.Pkg.Path() == mpegtsPath }
	x.field = func(base pxVal, t types.Type, n string) pxVal {
		return pxVal{kind: "tag", tag: "field " + typeBase(t) + "." + n}
	}
	x.hook = func(x *px, fn *ssa.Function, c *ssa.CallCommon, pos token.Pos, callee pxVal, args []pxVal, st pxState) ([]pxOut, bool) {
		if g := c.StaticCallee(); g != nil && !makesError(g) && errResult(c.Signature()) >= 0 && !x.inline(g) {
			// a decoding step: succeeds or fails
			n := c.Signature().Results().Len()
			okR, badR := make([]pxVal, n), make([]pxVal, n)
			okR[n-1] = pxVal{kind: "nil"}
			badR[n-1] = pxVal{kind: "tag", tag: "decerr!"}
			st2 := st.clone()
			st2.mon["failed"] = "x"
			return []pxOut{{st: st, ret: okR}, {st: st2, ret: badR}}, true
		}
		if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "len" && x.lenVal != nil {
			return []pxOut{{st: st, ret: []pxVal{*x.lenVal}}}, true
		}
		if g := c.StaticCallee(); g != nil && x.sizeVal != nil && (g.Name() == "FrameSize" || g.Name() == "FrameLen") {
			return []pxOut{{st: st, ret: []pxVal{*x.sizeVal}}}, true
		}
		if c.IsInvoke() || c.StaticCallee() != nil {
			return nil, false
		}
		if callee.kind == "tag" && callee.tag == "usercb" {
			if st.mon["reported"] != "" {
				st.mon["late"] = "x"
			}
			for _, a := range args {
				if a.kind == "tag" && a.tag == "madeerr" {
					st.mon["late"] = "x"
				}
			}
			st.mon["delivered"] = plus(st.mon["delivered"])
			return []pxOut{{st: st, ret: []pxVal{{kind: "tag", tag: "cbresult"}}}}, true
		}
		if isErrCallback(c.Value.Type()) {
			if callee.kind == "tag" && callee.tag == "*field Reader.onDecodeError" {
				st.mon["reported"] = plus(st.mon["reported"])
			} else {
				st.mon["stale"] = "x"
			}
			return []pxOut{{st: st}}, true
		}
		return nil, false
	}
	// run the registering function up to the registration to bind the captured variables: the user's callback is a
	// parameter of function type; everything else is unknown
	var fn *ssa.Function
	var bind []pxVal
	st := pxState{mon: map[string]string{}, cells: map[*pxCell]pxVal{}}
	var val func(v ssa.Value) pxVal
	val = func(v ssa.Value) pxVal {
		switch b := v.(type) {
		case *ssa.Parameter:
			if isDataCallback(b.Type()) {
				return pxVal{kind: "tag", tag: "usercb"}
			}
			return pxVal{kind: "tag", tag: "param " + b.Name() + "!"}
		case *ssa.Alloc:
			// captured variable: what is stored into it
			c := x.cell("reg/" + b.Name())
			n := 0
			for _, u := range *b.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(b) {
					st.cells[c] = val(s.Val)
					n++
				}
			}
			if n != 1 {
				delete(st.cells, c)
			}
			return pxVal{kind: "cell", cell: c}
		case *ssa.UnOp:
			if fa, ok := b.X.(*ssa.FieldAddr); ok && b.Op == token.MUL {
				return pxVal{kind: "tag", tag: "captured " + faName(fa)}
			}
			if a, ok := b.X.(*ssa.Alloc); ok && b.Op == token.MUL {
				cv := val(a)
				return st.cells[cv.cell]
			}
		case *ssa.MakeClosure:
			p := pxVal{kind: "fn", fn: b.Fn.(*ssa.Function)}
			for _, q := range b.Bindings {
				p.bind = append(p.bind, val(q))
			}
			return p
		case *ssa.Function:
			return pxVal{kind: "fn", fn: b}
		case *ssa.ChangeType:
			return val(b.X)
		case *ssa.Call:
			// a helper that builds the handler
			if g := b.Call.StaticCallee(); g != nil && isRepoFn(g) {
				var as []pxVal
				for _, a := range b.Call.Args {
					as = append(as, val(a))
				}
				outs := x.exec(g, as, nil, st, "mk", 1)
				if len(outs) == 1 && len(outs[0].ret) == 1 {
					st = outs[0].st
					return outs[0].ret[0]
				}
			}
		}
		return pxVal{}
	}
	hv := val(v)
	if hv.kind != "fn" {
		if hv.kind == "tag" && hv.tag == "usercb" {
			return // the user callback itself is the handler
		}
		res.add("C12:handler:"+name, r.Pos(pos), "the payload handler registered by %s cannot be identified", name)
		return
	}
	fn, bind = hv.fn, hv.bind
	outs := x.exec(fn, nil, bind, st, "h", 0)
	if x.over || len(outs) == 0 {
		res.add("C12:handler:"+name, r.Pos(pos), "the paths of the payload handler registered by %s cannot be enumerated", name)
		return
	}
	good, rej := 0, 0
	for _, o := range outs {
		res.Obl++
		res.count("handler outcomes", 1)
		del, rep := o.st.mon["delivered"], o.st.mon["reported"]
		ret := pxVal{}
		if len(o.ret) == 1 {
			ret = o.ret[0]
		}
		key := "C12:" + name
		switch {
		case o.st.mon["stale"] != "":
			res.add(key+":stale", r.Pos(o.pos), "%s: a decode error is reported to something other than the current decode error callback", name)
		case del != "" && o.st.mon["failed"] != "":
			res.add(key+":ignored", r.Pos(o.pos), "%s: the payload is handed to the user although a decoding step failed", name)
		case o.st.mon["late"] != "":
			res.add(key+":late", r.Pos(o.pos), "%s: the payload is handed to the user after a decode error was reported", name)
		case len(del) > 1:
			res.add(key+":twice", r.Pos(o.pos), "%s: the payload is handed to the user more than once", name)
		case del != "" && rep != "":
			res.add(key+":both", r.Pos(o.pos), "%s: the payload is handed to the user and also reported as malformed", name)
		case del != "" && !strings.HasPrefix(ret.tag, "cbresult"):
			res.add(key+":lost", r.Pos(o.pos), "%s: the error returned by the user's callback is not returned", name)
		case del != "":
			good++
		case rep == "":
			res.add(key+":silent", r.Pos(o.pos), "%s: a payload is neither handed to the user nor reported through the decode error callback (returns %s)", name, ret)
		case len(rep) > 1:
			res.add(key+":reptwice", r.Pos(o.pos), "%s: the same payload is reported more than once", name)
		case ret.kind != "nil":
			res.add(key+":abort", r.Pos(o.pos), "%s: a malformed payload makes the read call fail", name)
		default:
			rej++
		}
	}
	// payloads that are malformed by construction: no path may deliver them
	num := func(i int64) pxVal { return pxVal{kind: "const", c: constant.MakeInt64(i)} }
	probe := func(why string, args []pxVal) {
		res.Obl++
		res.count("rejection rules", 1)
		for _, o := range x.exec(fn, args, bind, st, "p"+why, 0) {
			if o.st.mon["delivered"] != "" {
				res.add("C12:"+name+":"+why, r.Pos(o.pos), "%s: a payload is handed to the user although %s", name, why)
				return
			}
		}
	}
	if len(fn.Params) == 3 {
		if ptsIsDTS[reg.Name()] {
			probe("its PTS and DTS differ", []pxVal{num(1), num(2)})
		}
		if sizeChecked[reg.Name()] {
			l, sz := num(50), num(100)
			x.lenVal, x.sizeVal = &l, &sz
			probe("the frame announced by its header is longer than the payload", nil)
			x.lenVal, x.sizeVal = nil, nil
		}
	}
	if good == 0 {
		res.add("C12:"+name+":never", r.Pos(pos), "%s: no path hands the payload to the user", name)
	}
	res.Samples = append(res.Samples, fmt.Sprintf("%s: %d outcomes deliver, %d report and return nil", name, good, rej))
}

// errOrigins traces where the errors returned by the read call are made.
type errOrigins struct {
	r    *Repo
	seen map[string]bool
	bad  []Finding
	n    int
	root string
}

func (o *errOrigins) report(pos token.Pos, fn *ssa.Function, what string) {
	o.bad = append(o.bad, Finding{Key: FName(fn) + ":" + what, Pos: o.r.Pos(pos), Text: fmt.Sprintf("%s may make the read call return an error that is neither the source's nor the user's: %s", FName(fn), what)})
}

func (o *errOrigins) ofReturns(f *ssa.Function) {
	if o.seen["fn "+f.String()] {
		return
	}
	o.seen["fn "+f.String()] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok {
				for _, v := range rt.Results {
					if isErrorT(v.Type()) {
						o.val(f, v, map[ssa.Value]bool{})
					}
				}
			}
		}
	}
}

func (o *errOrigins) val(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	o.n++
	switch v := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
		for _, e := range v.Edges {
			o.val(f, e, seen)
		}
	case *ssa.ChangeInterface:
		o.val(f, v.X, seen)
	case *ssa.MakeInterface:
		// a wrapper structure: the errors stored in its fields
		o.fields(v.X.Type())
	case *ssa.Extract:
		o.val(f, v.Tuple, seen)
	case *ssa.Call:
		o.callRes(f, v)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.Global:
				if a.RelString(nil) == "io.EOF" {
					return
				}
				o.report(v.Pos(), f, "the error "+a.RelString(nil))
			case *ssa.FieldAddr:
				o.fieldStores(a.X.Type(), faName(a))
			case *ssa.Alloc:
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						o.val(f, s.Val, seen)
					}
				}
			}
		}
	case *ssa.Parameter:
	case *ssa.FreeVar:
	}
}

func (o *errOrigins) callRes(f *ssa.Function, c *ssa.Call) {
	if c.Call.IsInvoke() {
		if c.Call.Method.Name() == "Read" {
			return // the source
		}
		o.report(c.Pos(), f, "the result of "+calleeName(&c.Call))
		return
	}
	g := c.Call.StaticCallee()
	if g == nil {
		// a function value: the handlers (checked apart) or the user's callback
		if isDataCallback(c.Call.Value.Type()) {
			return
		}
		o.report(c.Pos(), f, "the result of a function value")
		return
	}
	if makesError(g) {
		// wrapping keeps the origin; a new message is a decode error
		wrapped := false
		if len(c.Call.Args) == 2 {
			if sl, ok := c.Call.Args[1].(*ssa.Slice); ok {
				if al, ok := rootAddr(sl.X).(*ssa.Alloc); ok {
					for _, u := range *al.Referrers() {
						if ia, ok := u.(*ssa.IndexAddr); ok {
							for _, w := range *ia.Referrers() {
								if st, ok := w.(*ssa.Store); ok {
									x := st.Val
									for {
										if ci, ok := x.(*ssa.ChangeInterface); ok {
											x = ci.X
											continue
										}
										break
									}
									if isErrorT(x.Type()) {
										wrapped = true
										o.val(f, x, map[ssa.Value]bool{})
									}
								}
							}
						}
					}
				}
			}
		}
		if !wrapped {
			o.report(c.Pos(), f, "a newly made error")
		}
		return
	}
	if isRepoFn(g) {
		o.ofReturns(g)
		return
	}
	switch g.String() {
	case "io.ReadFull", "io.ReadAtLeast", "io.Copy":
		return
	}
	o.report(c.Pos(), f, "an error of "+g.String())
}

func (o *errOrigins) fields(t types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isErrorT(st.Field(i).Type()) {
				o.fieldStores(t, st.Field(i).Name())
			}
		}
	}
}

func (o *errOrigins) fieldStores(t types.Type, name string) {
	k := "field " + typeBase(t) + "." + name
	if o.seen[k] {
		return
	}
	o.seen[k] = true
	for _, f := range o.r.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeBase(fa.X.Type()) == typeBase(t) && faName(fa) == name {
						o.val(f, s.Val, map[ssa.Value]bool{})
					}
				}
			}
		}
	}
}

// checkSetter: Reader.OnDecodeError must store the callback into every field through which decode errors are reported.
func checkSetter(r *Repo, res *Result) {
	// fields called as error callbacks in the package
	used := map[string]token.Pos{}
	for _, f := range r.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != mpegtsPath {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && isErrCallback(c.Call.Value.Type()) {
					if n := fieldOfCallee(&c.Call); n != "" {
						used[n] = c.Pos()
					}
				}
			}
		}
	}
	set := r.Func("(*formats/mpegts.Reader).OnDecodeError")
	if set == nil {
		res.Errors = append(res.Errors, "Reader.OnDecodeError not found")
		return
	}
	stored := map[string]bool{}
	x := &px{r: r}
	x.field = func(base pxVal, t types.Type, n string) pxVal { return pxVal{kind: "tag", tag: "field"} }
	x.store = func(x *px, fn *ssa.Function, pos token.Pos, base pxVal, t types.Type, name string, v pxVal, st *pxState) {
		k := typeBase(t) + "." + name
		if v.kind == "tag" && strings.HasPrefix(v.tag, "newcb") {
			st.mon["set "+k] = "x"
		} else if isErrCallback(fieldTypeOf(t, name)) {
			delete(st.mon, "set "+k)
		}
	}
	outs := x.exec(set, []pxVal{{kind: "tag", tag: "recv!"}, {kind: "tag", tag: "newcb"}}, nil, pxState{}, "s", 0)
	for k := range used {
		all := len(outs) > 0
		for _, o := range outs {
			if o.st.mon["set "+k] == "" {
				all = false
			}
		}
		stored[k] = all
		res.Obl++
		if !all {
			res.add("C12:setter:"+k, r.Pos(set.Pos()), "Reader.OnDecodeError does not install the callback into %s, through which decode errors are reported at %s", k, r.Pos(used[k]))
		}
	}
	res.count("reporting fields", len(used))
	res.min("reporting fields", 3)
}

func fieldTypeOf(t types.Type, name string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st.Field(i).Type()
			}
		}
	}
	return types.Typ[types.Invalid]
}
