package main

// Field-sensitive, flow-insensitive inclusion-based points-to analysis over SSA.
// It is used by the effect checks: which stores may touch which memory.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pobj struct {
	id    int
	kind  string // "input", "alloc", "global", "func", "ext"
	label string
	typ   types.Type
	tag   string // for inputs: which parameter it is reachable from
	fn    *ssa.Function
	bind  []ssa.Value
	glob  *ssa.Global
	fills map[string]bool // input objects: lazily created children by path
}

type ploc struct {
	o    *pobj
	path string
}

type pnodeKey struct {
	v    any // ssa.Value, *pobj, retKey, ...
	path string
}

type retKey struct {
	fn *ssa.Function
	i  int
}

type pnode struct {
	pts map[ploc]bool
	// copy edges
	succ map[*pnode]bool
	// complex handlers run for each new loc
	hand []func(l ploc)
}

type writeEv struct {
	instr ssa.Instruction
	fn    *ssa.Function
	loc   ploc
	what  string
}

type pta struct {
	r       *Repo
	nodes   map[pnodeKey]*pnode
	objs    []*pobj
	objKey  map[any]*pobj
	work    []wl
	reached map[*ssa.Function]bool
	writes  []writeEv
	wseen   map[string]bool
	ext     map[string]bool // external callees met
	lazy    bool
}

type wl struct {
	n *pnode
	l ploc
}

func newPTA(r *Repo) *pta {
	return &pta{r: r, nodes: map[pnodeKey]*pnode{}, objKey: map[any]*pobj{}, reached: map[*ssa.Function]bool{},
		wseen: map[string]bool{}, ext: map[string]bool{}}
}

func (p *pta) node(v any, path string) *pnode {
	k := pnodeKey{v, path}
	n := p.nodes[k]
	if n == nil {
		n = &pnode{pts: map[ploc]bool{}, succ: map[*pnode]bool{}}
		p.nodes[k] = n
		if g, ok := v.(*ssa.Global); ok && path == "" {
			p.addLoc(n, ploc{p.obj(g, "global", g.RelString(nil), g.Type().(*types.Pointer).Elem()), ""})
			p.objKey[g].glob = g
		}
		if f, ok := v.(*ssa.Function); ok && path == "" {
			o := p.obj(f, "func", FName(f), f.Type())
			o.fn = f
			p.addLoc(n, ploc{o, ""})
		}
	}
	return n
}

func (p *pta) obj(key any, kind, label string, t types.Type) *pobj {
	if o := p.objKey[key]; o != nil {
		return o
	}
	o := &pobj{id: len(p.objs), kind: kind, label: label, typ: t}
	p.objs = append(p.objs, o)
	p.objKey[key] = o
	return o
}

func (p *pta) addLoc(n *pnode, l ploc) {
	if n.pts[l] {
		return
	}
	n.pts[l] = true
	p.work = append(p.work, wl{n, l})
}

func (p *pta) edge(from, to *pnode) {
	if from == to || from.succ[to] {
		return
	}
	from.succ[to] = true
	for l := range from.pts {
		p.addLoc(to, l)
	}
}

func (p *pta) handle(n *pnode, h func(l ploc)) {
	n.hand = append(n.hand, h)
	var cur []ploc
	for l := range n.pts {
		cur = append(cur, l)
	}
	for _, l := range cur {
		h(l)
	}
}

func (p *pta) solve() {
	for len(p.work) > 0 {
		w := p.work[len(p.work)-1]
		p.work = p.work[:len(p.work)-1]
		for i := 0; i < len(w.n.hand); i++ {
			w.n.hand[i](w.l)
		}
		for s := range w.n.succ {
			p.addLoc(s, w.l)
		}
	}
}

// leaves lists the pointer-like leaf paths inside a type.
func leaves(t types.Type) []string {
	var out []string
	var rec func(t types.Type, path string, depth int)
	rec = func(t types.Type, path string, depth int) {
		if depth > 8 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), path+"."+u.Field(i).Name(), depth+1)
			}
		case *types.Array:
			rec(u.Elem(), path+"[]", depth+1)
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				out = append(out, path)
			}
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			out = append(out, path)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				rec(u.At(i).Type(), path+fmt.Sprintf("#%d", i), depth+1)
			}
		}
	}
	rec(t, "", 0)
	return out
}

// fieldNode is the content node of an object; contents of input objects are created on demand.
func (p *pta) fieldNode(l ploc) *pnode {
	n := p.node(l.o, l.path)
	if (l.o.kind == "input" || l.o.kind == "ext") && l.o.fills == nil {
		l.o.fills = map[string]bool{}
	}
	return n
}

// inputObj makes an object of type t reachable from an entry parameter, filling its pointer leaves.
func (p *pta) inputObj(key any, t types.Type, tag string, depth int) *pobj {
	if o := p.objKey[key]; o != nil {
		return o
	}
	o := p.obj(key, "input", tag, t)
	o.tag = tag
	if depth > 7 {
		return o
	}
	p.fillInput(o, t, "", tag, depth)
	return o
}

type inKey struct {
	o    *pobj
	path string
}

func (p *pta) fillInput(o *pobj, t types.Type, base, tag string, depth int) {
	for _, lf := range leaves(t) {
		ft := leafType(t, lf)
		p.fillLeaf(p.node(o, base+lf), inKey{o, base + lf}, ft, tag+lf, depth)
	}
}

// fillLeaf points a node of pointer-like type ft at a fresh input object.
func (p *pta) fillLeaf(n *pnode, key any, ft types.Type, tag string, depth int) {
	if ft == nil {
		return
	}
	switch u := ft.Underlying().(type) {
	case *types.Pointer:
		c := p.inputObj(key, u.Elem(), tag, depth+1)
		p.addLoc(n, ploc{c, ""})
	case *types.Slice:
		c := p.inputObj(key, types.NewArray(u.Elem(), 0), tag, depth+1)
		p.addLoc(n, ploc{c, ""})
	case *types.Map:
		c := p.inputObj(key, ft, tag, depth+1)
		p.addLoc(n, ploc{c, ""})
	case *types.Interface:
		// one object per implementation of the interface in the repository
		for _, t := range p.implementations(u) {
			if pt, ok := t.(*types.Pointer); ok {
				c := p.inputObj([2]any{key, t.String()}, pt.Elem(), tag, depth+1)
				p.addLoc(n, ploc{c, ""})
			}
		}
	}
}

func (p *pta) implementations(it *types.Interface) []types.Type {
	var out []types.Type
	if it.NumMethods() == 0 {
		return nil
	}
	for _, sp := range p.r.SPkgs {
		for _, m := range sp.Members {
			if tm, ok := m.(*ssa.Type); ok {
				n, ok := tm.Type().(*types.Named)
				if !ok || n.TypeParams().Len() > 0 {
					continue
				}
				if _, isIface := n.Underlying().(*types.Interface); isIface {
					continue
				}
				pt := types.NewPointer(n)
				if types.Implements(n, it) {
					out = append(out, n, pt)
				} else if types.Implements(pt, it) {
					out = append(out, pt)
				}
			}
		}
	}
	return out
}

func leafType(t types.Type, path string) types.Type {
	for path != "" {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			rest := path[1:]
			name := rest
			if i := strings.IndexAny(rest, ".[#"); i >= 0 {
				name = rest[:i]
			}
			path = rest[len(name):]
			found := false
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					t = u.Field(i).Type()
					found = true
					break
				}
			}
			if !found {
				return nil
			}
		case *types.Array:
			if !strings.HasPrefix(path, "[]") {
				return nil
			}
			path = path[2:]
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

// val returns the node of an SSA value leaf.
func (p *pta) val(v ssa.Value, path string) *pnode { return p.node(v, path) }

func (p *pta) copyAll(from, to any, t types.Type) {
	for _, lf := range leaves(t) {
		p.edge(p.node(from, lf), p.node(to, lf))
	}
}

func (p *pta) write(in ssa.Instruction, l ploc, what string) {
	k := fmt.Sprintf("%p|%d|%s|%s", in, l.o.id, l.path, what)
	if p.wseen[k] {
		return
	}
	p.wseen[k] = true
	p.writes = append(p.writes, writeEv{in, in.Parent(), l, what})
}

// reach adds a function to the analysis.
func (p *pta) reach(f *ssa.Function) {
	if f == nil || p.reached[f] || f.Blocks == nil {
		return
	}
	p.reached[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			p.instr(f, in)
		}
	}
}

func (p *pta) instr(f *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		o := p.obj(in, "alloc", in.Comment, in.Type().(*types.Pointer).Elem())
		p.addLoc(p.node(in, ""), ploc{o, ""})
	case *ssa.MakeSlice:
		o := p.obj(in, "alloc", "make", types.NewArray(in.Type().Underlying().(*types.Slice).Elem(), 0))
		p.addLoc(p.node(in, ""), ploc{o, ""})
	case *ssa.MakeMap:
		o := p.obj(in, "alloc", "make", in.Type())
		p.addLoc(p.node(in, ""), ploc{o, ""})
	case *ssa.MakeChan:
		o := p.obj(in, "alloc", "make", in.Type())
		p.addLoc(p.node(in, ""), ploc{o, ""})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := p.obj(in, "func", FName(fn), in.Type())
		o.fn = fn
		p.addLoc(p.node(in, ""), ploc{o, ""})
		for i, b := range in.Bindings {
			p.copyAll(b, fn.FreeVars[i], b.Type())
		}
		p.reach(fn)
	case *ssa.MakeInterface:
		if isPtrLike(in.X.Type()) {
			p.edge(p.node(in.X, ""), p.node(in, ""))
		} else {
			o := p.obj(in, "alloc", "box", in.X.Type())
			p.addLoc(p.node(in, ""), ploc{o, ""})
			for _, lf := range leaves(in.X.Type()) {
				p.edge(p.node(in.X, lf), p.node(o, lf))
			}
		}
	case *ssa.TypeAssert:
		pre := ""
		if in.CommaOk {
			pre = "#0"
		}
		if isPtrLike(in.AssertedType) {
			p.edge(p.node(in.X, ""), p.node(in, pre))
		} else {
			lv := leaves(in.AssertedType)
			p.handle(p.node(in.X, ""), func(l ploc) {
				if l.path == "" && types.Identical(l.o.typ, in.AssertedType) {
					for _, lf := range lv {
						p.edge(p.node(l.o, lf), p.node(in, pre+lf))
					}
				}
			})
		}
	case *ssa.ChangeInterface:
		p.edge(p.node(in.X, ""), p.node(in, ""))
	case *ssa.ChangeType:
		p.copyAll(in.X, in, in.Type())
	case *ssa.Convert:
		if isPtrLike(in.Type()) {
			if isPtrLike(in.X.Type()) {
				p.edge(p.node(in.X, ""), p.node(in, ""))
			} else {
				o := p.obj(in, "alloc", "convert", in.Type())
				p.addLoc(p.node(in, ""), ploc{o, ""})
			}
		}
	case *ssa.SliceToArrayPointer:
		p.edge(p.node(in.X, ""), p.node(in, ""))
	case *ssa.Phi:
		for _, e := range in.Edges {
			p.copyAll(e, in, in.Type())
		}
	case *ssa.FieldAddr:
		fld := "." + fieldName(in.X.Type(), in.Field)
		dst := p.node(in, "")
		p.handle(p.node(in.X, ""), func(l ploc) {
			if !typeHasPath(l, fld) {
				return
			}
			p.addLoc(dst, ploc{l.o, l.path + fld})
		})
	case *ssa.Field:
		fld := "." + fieldName(in.X.Type(), in.Field)
		for _, lf := range leaves(in.Type()) {
			p.edge(p.node(in.X, fld+lf), p.node(in, lf))
		}
	case *ssa.IndexAddr:
		dst := p.node(in, "")
		p.handle(p.node(in.X, ""), func(l ploc) {
			if !typeHasPath(l, "[]") {
				return
			}
			p.addLoc(dst, ploc{l.o, l.path + "[]"})
		})
	case *ssa.Index:
		for _, lf := range leaves(in.Type()) {
			p.edge(p.node(in.X, "[]"+lf), p.node(in, lf))
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			pre := ""
			t := in.Type()
			if in.CommaOk {
				pre = "#0"
				t = in.Type().(*types.Tuple).At(0).Type()
			}
			p.handle(p.node(in.X, ""), func(l ploc) {
				for _, lf := range leaves(t) {
					p.edge(p.node(l.o, l.path+"{}"+lf), p.node(in, pre+lf))
				}
			})
		}
	case *ssa.Slice:
		p.edge(p.node(in.X, ""), p.node(in, ""))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			lv := leaves(in.Type())
			if len(lv) == 0 {
				return
			}
			p.handle(p.node(in.X, ""), func(l ploc) {
				for _, lf := range lv {
					p.edge(p.fieldNode(ploc{l.o, l.path + lf}), p.node(in, lf))
				}
			})
		case token.ARROW:
		}
	case *ssa.Store:
		lv := leaves(in.Val.Type())
		p.handle(p.node(in.Addr, ""), func(l ploc) {
			p.write(in, l, "store")
			for _, lf := range lv {
				p.edge(p.node(in.Val, lf), p.fieldNode(ploc{l.o, l.path + lf}))
			}
		})
	case *ssa.MapUpdate:
		lv := leaves(in.Value.Type())
		p.handle(p.node(in.Map, ""), func(l ploc) {
			p.write(in, l, "map update")
			for _, lf := range lv {
				p.edge(p.node(in.Value, lf), p.node(l.o, l.path+"{}"+lf))
			}
		})
	case *ssa.Extract:
		pre := fmt.Sprintf("#%d", in.Index)
		for _, lf := range leaves(in.Type()) {
			p.edge(p.node(in.Tuple, pre+lf), p.node(in, lf))
		}
	case *ssa.Range:
		p.edge(p.node(in.X, ""), p.node(in, ""))
	case *ssa.Next:
		if !in.IsString {
			tt := in.Type().(*types.Tuple)
			p.handle(p.node(in.Iter, ""), func(l ploc) {
				for _, lf := range leaves(tt.At(2).Type()) {
					p.edge(p.node(l.o, l.path+"{}"+lf), p.node(in, "#2"+lf))
				}
			})
		}
	case *ssa.Return:
		for i, rv := range in.Results {
			for _, lf := range leaves(rv.Type()) {
				p.edge(p.node(rv, lf), p.node(retKey{f, i}, lf))
			}
		}
	case *ssa.Call:
		p.call(f, in, in)
	case *ssa.Defer:
		p.call(f, in, nil)
	case *ssa.Go:
		p.call(f, in, nil)
	}
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// typeHasPath filters locations whose object cannot have the requested sub-path.
func typeHasPath(l ploc, sub string) bool {
	if l.o.typ == nil {
		return true
	}
	t := l.o.typ
	return leafType(t, l.path+sub) != nil
}

func (p *pta) bindCall(call ssa.CallInstruction, fn *ssa.Function, args []ssa.Value, val *ssa.Call) {
	p.reach(fn)
	for i, a := range args {
		if i < len(fn.Params) {
			p.copyAll(a, fn.Params[i], a.Type())
		}
	}
	if val != nil {
		res := fn.Signature.Results()
		if res.Len() == 1 {
			for _, lf := range leaves(res.At(0).Type()) {
				p.edge(p.node(retKey{fn, 0}, lf), p.node(val, lf))
			}
		} else {
			for i := 0; i < res.Len(); i++ {
				for _, lf := range leaves(res.At(i).Type()) {
					p.edge(p.node(retKey{fn, i}, lf), p.node(val, fmt.Sprintf("#%d", i)+lf))
				}
			}
		}
	}
}

func (p *pta) call(f *ssa.Function, ci ssa.CallInstruction, val *ssa.Call) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		p.builtin(ci, b.Name(), cc.Args, val)
		return
	}
	if cc.IsInvoke() {
		m := cc.Method
		p.handle(p.node(cc.Value, ""), func(l ploc) {
			if l.o.typ == nil || l.path != "" {
				return
			}
			for _, rt := range []types.Type{types.NewPointer(l.o.typ), l.o.typ} {
				sel := p.r.Prog.MethodSets.MethodSet(rt).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				mf := p.r.Prog.MethodValue(sel)
				if mf == nil || mf.Blocks == nil {
					continue
				}
				p.reach(mf)
				if len(mf.Params) > 0 {
					if _, ok := mf.Params[0].Type().Underlying().(*types.Pointer); ok {
						p.addLoc(p.node(mf.Params[0], ""), l)
					} else {
						for _, lf := range leaves(mf.Params[0].Type()) {
							p.edge(p.node(l.o, lf), p.node(mf.Params[0], lf))
						}
					}
				}
				args := append([]ssa.Value{nil}, cc.Args...)
				for i, a := range args {
					if a != nil && i < len(mf.Params) {
						p.copyAll(a, mf.Params[i], a.Type())
					}
				}
				if val != nil {
					p.bindRes(mf, val)
				}
				break
			}
		})
		p.external(ci, "("+cc.Value.Type().String()+")."+m.Name(), cc.Args, val)
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		if fn.Blocks != nil {
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				_ = mc
			}
			p.bindCall(ci, fn, cc.Args, val)
			return
		}
		name := fn.RelString(nil)
		if fn.Origin() != nil {
			name = fn.Origin().RelString(nil)
		}
		p.external(ci, name, cc.Args, val)
		return
	}
	// dynamic
	p.handle(p.node(cc.Value, ""), func(l ploc) {
		if l.o.fn != nil {
			if l.o.fn.Blocks != nil {
				p.bindCall(ci, l.o.fn, cc.Args, val)
			}
		}
	})
}

func (p *pta) bindRes(fn *ssa.Function, val *ssa.Call) {
	res := fn.Signature.Results()
	if res.Len() == 1 {
		for _, lf := range leaves(res.At(0).Type()) {
			p.edge(p.node(retKey{fn, 0}, lf), p.node(val, lf))
		}
	} else {
		for i := 0; i < res.Len(); i++ {
			for _, lf := range leaves(res.At(i).Type()) {
				p.edge(p.node(retKey{fn, i}, lf), p.node(val, fmt.Sprintf("#%d", i)+lf))
			}
		}
	}
}

func fullSlice(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			if x.Max != nil && x.High != nil {
				if x.Max == x.High {
					return true
				}
				a, ok1 := x.Max.(*ssa.Const)
				b, ok2 := x.High.(*ssa.Const)
				if ok1 && ok2 && a.Int64() == b.Int64() {
					return true
				}
			}
			return false
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
}

func (p *pta) builtin(ci ssa.CallInstruction, name string, args []ssa.Value, val *ssa.Call) {
	in := ci.(ssa.Instruction)
	switch name {
	case "append":
		s := args[0]
		et := s.Type().Underlying().(*types.Slice).Elem()
		o := p.obj(in, "alloc", "append", types.NewArray(et, 0))
		lv := leaves(et)
		if val != nil {
			p.addLoc(p.node(val, ""), ploc{o, ""})
			p.edge(p.node(s, ""), p.node(val, ""))
		}
		p.handle(p.node(s, ""), func(l ploc) {
			for _, lf := range lv {
				p.edge(p.fieldNode(ploc{l.o, l.path + "[]" + lf}), p.node(o, "[]"+lf))
			}
			if !fullSlice(s) && len(args) > 1 {
				p.write(in, ploc{l.o, l.path + "[]"}, "append beyond length")
			}
		})
		if len(args) > 1 {
			e := args[1]
			p.handle(p.node(e, ""), func(l ploc) {
				for _, lf := range lv {
					src := p.fieldNode(ploc{l.o, l.path + "[]" + lf})
					p.edge(src, p.node(o, "[]"+lf))
					p.handle(p.node(s, ""), func(d ploc) {
						p.edge(src, p.fieldNode(ploc{d.o, d.path + "[]" + lf}))
					})
				}
			})
		}
	case "copy":
		d, s := args[0], args[1]
		et, ok := d.Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		lv := leaves(et.Elem())
		p.handle(p.node(d, ""), func(l ploc) {
			p.write(in, ploc{l.o, l.path + "[]"}, "copy")
			for _, lf := range lv {
				lf := lf
				p.handle(p.node(s, ""), func(sl ploc) {
					p.edge(p.fieldNode(ploc{sl.o, sl.path + "[]" + lf}), p.fieldNode(ploc{l.o, l.path + "[]" + lf}))
				})
			}
		})
	case "clear", "delete":
		p.handle(p.node(args[0], ""), func(l ploc) { p.write(in, l, name) })
	}
}

// extWrites lists external callees that write through an argument: name -> argument indexes.
func extWrites(name string) []int {
	switch {
	case strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, ").PutUint"):
		return []int{1, 0}
	case strings.Contains(name, "encoding/binary") && strings.Contains(name, "PutUint"),
		strings.HasPrefix(name, "encoding/binary.Put"):
		return []int{0, 1}
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return []int{1}
	case strings.HasSuffix(name, ").Read") && !strings.HasPrefix(name, "("+modPath):
		return []int{0, 1}
	case strings.HasSuffix(name, ").ReadAt"), strings.HasSuffix(name, ").Peek"):
		return []int{0, 1}
	case name == "crypto/rand.Read", name == "math/rand.Read":
		return []int{0}
	case strings.HasPrefix(name, "sort."):
		if strings.HasPrefix(name, "sort.Search") || strings.Contains(name, "AreSorted") || strings.Contains(name, "IsSorted") {
			return nil
		}
		return []int{0}
	case strings.HasPrefix(name, "slices."):
		for _, w := range []string{"Sort", "Reverse", "Delete", "Insert", "Compact", "Replace", "Grow"} {
			if strings.HasPrefix(name, "slices."+w) {
				return []int{0}
			}
		}
	case strings.HasPrefix(name, "encoding/hex.Decode") && !strings.Contains(name, "String"),
		strings.HasPrefix(name, "encoding/hex.Encode") && !strings.Contains(name, "String"):
		return []int{0}
	case name == "bytes.NewBuffer":
		return nil
	case strings.HasPrefix(name, "maps."):
		if name == "maps.Copy" || name == "maps.DeleteFunc" || name == "maps.Insert" {
			return []int{0}
		}
	}
	return nil
}

func (p *pta) external(ci ssa.CallInstruction, name string, args []ssa.Value, val *ssa.Call) {
	in := ci.(ssa.Instruction)
	p.ext[name] = true
	ws := extWrites(name)
	for _, i := range ws {
		if i >= len(args) {
			continue
		}
		if !isPtrLike(args[i].Type()) {
			continue
		}
		p.handle(p.node(args[i], ""), func(l ploc) {
			p.write(in, ploc{l.o, l.path + "[]"}, "written by "+name)
		})
	}
	// function arguments may be called with anything reachable from the other arguments
	for _, a := range args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			p.handle(p.node(a, ""), func(l ploc) {
				if l.o.fn == nil {
					return
				}
				p.reach(l.o.fn)
				for _, prm := range l.o.fn.Params {
					for _, b := range args {
						if isPtrLike(b.Type()) && isPtrLike(prm.Type()) {
							if bs, ok := b.Type().Underlying().(*types.Slice); ok {
								if types.Identical(bs.Elem(), prm.Type()) {
									p.handle(p.node(b, ""), func(bl ploc) {
										p.edge(p.fieldNode(ploc{bl.o, bl.path + "[]"}), p.node(prm, ""))
									})
									continue
								}
							}
							if types.Identical(b.Type(), prm.Type()) {
								p.edge(p.node(b, ""), p.node(prm, ""))
							}
						}
					}
				}
			})
		}
	}
	if val == nil {
		return
	}
	// results may alias arguments
	for _, lf := range leaves(val.Type()) {
		for _, a := range args {
			if !isPtrLike(a.Type()) {
				continue
			}
			rt := leafTypeRes(val.Type(), lf)
			if rt != nil && !mayAliasType(rt, a.Type()) {
				continue
			}
			p.edge(p.node(a, ""), p.node(val, lf))
		}
	}
}

func leafTypeRes(t types.Type, lf string) types.Type {
	if tt, ok := t.(*types.Tuple); ok {
		if strings.HasPrefix(lf, "#") {
			i := int(lf[1] - '0')
			if i < tt.Len() {
				return leafType(tt.At(i).Type(), lf[2:])
			}
		}
		return nil
	}
	return leafType(t, lf)
}

func mayAliasType(rt, at types.Type) bool {
	if types.Identical(rt, types.Universe.Lookup("error").Type()) {
		return false
	}
	switch rt.Underlying().(type) {
	case *types.Slice:
		return types.Identical(rt.Underlying(), at.Underlying())
	}
	return true
}
