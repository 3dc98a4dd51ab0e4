package main

// Termination: every loop needs quantities that move towards a bound. At the fixpoint, the body is executed once more from
// the states of the loop head with the values of the integer cells there recorded; on every way back to the head, a cell
// must have moved.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// finite bounds everything a loop may count to.
const finite = int64(1) << 52

// cells lists the integer quantities of a state at a loop head.
func (x *fexec) cells(e wElem, st *State) map[string]Lin {
	out := map[string]Lin{}
	var add func(name string, v Val, depth int)
	add = func(name string, v Val, depth int) {
		switch v := v.(type) {
		case VInt:
			out[name] = v.l
		case VBool:
			switch evalBool(st.num, v) {
			case 0:
				out[name+"?"] = K(0)
			case 1:
				out[name+"?"] = K(1)
			}
		case VSlice:
			out[name+"#"] = v.ln
		case VStr:
			out[name+"#"] = v.ln
		case VStruct:
			if depth > 0 {
				for i, f := range v.f {
					add(fmt.Sprintf("%s.%d", name, i), f, depth-1)
				}
			}
		}
	}
	for _, in := range e.b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v := st.top().vals[x.fi.num[p]]; v != nil {
			add("phi"+p.Name(), v, 1)
		}
	}
	for o, v := range st.mem {
		if objTab[o].summary || objTab[o].input {
			continue
		}
		if _, g := x.m.globals[o]; g {
			continue
		}
		add(fmt.Sprintf("o%d", o), v, 3)
	}
	if l, ok := st.ghost["reads"]; ok {
		out["reads"] = l
	}
	return out
}

func (x *fexec) rank(e wElem, H []keyed) {
	m := x.m
	at := e.b.Instrs[len(e.b.Instrs)-1]
	for _, in := range e.b.Instrs {
		if in.Pos().IsValid() {
			at = in
			break
		}
	}
	ok, detail := x.ranked(e, H)
	k := m.buf.loops[at]
	if k == nil {
		k = &obl{ok: true}
		m.buf.loops[at] = k
	}
	k.n++
	if !ok && k.ok {
		k.ok, k.detail, k.ctx = false, detail, x.ctx
	}
}

func (x *fexec) ranked(e wElem, H []keyed) (bool, string) {
	m := x.m
	// ranging over a map or a string is bounded by itself
	for _, in := range e.b.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true, ""
		}
	}
	pre := fmt.Sprintf("rk%d.%d:", x.ctx, e.b.Index)
	var G []keyed
	for _, h := range H {
		st := h.st.clone()
		if st.ghost == nil {
			st.ghost = map[string]Lin{}
		}
		for n, l := range x.cells(e, st) {
			st.ghost[pre+n] = l
		}
		G = append(G, keyed{h.key, st})
	}
	saved := m.buf
	m.buf = newBuffer()
	back, _ := x.pass(e, G)
	m.buf = saved
	var left []*State
	for _, b := range back {
		if !b.st.bot() {
			left = append(left, b.st)
		}
	}
	if len(left) == 0 {
		return true, ""
	}
	// lexicographic ranking
	type dir struct {
		name string
		up   bool
	}
	used := map[dir]bool{}
	for len(left) > 0 {
		cand := map[string]bool{}
		for n := range left[0].ghost {
			if s, ok := strings.CutPrefix(n, pre); ok {
				cand[s] = true
			}
		}
		var names []string
		for n := range cand {
			names = append(names, n)
		}
		sort.Strings(names)
		progress := false
	search:
		for _, n := range names {
			for _, up := range []bool{true, false} {
				if used[dir{n, up}] || used[dir{n, !up}] {
					continue
				}
				var rest []*State
				moved := false
				good := true
				for _, st := range left {
					g, ok1 := st.ghost[pre+n]
					now, ok2 := x.cells(e, st)[n]
					if !ok1 || !ok2 {
						good = false
						break
					}
					d, ok := now.sub(g)
					if !up {
						d, ok = g.sub(now)
					}
					if !ok || !st.num.prove(d) {
						good = false
						break
					}
					if st.num.prove(laddc(d, -1)) {
						// bounded
						r := st.num.rng(g)
						if up && n != "reads" && !(r.hi <= finite || st.num.prove(lsub(K(finite), g))) ||
							!up && !(r.lo >= -finite || st.num.prove(laddc(g, finite))) {
							good = false
							break
						}
						moved = true
					} else {
						rest = append(rest, st)
					}
				}
				if good && moved {
					used[dir{n, up}] = true
					left = rest
					progress = true
					break search
				}
			}
		}
		if !progress {
			break
		}
	}
	if len(left) == 0 {
		return true, ""
	}
	if m.trace {
		fmt.Println("unranked loop", FName(x.fi.fn), e.b.Index)
		for _, st := range left {
			c := x.cells(e, st)
			for n, g := range st.ghost {
				if s, ok := strings.CutPrefix(n, pre); ok {
					if !c[s].eq(g) {
						fmt.Println("   ", s, g.key(), "->", c[s].key(), st.num.rng(g), st.num.rng(c[s]))
					}
				}
			}
		}
	}
	return false, "no quantity of the loop moves towards a bound on every way back to its start"
}
