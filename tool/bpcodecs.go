package main

// A rule on the types of codecs: each one is told apart where tracks are written and made where they are read.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// reach gives the functions called, directly or through literals, from the roots; methods called on an interface are
// looked for among the methods of the repository with that name.
func (r *Repo) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	byName := map[string][]*ssa.Function{}
	for _, f := range r.Funcs {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	work := roots
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == nil || seen[f] || !isRepoFn(f) && f.Pkg != nil {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						work = append(work, g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					work = append(work, byName[c.Common().Method.Name()]...)
				}
			}
		}
	}
	return seen
}

// codecRule requires that every type implementing the Codec interface of a package, other than those listed, is told apart by the
// functions reachable from the writer's entry points and made by those reachable from the reader's.
func codecRule(res *Result, r *Repo, prop, pkg string, skip map[string]bool, writers, readers []string) int {
	p := r.SPkg(pkg)
	if p == nil || p.Pkg.Scope().Lookup("Codec") == nil {
		res.add("codecs", "", "the codecs of %s were not found", pkg)
		return 0
	}
	iface, _ := p.Pkg.Scope().Lookup("Codec").Type().Underlying().(*types.Interface)
	entries := func(names []string) map[*ssa.Function]bool {
		var fs []*ssa.Function
		for _, n := range names {
			f := r.Func(n)
			if f == nil {
				res.add("entry:"+n, "", "%s was not found", n)
				continue
			}
			fs = append(fs, f)
		}
		return r.reach(fs...)
	}
	wr, rd := entries(writers), entries(readers)
	told, made := map[types.Type]string{}, map[types.Type]string{}
	named := func(t types.Type) types.Type {
		if pt, ok := types.Unalias(t).(*types.Pointer); ok {
			t = pt.Elem()
		}
		return types.Unalias(t)
	}
	for f := range wr {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.TypeAssert); ok {
					told[named(a.AssertedType)] = r.Pos(a.Pos())
				}
			}
		}
	}
	for f := range rd {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok {
					made[named(m.X.Type())] = r.Pos(m.Pos())
				}
			}
		}
	}
	n := 0
	for _, name := range p.Pkg.Scope().Names() {
		tn, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || skip[name] || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		if types.IsInterface(t) || iface == nil || !types.Implements(types.NewPointer(t), iface) && !types.Implements(t, iface) {
			continue
		}
		n++
		res.Obl += 2
		if told[t] == "" {
			res.add("unwritten:"+name, r.Pos(tn.Pos()), "no function reachable from %v tells codec %s apart: tracks of it cannot be written", writers, name)
		}
		if made[t] == "" {
			res.add("unread:"+name, r.Pos(tn.Pos()), "no function reachable from %v makes codec %s: tracks of it are never recognised", readers, name)
		}
	}
	res.count("codecs", n)
	return n
}

func init() {
	checks["C18"] = func(r *Repo, _ string) *Result {
		res := layCheck("C18", "Stated: what a writer announces and writes, with stand-ins in the place of the muxer and demuxer libraries, "+
			"is recognised by the reader as the same codec with the same parameters, and its handler receives the units and timestamps written. "+
			"In addition every codec type is told apart by the writer and made by the reader.", 23)
		codecRule(res, r, "C18", "formats/mpegts/codecs", map[string]bool{"Unsupported": true},
			[]string{"(*formats/mpegts.Writer).Initialize"}, []string{"(*formats/mpegts.Reader).Initialize"})
		res.min("codecs", 10)
		res.Trusted = append(res.Trusted, "go-astits: stand-ins model which part of a descriptor each tag carries and pass units through unchanged")
		return res
	}
	checks["C17"] = func(r *Repo, _ string) *Result {
		res := layCheck("C17", "Stated: an initialization segment or a presentation holding tracks of each codec, with any parameters that fit "+
			"their MP4 fields, is read back as the same tracks, with a stand-in for the box library that keeps of each box what its definition stores. "+
			"In addition every codec type is told apart by each writer and made by each reader.", 16)
		codecRule(res, r, "C17", "formats/mp4/codecs", nil,
			[]string{"(formats/fmp4.Init).Marshal"}, []string{"(*formats/fmp4.Init).Unmarshal"})
		codecRule(res, r, "C17", "formats/mp4/codecs", nil,
			[]string{"(formats/pmp4.Presentation).Marshal"}, []string{"(*formats/pmp4.Presentation).Unmarshal"})
		res.min("codecs", 28)
		res.Trusted = append(res.Trusted, "go-mp4: stand-ins model which fields of each box are stored, and deliver the boxes in the order they were written")
		return res
	}
	checks["C21"] = func(_ *Repo, _ string) *Result {
		return layCheck("C21", "Stated: with a source giving its bytes in parts of any size, none to three reads before the rewind and up to four "+
			"after it, with buffers of any size, return the bytes of the source in order and exactly once; a prefix above the limit is refused.", 6)
	}
	checks["C23"] = func(_ *Repo, _ string) *Result {
		return layCheck("C23", "Stated: from any state of the decoder, hence after any history, two timestamps decoded one after the other, less than "+
			"half a period apart, keep their signed distance; the first timestamp gives zero.", 4)
	}
	checks["C20"] = func(_ *Repo, _ string) *Result {
		return layCheck("C20", "Stated: every sample rate and channel configuration that is encoded is decoded to the same value, and every code that "+
			"is decoded is encoded to the same code.", 5)
	}
	checks["C24"] = func(_ *Repo, _ string) *Result {
		return layCheck("C24", "Stated: the values the accessors derive from the fields of a header equal the formulas and tables of the codec "+
			"specifications, for every value of these fields.", 8)
	}
	checks["C25"] = func(_ *Repo, _ string) *Result {
		res := layCheck("C25", "Stated: fragments and presentations with up to four samples per track (more where they differ in one respect), of "+
			"arbitrary payload, duration, composition offset and random access flag, are read back as the same samples, with a stand-in for the "+
			"box library that keeps of each box what its definition stores and places boxes and payloads in a file.", 17)
		res.Trusted = append(res.Trusted, "go-mp4: stand-ins model which fields of each box are stored and how long boxes are, and deliver them in the order they were written")
		return res
	}
}
