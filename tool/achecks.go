package main

// The checks decided by the abstract interpreter: each group of drivers is analysed by subprocesses of this program (the
// tables of symbols and objects are global), and the obligations of all of them are put together here.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// engObl is an obligation as reported by a subprocess.
type engObl struct {
	Fn, Kind, Pos, Detail, Path string
	OK                          bool
}

type engOut struct {
	Name  string
	Fail  string
	Dur   float64
	Steps int
	Fns   []string
	Gaps  []string
	Exts  []string
	Obls  []engObl
	Loops []engObl
}

func init() {
	checks["drive-json"] = func(_ *Repo, tier string) *Result { return nil }
}

// driveJSON analyses one driver and prints what was found.
func driveJSON(name string, flags []string) {
	o := aOpts{}
	for _, f := range flags {
		switch f {
		case "-term":
			o.term = true
		case "-mem":
			o.mem = true
		case "-fill":
			o.fill = true
		case "-nobits":
			o.noBits = true
		case "-unroll":
			o.unroll = true
		}
	}
	out := engOut{Name: name}
	func() {
		defer func() {
			if e := recover(); e != nil {
				out.Fail = fmt.Sprint(e)
			}
		}()
		r, err := LoadDrivers()
		if err != nil {
			panic(err)
		}
		fs := r.driverFns("^" + regexp.QuoteMeta(name) + "$")
		if len(fs) != 1 {
			panic("no driver " + name)
		}
		is, _ := runInit(r)
		dr := runDriver(r, is, fs[0], o)
		out.Fail = dr.fail
		out.Dur = dr.dur.Seconds()
		out.Steps = dr.m.steps
		for f := range dr.m.buf.calls {
			out.Fns = append(out.Fns, FName(f))
		}
		for g := range dr.m.gaps {
			out.Gaps = append(out.Gaps, g)
		}
		out.Exts = dr.m.extNames()
		for k, b := range dr.m.buf.obls {
			e := engObl{Fn: FName(k.in.Parent()), Kind: k.kind, Pos: r.Pos(posOf(k.in)), OK: b.ok, Detail: b.detail}
			if !b.ok {
				e.Path = dr.m.ctxPath(b.ctx)
			}
			out.Obls = append(out.Obls, e)
		}
		for k, b := range dr.m.buf.loops {
			out.Loops = append(out.Loops, engObl{Fn: FName(k.Parent()), Kind: "loop", Pos: r.Pos(posOf(k)), OK: b.ok, Detail: b.detail})
		}
	}()
	b, _ := json.Marshal(out)
	fmt.Println("DRIVE-JSON " + string(b))
}

type driverJob struct {
	name  string
	flags []string
}

// engineJobs lists the drivers whose names match.
func engineJobs(re string, flags ...string) []driverJob {
	var out []driverJob
	rx := regexp.MustCompile(`(?m)^func ([A-Z]_[A-Za-z0-9_]*)\(`)
	sel := regexp.MustCompile(re)
	es, _ := driverFS.ReadDir("drivers")
	for _, e := range es {
		b, _ := driverFS.ReadFile("drivers/" + e.Name())
		for _, m := range rx.FindAllStringSubmatch(string(b), -1) {
			if sel.MatchString(m[1]) && !strings.HasPrefix(m[1], "I_") {
				out = append(out, driverJob{m[1], flags})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// runEngine analyses the drivers in parallel.
func runEngine(jobs []driverJob, limit time.Duration) []engOut {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	outs := make([]engOut, len(jobs))
	sem := make(chan bool, max(2, runtime.NumCPU()))
	var wg sync.WaitGroup
	deadline := time.Now().Add(limit)
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(self, append([]string{"drive-json", j.name}, j.flags...)...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400")
			t := time.AfterFunc(time.Until(deadline), func() { _ = cmd.Process.Kill() })
			b, err := cmd.Output()
			t.Stop()
			outs[i] = engOut{Name: j.name, Fail: "no result"}
			for _, l := range strings.Split(string(b), "\n") {
				if s, ok := strings.CutPrefix(l, "DRIVE-JSON "); ok {
					var o engOut
					if json.Unmarshal([]byte(s), &o) == nil {
						outs[i] = o
					}
				}
			}
			if outs[i].Fail == "no result" && err != nil {
				outs[i].Fail = "the analysis did not finish: " + err.Error()
			}
		}()
	}
	wg.Wait()
	return outs
}

// exclusion is a kind of obligation outside what a check claims, when reached from an entry point.
type exclusion struct {
	driver, kind string
	why          string
}

// outside lists the obligations the interpreter cannot discharge although they hold. "index*" and "slice*" are the accesses
// made by the AVCC parser after it has allocated its list of results: it reads again what its first pass has checked.
var outside = []exclusion{
	{"V_h264_avcc", "index*", "the last loop parses again what the first loop has checked"},
	{"V_h264_avcc", "slice*", "the last loop parses again what the first loop has checked"},
	{"A_mpeg4audio_ame", "make", "the payload length is a sum of bytes read before"},
}

func isOutside(driver, kind string) bool {
	for _, e := range outside {
		if e.driver == driver && e.kind == kind {
			return true
		}
	}
	return false
}

// engineCheck builds the result of a property from obligations of the given kinds.
func engineCheck(rule string, jobs []driverJob, kinds map[string]bool, prefix string, limit time.Duration) *Result {
	res := &Result{Rule: rule, Extra: map[string]any{}}
	outs := runEngine(jobs, limit)
	fns := map[string]bool{}
	type key struct{ fn, kind, pos string }
	type agg struct {
		ok     bool
		ob     engObl
		driver string
	}
	all := map[key]*agg{}
	excl := 0
	exts, gaps := map[string]bool{}, map[string]bool{}
	steps := 0
	var times []string
	for _, o := range outs {
		steps += o.Steps
		times = append(times, fmt.Sprintf("%s %.1fs", o.Name, o.Dur))
		if o.Fail != "" {
			res.add("undecided:"+o.Name, "", "the analysis of entry point %s could not be completed: %s", o.Name, o.Fail)
		}
		for _, f := range o.Fns {
			if !strings.HasPrefix(f, "internal/zzverif") {
				fns[f] = true
			}
		}
		for _, e := range o.Exts {
			exts[e] = true
		}
		for _, g := range o.Gaps {
			gaps[g] = true
		}
		if kinds["loop"] {
			for _, l := range o.Loops {
				if !strings.HasPrefix(l.Fn, "internal/zzverif") {
					o.Obls = append(o.Obls, l)
				}
			}
		}
		for _, b := range o.Obls {
			if b.Kind == "assert" {
				if prefix == "" || !strings.Contains(b.Detail, prefix) && !b.OK {
					continue
				}
			} else if isOutside(o.Name, b.Kind) && kinds[strings.TrimSuffix(b.Kind, "*")] {
				if !b.OK {
					excl++
					continue
				}
			} else if !kinds[b.Kind] {
				continue
			}
			b.Kind = strings.TrimSuffix(b.Kind, "*")
			k := key{b.Fn, b.Kind, b.Pos}
			a := all[k]
			if a == nil {
				a = &agg{ok: true}
				all[k] = a
			}
			if !b.OK && a.ok {
				a.ok, a.ob, a.driver = false, b, o.Name
			}
		}
	}
	var keys []key
	for k := range all {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].pos != keys[j].pos {
			return keys[i].pos < keys[j].pos
		}
		return keys[i].kind < keys[j].kind
	})
	perKind := map[string]int{}
	for _, k := range keys {
		a := all[k]
		res.Obl++
		perKind[k.kind]++
		if a.ok {
			continue
		}
		res.add(k.fn+"#"+k.kind, k.pos, "%s: %s [reached through %s <- %s]", k.fn, a.ob.Detail, a.ob.Path, a.driver)
	}
	res.count("entry points", len(jobs))
	res.count("functions", len(fns))
	res.count("abstract steps", steps)
	for k, n := range perKind {
		res.count("obligations: "+k, n)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	res.Extra["functions analysed"] = fl
	res.Extra["times"] = times
	if excl > 0 {
		res.Extra["excluded obligations"] = excl
	}
	if len(exts) > 0 {
		res.Extra["external functions assumed to return normally"] = sortedKeys(exts)
	}
	if len(gaps) > 0 {
		res.Extra["values modelled as arbitrary"] = sortedKeys(gaps)
	}
	for i, k := range keys {
		if i%max(1, len(keys)/12) == 0 && len(res.Samples) < 12 {
			res.Samples = append(res.Samples, fmt.Sprintf("%s %s at %s", k.fn, k.kind, k.pos))
		}
	}
	return res
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var panicKinds = map[string]bool{"index": true, "slice": true, "nil": true, "division": true, "shift": true, "make": true,
	"type assertion": true, "panic": true}

const engineRule = "abstract interpretation of the SSA form of every function reachable from the entry points, with arbitrary input: " +
	"integers as linear expressions over symbols with intervals and linear constraints, memory as objects with field and element contents; " +
	"loops by widening and narrowing; calls inlined"

var engineAssume = []string{
	"functions of the standard library and of dependencies return normally",
	"slices hold at most 2^47 elements and integers computed from them do not exceed 2^57",
	"lists of pointers supplied by the user contain no nil entries",
}

// bitsJobs enter the bit readers themselves, which the other drivers replace with their contracts.
func bitsJobs() []driverJob {
	return append(engineJobs("^B_(align|flags)", "-nobits", "-unroll", "-term"), engineJobs("^B_golomb", "-nobits", "-term")...)
}

func init() {
	checks["C01"] = func(_ *Repo, tier string) *Result {
		res := engineCheck(engineRule+"; obligations: every index, slice bound, nil dereference, division, shift, make, type assertion and panic",
			append(engineJobs("^[VD]_"), bitsJobs()...), panicKinds, "", 840*time.Second)
		res.Assume = append(engineAssume, "the second pass of the AVCC parser reads what its first pass has checked",
			"DTS extraction is analysed with arbitrary parameter sets in place of parsed ones")
		res.min("entry points", 18)
		res.min("functions", 40)
		return res
	}
	checks["C02"] = func(_ *Repo, tier string) *Result {
		res := engineCheck(engineRule+"; obligations: every index, slice bound, nil dereference, division, shift, make, type assertion and panic",
			append(engineJobs("^A_"), bitsJobs()...), panicKinds, "", 840*time.Second)
		res.Assume = append(engineAssume, "an AudioMuxElement is decoded with a configuration of one program with two layers",
			"the size of a LATM payload, a sum of bytes of the input, can be allocated")
		res.min("entry points", 12)
		res.min("functions", 20)
		return res
	}
	checks["C03"] = func(_ *Repo, tier string) *Result {
		res := engineCheck(engineRule+"; the demuxer of go-astits is replaced by one that reads from its source and returns arbitrary data of the shape go-astits returns; "+
			"readers are initialised, given one payload handler and read in a loop of any length; obligations: every index, slice bound, nil dereference, "+
			"division, shift, make, type assertion and panic",
			append(engineJobs("^T_"), bitsJobs()...), panicKinds, "", 840*time.Second)
		res.Assume = append(engineAssume, "go-astits does not panic, and returns PES data with a header and elementary streams that are not nil",
			"errors.As sets its target to an error whose interface fields are not nil",
			"payload handlers are analysed one at a time")
		res.min("entry points", 30)
		res.min("functions", 60)
		return res
	}
	checks["C04"] = func(r *Repo, tier string) *Result {
		res := engineCheck(engineRule+"; the box walk of go-mp4 is replaced by one that calls the handler with any sequence of boxes of any type and content, "+
			"of the Go type go-mp4 gives to each box type; the values of state variables shared with the handler keep states apart; "+
			"obligations: every index, slice bound, nil dereference, division, shift, make, type assertion and panic",
			engineJobs("^M_"), panicKinds, "", 840*time.Second)
		res.Assume = append(engineAssume, "go-mp4 does not panic, and returns boxes whose lists have the declared number of elements",
			"the codec boxes of a track are analysed apart from its other boxes, and codec parameters (C01, C02) apart from both",
			"GetPayload is called only when it is not nil")
		tail := expandTails(r, res)
		res.count("Expand calls followed only by a return", tail)
		res.min("entry points", 4)
		res.min("functions", 12)
		res.min("Expand calls followed only by a return", 10)
		return res
	}
	checks["C10"] = func(_ *Repo, tier string) *Result {
		res := engineCheck(engineRule+"; a sequence of calls of any length with arbitrary access units and timestamps; obligations: "+
			"after each successful extraction the DTS is not lower than that of the previous success, and not greater than the PTS "+
			"(for H.264, unless it is the previous DTS plus 90, as while the reordering depth is being learned)",
			engineJobs("^D_"), nil, "C10", 840*time.Second)
		res.Assume = append(engineAssume, "parameter sets are arbitrary, which includes every parsed one")
		res.min("obligations: assert", 4)
		return res
	}
	checks["C09"] = func(_ *Repo, tier string) *Result {
		res := engineCheck(engineRule+"; obligations: after each successful parse the number of units or samples is within its maximum. "+
			"The total size of AVCC units and of the prefix of a rewindable reader are decided by the layout analysis: "+layRule+".",
			engineJobs("^(V_h264_(annexb|avcc)|M_presentation)$"), nil, "C09", 840*time.Second)
		res.Assume = append(engineAssume, layAssume...)
		lay := layCheck("C09", "", 6)
		res.Obl += lay.Obl
		res.Findings = append(res.Findings, lay.Findings...)
		res.Samples = append(res.Samples, lay.Samples...)
		res.Errors = append(res.Errors, lay.Errors...)
		for k, n := range lay.Analysed {
			res.count("layout: "+k, n)
		}
		res.min("layout: drivers", 6)
		res.min("obligations: assert", 3)
		return res
	}
	checks["C07"] = func(_ *Repo, tier string) *Result {
		res := engineCheck(engineRule+"; obligations: at every make and append reachable from the parsers, the resulting length is at most "+
			"2^24 elements, or 16 times the size of the input or of a slice that exists, plus 4096; files have the size they report",
			engineJobs("^[VATM]_", "-mem"), map[string]bool{"mem-make": true, "mem-append": true}, "", 840*time.Second)
		res.Assume = append(engineAssume, "lists of byte slices grow by one unit cut from the input on each turn of a loop that consumes it (C08)",
			"the size of a LATM payload, a sum of bytes of the input, is at most 255 for each of them",
			"go-mp4 and go-astits allocate within bounds")
		res.min("obligations: mem-make", 20)
		res.min("obligations: mem-append", 10)
		return res
	}
	checks["C08"] = func(_ *Repo, tier string) *Result {
		res := engineCheck(engineRule+"; obligations: for every loop, integer quantities (cursors, counters, lengths) found by the analysis move towards "+
			"a bound on every way back to the loop head (lexicographic ranking)",
			append(engineJobs("^[VADTM]_", "-term"), bitsJobs()...), map[string]bool{"loop": true}, "", 840*time.Second)
		res.Assume = append(engineAssume, "streams and files supplied by the user are finite")
		res.min("obligations: loop", 30)
		return res
	}
	checks["C06"] = func(_ *Repo, tier string) *Result {
		kinds := map[string]bool{"loop": true}
		for k := range panicKinds {
			kinds[k] = true
		}
		res := engineCheck(engineRule+"; the bit readers are entered once for every width from 0 to 64 and every alignment, with an arbitrary buffer and position; "+
			"obligations: no panic site can be reached, the cursor advances by exactly the width and stays within the buffer, values are in range "+
			"(widths below 56), checked reads fail exactly when there is no space, loops terminate",
			bitsJobs(), kinds, "C06", 840*time.Second)
		res.Assume = append(engineAssume, "the range of values of 56 or more bits is not checked")
		res.min("entry points", 11)
		res.min("obligations: assert", 15)
		return res
	}
}

// expandTails checks that box handlers do nothing after expanding a box but return, which is what makes a tree of boxes
// equivalent to a sequence.
func expandTails(r *Repo, res *Result) int {
	n := 0
	for _, f := range r.Funcs {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.IsInvoke() {
					continue
				}
				u, ok := c.Call.Value.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(fa.X.Type().String(), amp4Path+".ReadHandle") || fieldName(fa.X.Type(), fa.Field) != "Expand" {
					continue
				}
				n++
				if !onlyReturns(b, i+1, 0) {
					res.add("C04:expand:"+FName(f), r.Pos(c.Pos()), "%s does something after expanding a box: not decidable here", FName(f))
				}
			}
		}
	}
	return n
}

func onlyReturns(b *ssa.BasicBlock, from, depth int) bool {
	for _, in := range b.Instrs[from:] {
		switch in.(type) {
		case *ssa.Extract, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.DebugRef, *ssa.Phi, *ssa.Return, *ssa.BinOp, *ssa.If, *ssa.Jump:
		case *ssa.Call:
			// wrapping the error
			if f := in.(*ssa.Call).Call.StaticCallee(); !makesError(f) {
				return false
			}
		default:
			switch in := in.(type) {
			case *ssa.Alloc, *ssa.IndexAddr, *ssa.Slice: // arguments of an error
				continue
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
					if _, ok := ia.X.(*ssa.Alloc); ok {
						continue
					}
				}
			}
			return false
		}
	}
	if depth > 6 {
		return false
	}
	for _, s := range b.Succs {
		if s.Index <= b.Index && s.Dominates(b) || !onlyReturns(s, 0, depth+1) {
			return false
		}
	}
	return true
}
