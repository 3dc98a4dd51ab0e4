package main

// Drivers: where the abstract interpreter starts.

import (
	"embed"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed drivers/*.go.txt
var driverFS embed.FS

// LoadDrivers loads the repository together with the driver package.
func LoadDrivers() (*Repo, error) { return loadWith(driverFS, "drivers") }

func loadWith(fs embed.FS, sub string, extra ...string) (*Repo, error) {
	dir := repoDir()
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	overlay := map[string][]byte{}
	es, err := fs.ReadDir(sub)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		b, err := fs.ReadFile(sub + "/" + e.Name())
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(dir, "internal/zzverif", strings.TrimSuffix(e.Name(), ".txt"))] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, append([]string{"./...", driverPkg}, extra...)...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Repo{Dir: dir, Fset: prog.Fset, Pkgs: pkgs, Prog: prog, SPkgs: spkgs}
	r.invs = map[string]*ssa.Function{}
	for _, p := range spkgs {
		if p == nil || p.Pkg.Path() != driverPkg {
			continue
		}
		for n, mb := range p.Members {
			if f, ok := mb.(*ssa.Function); ok && strings.HasPrefix(n, "I_") {
				r.invs[f.Params[0].Type().String()] = f
			}
			if f, ok := mb.(*ssa.Function); ok && strings.HasPrefix(n, "Cut_") {
				if r.cuts == nil {
					r.cuts = map[string]*ssa.Function{}
				}
				r.cuts[cutTable[n]] = f
			}
		}
	}
	return r, nil
}

func (r *Repo) driverFns(re string) []*ssa.Function {
	rx := regexp.MustCompile(re)
	var out []*ssa.Function
	for _, p := range r.SPkgs {
		if p.Pkg.Path() != driverPkg {
			continue
		}
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.Contains(n, "_") && !strings.HasPrefix(n, "I_") && !strings.HasPrefix(n, "Cut_") && n != "any_" && n != "some_" && rx.MatchString(n) {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// cutTable names the functions that a driver may replace with a description of what they return.
var cutTable = map[string]string{
	"Cut_mux_new":  "github.com/asticode/go-astits.NewMuxer",
	"Cut_mux_add":  "(*github.com/asticode/go-astits.Muxer).AddElementaryStream",
	"Cut_mux_pcr":  "(*github.com/asticode/go-astits.Muxer).SetPCRPID",
	"Cut_mux_data": "(*github.com/asticode/go-astits.Muxer).WriteData",
	"Cut_dem_new":  "github.com/asticode/go-astits.NewDemuxer",
	"Cut_dem_next": "(*github.com/asticode/go-astits.Demuxer).NextData",

	"Cut_w_new":     "github.com/abema/go-mp4.NewWriter",
	"Cut_w_start":   "(*github.com/abema/go-mp4.Writer).StartBox",
	"Cut_w_end":     "(*github.com/abema/go-mp4.Writer).EndBox",
	"Cut_w_seek":    "(*github.com/abema/go-mp4.Writer).Seek",
	"Cut_w_marshal": "github.com/abema/go-mp4.Marshal",
	"Cut_sb_seek":   "(*formats/fmp4/seekablebuffer.Buffer).Seek",
	"Cut_sb_bytes":  "(*bytes.Buffer).Bytes",
	"Cut_read_full": "io.ReadFull",
	"Cut_supported": "(*github.com/abema/go-mp4.BoxInfo).IsSupportedType",

	"Cut_h264_sps":    "(*codecs/h264.SPS).Unmarshal",
	"Cut_h265_sps":    "(*codecs/h265.SPS).Unmarshal",
	"Cut_astits_new":  "github.com/asticode/go-astits.NewDemuxer",
	"Cut_astits_next": "(*github.com/asticode/go-astits.Demuxer).NextData",
	"Cut_track":       "(*formats/mpegts.Track).unmarshal",
	"Cut_h265_pps":    "(*codecs/h265.PPS).Unmarshal",

	"Cut_marks_index":  "bytes.Index",
	"Cut_bytes_reader": "bytes.NewReader",
	"Cut_mp4_walk":     "github.com/abema/go-mp4.ReadBoxStructure",
	"Cut_codec_read":   "(*internal/mp4.CodecBoxesReader).Read",
	"Cut_av1_header":   "(*codecs/av1.SequenceHeader).Unmarshal",
	"Cut_audio_config": "(*codecs/mpeg4audio.AudioSpecificConfig).Unmarshal",
	"Cut_mp4_type":     "(github.com/abema/go-mp4.BoxType).String",
}

// driverCuts are the replacements used by each group of drivers.
var driverCuts = map[string][]string{
	"T_":             {"Cut_astits_new", "Cut_astits_next"},
	"T_handlers":     {"Cut_track"},
	"M_codec":        {"Cut_h264_sps", "Cut_h265_sps", "Cut_av1_header", "Cut_audio_config"},
	"M_init":         {"Cut_codec_read"},
	"M_presentation": {"Cut_codec_read"},
	"M_":             {"Cut_bytes_reader", "Cut_mp4_walk", "Cut_mp4_type"},
	"D_":             {"Cut_h264_sps", "Cut_h265_sps", "Cut_h265_pps"},
}

// base state after package initialisation
type initState struct {
	globals map[ObjID]Val
}

func runInit(r *Repo) (*initState, *Mach) {
	m := newMach(r)
	m.inInit = true
	st := &State{m: m, mem: map[ObjID]Val{}, num: newNum(), memo: map[string]Lin{}}
	// a frame below everything
	var root *ssa.Function
	for _, p := range r.SPkgs {
		if p.Pkg.Path() == driverPkg {
			root = p.Func("init")
		}
	}
	fi := m.fnInfo(root)
	st.fr = []*Frame{{fi: &fnInfo{fn: root, num: map[ssa.Value]int{}}, vals: nil, own: st}, {fi: fi, vals: make([]Val, fi.n), own: st}}
	outs := m.run(fi, 0, st)
	if len(outs) == 0 {
		panic("package initialisation has no normal outcome")
	}
	s := outs[0].st
	for _, o := range outs[1:] {
		s, _, _ = joinStates(m, s, o.st, false)
	}
	is := &initState{globals: map[ObjID]Val{}}
	for o, v := range m.globals {
		is.globals[o] = v
	}
	for o, v := range s.mem {
		is.globals[o] = v
	}
	return is, m
}

type driverRun struct {
	name string
	m    *Mach
	dur  time.Duration
	fail string
}

type aOpts struct {
	term, mem, fill, noBits, unroll, trace bool
}

func init() { debug.SetGCPercent(400) }

func runDriver(r *Repo, is *initState, f *ssa.Function, o aOpts) (dr *driverRun) {
	m := newMach(r)
	for k, v := range is.globals {
		m.globals[k] = v
	}
	m.cutNames = map[string]bool{}
	for pre, l := range driverCuts {
		if strings.HasPrefix(f.Name(), pre) {
			for _, c := range l {
				m.cutNames[c] = true
			}
		}
	}
	m.driver = f.Name()
	m.pastMake = f.Name() == "V_h264_avcc"
	m.sticky = strings.HasPrefix(f.Name(), "D_")
	if strings.HasPrefix(f.Name(), "T_") {
		m.maxKeys = 26
	}
	if strings.HasPrefix(f.Name(), "M_") {
		m.maxKeys = 26
		m.cellKeys = true
	}
	if k := os.Getenv("VT_KEYS"); k != "" {
		fmt.Sscan(k, &m.maxKeys)
	}
	if k := os.Getenv("VT_NL"); k != "" {
		fmt.Sscan(k, &m.nameLen)
	}
	m.traceFn = os.Getenv("VT_FN")
	m.checkTerm, m.checkMem, m.checkFill, m.noBits, m.unroll, m.trace = o.term, o.mem, o.fill, o.noBits, o.unroll, o.trace
	dr = &driverRun{name: f.Name(), m: m}
	t0 := time.Now()
	defer func() {
		dr.dur = time.Since(t0)
		if e := recover(); e != nil {
			dr.fail = fmt.Sprint(e)
			if m.trace || os.Getenv("VT_STACK") != "" {
				fmt.Println(string(debug.Stack()))
			}
		}
	}()
	st := &State{m: m, mem: map[ObjID]Val{}, num: newNum(), memo: map[string]Lin{}}
	if o.term {
		st.ghost = map[string]Lin{"reads": K(0)}
	}
	fi := m.fnInfo(f)
	st.fr = []*Frame{{fi: &fnInfo{fn: f, num: map[ssa.Value]int{}}, vals: nil, own: st}, {fi: fi, vals: make([]Val, fi.n), own: st}}
	if o.mem {
		m.inTotal(st)
	}
	m.run(fi, 0, st)
	for _, e := range m.errs {
		dr.fail = e
	}
	return dr
}

func init() {
	checks["drive"] = func(_ *Repo, tier string) *Result {
		re := ".*"
		o := aOpts{}
		for _, a := range os.Args[2:] {
			switch a {
			case "-t":
				o.trace = true
			case "-term":
				o.term = true
			case "-mem":
				o.mem = true
			case "-fill":
				o.fill = true
			case "-nobits":
				o.noBits = true
			case "-unroll":
				o.unroll = true
			default:
				re = a
			}
		}
		r, err := LoadDrivers()
		if err != nil {
			panic(err)
		}
		t0 := time.Now()
		defer startProf()()
		is, im := runInit(r)
		fmt.Printf("init %.2fs globals %d gaps %v\n", time.Since(t0).Seconds(), len(is.globals), im.gaps)
		res := &Result{Rule: "drive"}
		for _, f := range r.driverFns(re) {
			dr := runDriver(r, is, f, o)
			bad := 0
			var ks []oblKey
			for k, b := range dr.m.buf.obls {
				if !b.ok {
					bad++
					ks = append(ks, k)
				}
			}
			for k, b := range dr.m.buf.loops {
				if !b.ok {
					bad++
					fmt.Printf("   LOOP %s: %s %s\n", r.Pos(posOf(k)), FName(k.Parent()), b.detail)
				}
			}
			fmt.Printf("%-28s %6.2fs steps=%d obl=%d bad=%d loops=%d fns=%d syms=%d %s\n", dr.name, dr.dur.Seconds(), dr.m.steps, len(dr.m.buf.obls), bad, len(dr.m.buf.loops), len(dr.m.buf.calls), len(symTab), dr.fail)
			sort.Slice(ks, func(i, j int) bool { return posOf(ks[i].in) < posOf(ks[j].in) })
			for _, k := range ks {
				b := dr.m.buf.obls[k]
				fmt.Printf("   %s: %s %s: %s  [%s]\n", r.Pos(posOf(k.in)), FName(k.in.Parent()), k.kind, b.detail, dr.m.ctxPath(b.ctx))
			}
			if len(dr.m.gaps) > 0 {
				fmt.Printf("   gaps %v\n", dr.m.gaps)
			}
			if len(dr.m.exts) > 0 && o.trace {
				fmt.Printf("   ext %v\n", dr.m.extNames())
			}
		}
		return res
	}
}

var _ = types.Identical
