package main

// The checks decided by the layout analysis. Each driver is evaluated by a subprocess of this program (terms are interned in
// global tables); what the drivers state is put together here, by property.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type layOut struct {
	Name    string
	Fail    string
	Dur     float64
	Outs    int
	Steps   int
	Sums    int
	Asserts map[string]int
	Fns     []string
	Exts    []string
	Viols   []engObl
}

// layJSON evaluates one driver and prints what was found.
func layJSON(name string) {
	out := layOut{Name: name}
	go func() { // an analysis that grows without end decides nothing
		for range time.Tick(500 * time.Millisecond) {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 5<<30 {
				b, _ := json.Marshal(layOut{Name: name, Fail: "it grows without end"})
				fmt.Println("LAY-JSON " + string(b))
				os.Exit(0)
			}
		}
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				out.Fail = fmt.Sprint(e)
			}
		}()
		r, err := LoadLayout()
		if err != nil {
			panic(err)
		}
		fs := r.driverFns("^" + regexp.QuoteMeta(name) + "$")
		if len(fs) != 1 {
			panic("no driver " + name)
		}
		base, st := layInit(r)
		lr := layDriver(r, base, st, fs[0])
		out.Fail, out.Dur, out.Outs, out.Steps, out.Sums = lr.fail, lr.dur.Seconds(), lr.outs, lr.e.steps, lr.e.nsum
		out.Asserts = lr.e.asserts
		for f := range lr.e.fns {
			out.Fns = append(out.Fns, f)
		}
		out.Exts = sortedKeys(lr.e.exts)
		for _, v := range lr.viols {
			out.Viols = append(out.Viols, engObl{Pos: r.Pos(v.pos), Detail: v.msg, Path: v.path})
		}
	}()
	b, _ := json.Marshal(out)
	fmt.Println("LAY-JSON " + string(b))
}

type layJob struct {
	name string
	src  string
	msgs []string // what its text states, by property
}

var layMsg = regexp.MustCompile(`"(C\d\d [^"]*)"`)

// layJobs lists the drivers that state something about a property.
func layJobs(prop string) []layJob {
	var out []layJob
	rx := regexp.MustCompile(`(?m)^func ([A-Za-z0-9]+_?[A-Za-z0-9_]*)(\[[^\]]*\])?\(`)
	bodies := map[string]string{}
	var order []string
	es, _ := layoutFS.ReadDir("layout")
	for _, e := range es {
		b, _ := layoutFS.ReadFile("layout/" + e.Name())
		ix := rx.FindAllStringSubmatchIndex(string(b), -1)
		for i, m := range ix {
			end := len(b)
			if i+1 < len(ix) {
				end = ix[i+1][0]
			}
			n := string(b[m[2]:m[3]])
			bodies[n] = string(b[m[0]:end])
			order = append(order, n)
		}
	}
	word := regexp.MustCompile(`[A-Za-z0-9_]+`)
	noise := regexp.MustCompile(`(?m)//.*$|"[^"\n]*"`)
	var msgs func(n string, seen map[string]bool) []string
	msgs = func(n string, seen map[string]bool) []string {
		if seen[n] {
			return nil
		}
		seen[n] = true
		var out []string
		for _, m := range layMsg.FindAllStringSubmatch(bodies[n], -1) {
			if strings.HasPrefix(m[1], prop+" ") {
				out = append(out, m[1])
			}
		}
		for _, w := range word.FindAllString(noise.ReplaceAllString(bodies[n], ""), -1) {
			if bodies[w] != "" {
				out = append(out, msgs(w, seen)...)
			}
		}
		return out
	}
	for _, n := range order {
		if !regexp.MustCompile(`^[A-Z][A-Z0-9]*_`).MatchString(n) {
			continue
		}
		if m := msgs(n, map[string]bool{}); len(m) > 0 {
			out = append(out, layJob{name: n, msgs: m})
		}
	}
	return out
}

func runLayout(jobs []layJob, limit time.Duration) []layOut {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	outs := make([]layOut, len(jobs))
	sem := make(chan bool, max(2, runtime.NumCPU()))
	deadline := time.Now().Add(limit)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(self, "lay-json", j.name)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400")
			t := time.AfterFunc(time.Until(deadline), func() { _ = cmd.Process.Kill() })
			b, err := cmd.Output()
			t.Stop()
			outs[i] = layOut{Name: j.name, Fail: "no result"}
			for _, l := range strings.Split(string(b), "\n") {
				if s, ok := strings.CutPrefix(l, "LAY-JSON "); ok {
					var o layOut
					if json.Unmarshal([]byte(s), &o) == nil {
						outs[i] = o
					}
				}
			}
			if outs[i].Fail == "no result" && err != nil {
				outs[i].Fail = "the analysis did not finish: " + err.Error()
			}
		}()
	}
	wg.Wait()
	return outs
}

const layRule = "dataflow analysis of the SSA form of the code reachable from a driver for each structure, in a domain that " +
	"records where each bit of each value comes from (bit provenance) and linear expressions over the unknown fields and " +
	"lengths; paths are kept apart by the decisions the description leaves open, loops over collections of unknown length are summarised"

var layAssume = []string{
	"functions of the standard library and of dependencies do what their documentation says",
	"distinct inputs of a driver do not overlap in memory",
	"integers do not exceed 2^60 and collections 2^40 elements",
}

// layCheck builds the result of a property from what the drivers state about it.
func layCheck(prop, rule string, minJobs int) *Result {
	res := &Result{Rule: layRule + ". " + rule, Extra: map[string]any{}, Assume: layAssume}
	jobs := layJobs(prop)
	outs := runLayout(jobs, 500*time.Second)
	fns, exts := map[string]bool{}, map[string]bool{}
	var times []string
	for i, o := range outs {
		times = append(times, fmt.Sprintf("%s %.1fs", o.Name, o.Dur))
		if o.Fail != "" {
			res.Obl++
			res.add("undecided:"+o.Name, "", "the analysis of %s could not be completed: %s", o.Name, o.Fail)
			continue
		}
		res.count("paths", o.Outs)
		res.count("abstract steps", o.Steps)
		res.count("loops summarised", o.Sums)
		for _, f := range o.Fns {
			if !strings.HasPrefix(f, "internal/zzverif") {
				fns[f] = true
			}
		}
		for _, x := range o.Exts {
			exts[x] = true
		}
		bad := map[string]bool{}
		for _, v := range o.Viols {
			if !strings.HasPrefix(v.Detail, prop+" ") {
				continue
			}
			msg, _, _ := strings.Cut(strings.TrimPrefix(v.Detail, prop+" "), ": ")
			key := o.Name + "#" + msg
			if bad[key] {
				continue
			}
			bad[key] = true
			d := strings.TrimPrefix(v.Detail, prop+" ")
			if v.Path != "" {
				d += " [when " + v.Path + "]"
			}
			res.add(key, v.Pos, "%s (%s)", d, o.Name)
		}
		for _, m := range jobs[i].msgs {
			res.Obl++
			// a statement that no path reaches says nothing
			reached := o.Asserts[m]
			if strings.HasSuffix(m, " ") { // the rest of the message is computed
				for k, n := range o.Asserts {
					if strings.HasPrefix(k, m) {
						reached += n
					}
				}
			}
			if reached == 0 && !strings.HasSuffix(m, "?") {
				res.add("unreached:"+o.Name+"#"+m, "", "no path of %s reaches the statement %q: nothing is shown of it", o.Name, m)
			}
			res.count("statements on paths", reached)
			if len(res.Samples) < 40 {
				res.Samples = append(res.Samples, fmt.Sprintf("%s: %s (%d paths)", o.Name, strings.TrimPrefix(m, prop+" "), reached))
			}
		}
	}
	res.count("drivers", len(jobs))
	res.min("drivers", minJobs)
	res.count("functions", len(fns))
	res.Extra["functions analysed"] = sortedKeys(fns)
	sort.Strings(times)
	res.Extra["times"] = times
	if len(exts) > 0 {
		res.Extra["calls whose result is taken to be arbitrary"] = sortedKeys(exts)
	}
	return res
}

func init() {
	checks["lay-json"] = func(_ *Repo, _ string) *Result { return nil }
	checks["C05"] = func(_ *Repo, _ string) *Result {
		return layCheck("C05", "Stated: the bits written into each buffer follow one another from its first byte to its last, none outside.", 40)
	}
	checks["C19"] = func(_ *Repo, _ string) *Result {
		return layCheck("C19", "Stated: decoding what was encoded succeeds and gives every field every bit it had.", 30)
	}
}
