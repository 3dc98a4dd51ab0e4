package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated or undecided obligation.
type Finding struct {
	Key  string // rule + construct, stable under unrelated edits
	Pos  string
	Text string
}

// Result is what a check produced.
type Result struct {
	ID       string
	Rule     string
	Level    string
	Obl      int // obligations considered
	Findings []Finding
	Analysed map[string]int // counts of what was analysed
	Min      map[string]int // required minimum of the counts
	Samples  []string
	Assume   []string
	Trusted  []string
	Errors   []string // unresolved anchors: reported as findings
	Extra    map[string]any
}

func (r *Result) add(key, pos, format string, a ...any) {
	r.Findings = append(r.Findings, Finding{Key: key, Pos: pos, Text: fmt.Sprintf(format, a...)})
}

func (r *Result) count(name string, n int) {
	if r.Analysed == nil {
		r.Analysed = map[string]int{}
	}
	r.Analysed[name] += n
}

func (r *Result) min(name string, n int) {
	if r.Min == nil {
		r.Min = map[string]int{}
	}
	r.Min[name] = n
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	wd, _ := os.Getwd()
	return wd
}

type known struct{ prop, key, note string }

// loadKnown reads known-findings.txt: lines "known: property=<id> key=<key> -- note"; "fixed:" lines suppress nothing.
func loadKnown() []known {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		body, note, _ := strings.Cut(l, " -- ")
		body = strings.TrimPrefix(body, "property=")
		prop, key, ok := strings.Cut(body, " key=")
		if ok {
			out = append(out, known{prop, strings.TrimSpace(key), note})
		}
	}
	return out
}

func finish(res *Result, start time.Time, tier string) int {
	for name, m := range res.Min {
		if res.Analysed[name] < m {
			res.add("coverage:"+name, "", "only %d %s analysed, at least %d expected: the rule no longer sees the code it is about",
				res.Analysed[name], name, m)
		}
	}
	for _, e := range res.Errors {
		res.add("anchor:"+e, "", "unresolved: %s", e)
	}
	kn := loadKnown()
	var viol []Finding
	seen := map[string]bool{}
	knownSeen := 0
	for _, f := range res.Findings {
		k := f.Key + "|" + f.Pos + "|" + f.Text
		if seen[k] {
			continue
		}
		seen[k] = true
		isKnown := false
		for _, q := range kn {
			if q.prop == res.ID && q.key == f.Key {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s) %s\n", res.ID, f.Key, f.Pos, q.note)
				knownSeen++
				break
			}
		}
		if !isKnown {
			viol = append(viol, f)
		}
	}
	sort.Slice(viol, func(i, j int) bool {
		if viol[i].Pos != viol[j].Pos {
			return viol[i].Pos < viol[j].Pos
		}
		return viol[i].Key < viol[j].Key
	})
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation": res.Rule,
		"analysed":    res.Analysed,
		"obligations": res.Obl,
		"discharged":  res.Obl - len(viol) - knownSeen,
		"samples":     res.Samples,
	}
	if res.Level == "proof" {
		cov["checker_cmd"] = "bin/check " + res.ID
		cov["trusted_base"] = res.Trusted
	}
	for k, v := range res.Extra {
		cov[k] = v
	}
	if res.Obl-len(viol)-knownSeen < 0 {
		cov["discharged"] = 0
	}
	ev := map[string]any{
		"property": res.ID, "tier": tier, "seed": seed, "level": res.Level,
		"coverage": cov, "assumptions": res.Assume, "wall_s": time.Since(start).Seconds(),
		"violations": len(viol),
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, res.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 3
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d known=%d analysed=%v\n", res.ID, res.Obl, knownSeen, res.Analysed)
		return 0
	}
	rp := filepath.Join(dir, res.ID+".violations.txt")
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s: %s\n    key: %s\n", v.Pos, v.Text, v.Key)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range viol {
		if i >= 40 {
			fmt.Printf("... and %d more\n", len(viol)-i)
			break
		}
		fmt.Printf("%s: %s\n    key: %s\n", v.Pos, v.Text, v.Key)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", res.ID, rp)
	return 1
}
