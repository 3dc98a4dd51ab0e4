package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

// checks maps property ids to their deciders.
var checks = map[string]func(r *Repo, tier string) *Result{}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vt <property> | vt dump <func>")
		os.Exit(2)
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	for _, a := range os.Args[2:] {
		if a == "--thorough" {
			tier = "thorough"
		}
	}
	id := os.Args[1]
	fn := checks[id]
	if fn == nil && id != "dump" {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	os.Exit(run(id, fn, start, tier))
}

func run(id string, fn func(r *Repo, tier string) *Result, start time.Time, tier string) (rc int) {
	res := &Result{ID: id, Level: "other", Rule: "load"}
	defer func() {
		if e := recover(); e != nil {
			// an analysis that cannot be completed decides nothing: it is reported, not skipped
			fmt.Printf("analysis failed: %v\n%s\n", e, debug.Stack())
			res.add("analysis-failed", "", "the analysis of the current tree could not be completed: %v", e)
			rc = finish(res, start, tier)
		}
	}()
	if id == "drive-json" {
		driveJSON(os.Args[2], os.Args[3:])
		return 0
	}
	if id == "lay-json" {
		layJSON(os.Args[2])
		return 0
	}
	if id == "drive" || id == "lay" {
		fn(nil, tier)
		return 0
	}
	r, err := Load()
	if err != nil {
		res.add("load-failed", "", "the current tree could not be loaded: %v", err)
		return finish(res, start, tier)
	}
	if id == "dump" {
		for _, f := range r.Funcs {
			if len(os.Args) > 2 && FName(f) == os.Args[2] {
				f.WriteTo(os.Stdout)
			} else if len(os.Args) == 2 {
				fmt.Println(FName(f))
			}
		}
		return 0
	}
	out := fn(r, tier)
	out.ID = id
	if out.Level == "" {
		out.Level = "other"
	}
	res = out
	return finish(res, start, tier)
}
