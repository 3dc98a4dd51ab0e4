package main

import (
	"os"
	"runtime/pprof"
	"time"
)

func startProf() func() {
	if p := os.Getenv("VT_PROF"); p != "" {
		f, err := os.Create(p)
		if err == nil {
			_ = pprof.StartCPUProfile(f)
			time.AfterFunc(60*time.Second, func() { pprof.StopCPUProfile(); os.Exit(9) })
			return func() { pprof.StopCPUProfile(); f.Close() }
		}
	}
	return func() {}
}
