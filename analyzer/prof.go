package main

import (
	"os"
	"runtime/pprof"
)

func startProfile() func() {
	f := os.Getenv("CPUPROF")
	if f == "" {
		return func() {}
	}
	w, err := os.Create(f)
	if err != nil {
		return func() {}
	}
	_ = pprof.StartCPUProfile(w)
	return func() { pprof.StopCPUProfile(); w.Close() }
}
