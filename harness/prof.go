package main

import (
	"os"
	"runtime/pprof"
)

func init() {
	// prof ID TIER DIR FILE: run a worker under the CPU profiler (development aid)
	subcommands["prof"] = func(a []string) {
		f, _ := os.Create(a[3])
		pprof.StartCPUProfile(f)
		c := &Ctx{ID: a[0], Tier: a[1], Seed: seed(), Dir: a[2], distinct: map[uint64]struct{}{}, counts: map[string]int64{}, sampleKinds: map[string]int{}}
		checks[a[0]].run(c)
		pprof.StopCPUProfile()
	}
}
