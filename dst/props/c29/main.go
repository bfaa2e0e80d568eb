package main

import (
	"dst/props/misc"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C29", Quick: 400000, ThoroughS: 600, Stub: []string{"goroutine scheduler and clock", "math/rand global source (seeded per run)"}, NoRace: false,
		Real: []string{"help/utils/rand.go"},
		Rule: "A workload is up to four goroutines drawing up to four strings each, of several kinds and lengths, with a clock of coarse granularity, stepped forwards and backwards, and set to the same reading several times.",
		Scenarios: []*run.Scenario{
			run.New("rand", 1, misc.GenRand, misc.Rand),
		}})
}
