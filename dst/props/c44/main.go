package main

import (
	"dst/props/misc"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C44", Quick: 180000, ThoroughS: 600, Stub: []string{"goroutine scheduler", "clock (and with it the hash seeds)"},
		Real: []string{"common/filter/bloom/bloom.go"},
		Rule: "A workload is one to three filters made at different instants of a clock that may step, used by up to four goroutines under a read-write lock with queries side by side, or one filter filled to its capacity and asked for thousands of absent elements.",
		Scenarios: []*run.Scenario{
			run.New("shared", 20, misc.GenBloom, misc.Bloom),
			run.New("rate", 1, misc.GenBloomRate, misc.BloomRate),
		}})
}
