package main

import (
	"dst/props/lim"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C01", Quick: 500000, ThoroughS: 600, Real: []string{"common/limiter/fixed_window (whole package)"}, Stub: lim.Stub,
		Rule: "A workload is one to five concurrent callers making bursts of calls separated by waits around the window, with a fine or coarse clock.",
		Scenarios: []*run.Scenario{
			run.New("limiter", 1, lim.GenFixed, lim.Fixed),
		}})
}
