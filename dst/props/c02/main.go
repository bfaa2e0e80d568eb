package main

import (
	"dst/props/lim"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C02", Quick: 500000, ThoroughS: 600, Real: []string{"common/limiter/leaky_bucket (whole package)"}, Stub: lim.Stub,
		Rule: "A workload is one to five concurrent callers making bursts of calls separated by waits around the whole seconds, with a fine or coarse clock.",
		Scenarios: []*run.Scenario{
			run.New("limiter", 1, lim.GenRate, lim.Leaky),
		}})
}
