package main

import (
	"dst/props/lim"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C05", Quick: 500000, ThoroughS: 600, Real: []string{"common/limiter/sliding_log (whole package)"}, Stub: lim.Stub,
		Rule: "A workload is one to five concurrent callers making bursts of calls separated by waits around the windows and small windows, with a fine or coarse clock.",
		Scenarios: []*run.Scenario{
			run.New("limiter", 1, lim.GenLogs, lim.Logs),
		}})
}
