package main

import (
	"dst/props/wheel"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C13", Quick: 400000, ThoroughS: 600, Stub: wheel.Stub, NoRace: true,
		Real: append([]string{"common/timer/delayqueue (whole package)"}, wheel.Real...),
		Rule: "A workload is a wheel with timers from now to 40 days ahead, or a delay queue with such elements and waiting takers, and pauses of up to a month.",
		Scenarios: []*run.Scenario{
			run.New("idle-wheel", 1, wheel.GenIdleWheel, wheel.IdleWheel),
			run.New("idle-queue", 1, wheel.GenIdleQueue, wheel.IdleQueue),
		}})
}
