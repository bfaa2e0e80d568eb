package main

import (
	"dst/props/wheel"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C11", Quick: 400000, ThoroughS: 600, Real: wheel.Real, Stub: wheel.Stub, NoRace: true,
		Rule: "A workload is a wheel and a few actors adding recurring timers whose schedulers yield a few times, also past, equal or far ones, beside one-shot timers; some are stopped.",
		Scenarios: []*run.Scenario{
			run.New("wheel", 1, wheel.Gen(wheel.Shape{Stop: 0.4, Sched: 0.75, Late: 0.2}), wheel.Body(wheel.Checks{Sched: true})),
		}})
}
