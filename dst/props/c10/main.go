package main

import (
	"dst/props/wheel"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C10", Quick: 400000, ThoroughS: 600, Real: wheel.Real, Stub: wheel.Stub, NoRace: true,
		Rule: "A workload is a wheel and a few actors adding one-shot timers, most with one to three Stop calls aimed at the instants at which the timer is added, moved between levels, or run.",
		Scenarios: []*run.Scenario{
			run.New("wheel", 1, wheel.Gen(wheel.Shape{Stop: 0.85, Late: 0.1}), wheel.Body(wheel.Checks{Stops: true})),
		}})
}
