package main

import (
	"dst/props/wheel"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C12", Quick: 400000, ThoroughS: 600, Real: wheel.Real, Stub: wheel.Stub, NoRace: true,
		Rule: "A workload is a wheel, a few actors adding, scheduling and stopping timers, and one actor that cancels the run at instants near expiries and runs the wheel again.",
		Scenarios: []*run.Scenario{
			run.New("wheel", 1, wheel.Gen(wheel.Shape{Stop: 0.3, Sched: 0.25, Late: 0.15, Cancel: 1}), wheel.Body(wheel.Checks{Cancel: true})),
		}})
}
