package main

import (
	"dst/props/boxes"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C35", Quick: 1000000, ThoroughS: 600, Stub: []string{"goroutine scheduler", "map iteration order"},
		Real: []string{"common/container (list, deque, stack, set, heap, pqueue, meap, reap, ringbuffer/unbounded)"},
		Rule: "A workload is one to four containers of any kind, each owned by one of up to four goroutines or shared by all of them under a read-write lock, with reads of a shared container running side by side.",
		Scenarios: []*run.Scenario{
			run.New("containers", 1, boxes.Gen, boxes.Body),
		}})
}
