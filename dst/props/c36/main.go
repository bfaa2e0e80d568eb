package main

import (
	"dst/props/files"
	"dst/props/left"
	"dst/props/misc"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C36", Quick: 360000, ThoroughS: 600, Stub: append([]string{"timers and contexts", "process launcher"}, files.Stub...), NoRace: true,
		Real: []string{"common/timer", "help/utils/cmd.go", "help/utils/sys.go", "help/utils/files.go", "help/utils/zip.go", "help/utils/csv.go", "help/utils/breakpoint_continue.go"},
		Rule: "A workload is a delay queue with elements that overtake each other, takers and output channels cancelled at any instant, or a timing wheel with timers and runs cancelled and started again, or shell executions that fail in every way, or file helpers with failing file system calls.",
		Scenarios: []*run.Scenario{
			run.New("queue", 4, left.GenQueue, left.Queue),
			run.New("wheel", 4, left.GenWheel, left.Wheel),
			run.New("shell", 1, misc.GenShell, left.Shell),
			run.New("files", 1, files.GenHandles, left.Files),
		}})
}
