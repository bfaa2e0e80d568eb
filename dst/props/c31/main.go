package main

import (
	"dst/props/misc"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C31", Quick: 400000, ThoroughS: 600, Stub: []string{"goroutine scheduler and clock", "os/exec: simulated processes with pipes of 64 bytes"}, NoRace: true,
		Real: []string{"help/utils/cmd.go", "help/utils/runtime.go"},
		Rule: "A workload is up to three goroutines running up to three commands each, whose processes cannot be started, write to both outputs in pieces, end with a status or by a signal, end without reading their input, or cannot be waited for; some calls reload the parent process instead.",
		Scenarios: []*run.Scenario{
			run.New("shell", 1, misc.GenShell, misc.Shell),
		}})
}
