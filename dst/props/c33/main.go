package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C33", Quick: 300000, ThoroughS: 600, Stub: files.Stub, NoRace: true,
		Real: []string{"help/utils/files.go", "help/utils/zip.go", "help/utils/csv.go", "help/utils/breakpoint_continue.go"},
		Rule: "A workload is up to three clients calling any of the file helpers on files, tables, sound and damaged archives, directories and missing paths, while any file system call may fail.",
		Scenarios: []*run.Scenario{
			run.New("handles", 1, files.GenHandles, files.Handles),
		}})
}
