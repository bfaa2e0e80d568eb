package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C17", Quick: 150000, ThoroughS: 600, Stub: files.Stub, NoRace: true,
		Real: []string{"help/utils/breakpoint_continue.go"},
		Rule: "A workload is one to three uploads of one to thirteen chunks, dealt out in any order with repeats and gaps to up to four clients of one server process, with merges and removals between them; requests are retried, the server process crashes and restarts.",
		Scenarios: []*run.Scenario{
			run.New("upload", 1, files.GenUpload, files.Upload),
		}})
}
