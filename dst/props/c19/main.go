package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C19", Quick: 200000, ThoroughS: 600, Stub: files.Stub, NoRace: true,
		Real: []string{"help/utils/files.go (FileMove)"},
		Rule: "A workload is up to three clients moving files and directories from place to place, into missing, linked, blocked, occupied or other devices' directories, by relative and absolute paths, with retries after failures and crashes; some files are moved by every client at once.",
		Scenarios: []*run.Scenario{
			run.New("move", 1, files.GenMove, files.Move),
		}})
}
