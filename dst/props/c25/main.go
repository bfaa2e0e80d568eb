package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C25", Quick: 600000, ThoroughS: 600, Stub: files.Stub, NoRace: true,
		Real: []string{"help/utils/files.go (PathExists, FileExist, FileIsExisted, IsDir, IsFile)"},
		Rule: "A workload is up to four clients asking for files, directories, links and missing names, while others create and remove some of them.",
		Scenarios: []*run.Scenario{
			run.New("exists", 1, files.GenExists, files.Exists),
		}})
}
