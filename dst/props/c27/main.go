package main

import (
	"dst/props/dbs"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C27", Quick: 60000, ThoroughS: 600, Stub: dbs.Stub, NoRace: true,
		Real: []string{"gorm_tools/update.go", "gorm.io/gorm"},
		Rule: "A workload is up to three clients updating sets of rows of one table (each client its own range of ids), some of them absent, with values of every kind, sets whose rows name different fields, more rows than one statement takes, in a transaction or not, with statements that fail before or after they took effect and process crashes; the order in which the maps are visited is the simulator's.",
		Scenarios: []*run.Scenario{
			run.New("update", 1, dbs.GenUpdate, dbs.Update),
		}})
}
