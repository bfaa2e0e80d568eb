package main

import (
	"dst/props/dbs"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C26", Quick: 40000, ThoroughS: 600, Stub: dbs.Stub, NoRace: true,
		Real: []string{"gorm_tools/gorm.go", "gorm.io/gorm", "encoding/json"},
		Rule: "A workload is up to three clients inserting batches of records (maps, structs, pointers; every field present, some absent, later records with more fields; values of every kind; ids given or left to the table, records that are all alike among these) into a table that may hold rows, in a transaction or not, with statements that fail before or after they took effect or insert nothing, records that cannot be encoded, duplicate keys, process crashes, and now and then more values than one statement takes.",
		Scenarios: []*run.Scenario{
			run.New("insert", 1, dbs.GenInsert, dbs.Insert),
		}})
}
