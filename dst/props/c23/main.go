package main

import (
	"dst/props/files"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C23", Quick: 400000, ThoroughS: 600, Stub: append([]string{"streams that come in pieces, late, and break off"}, files.Stub...), NoRace: true,
		Real: []string{"help/utils/files.go (FileMd5, ImageFileToBase64)", "help/utils/md5.go (ComputeFileMD5)", "help/utils/csv.go (ReadCsv)", "crypto/md5", "encoding/csv", "encoding/base64"},
		Rule: "A workload is up to four clients reading whole files of 0 to 70000 bytes, tables (some malformed) and streams in pieces of any size, with failures to open and read at any point, and retries.",
		Scenarios: []*run.Scenario{
			run.New("read", 1, files.GenRead, files.Read),
		}})
}
