package main

import (
	"dst/props/misc"
	"dst/run"
)

func main() {
	run.Main(&run.Prop{ID: "C30", Quick: 600000, ThoroughS: 600, Stub: []string{"goroutine scheduler"}, NoRace: false,
		Real: []string{"help/utils/md5.go", "crypto/aes", "crypto/cipher"},
		Rule: "A workload is up to four goroutines encrypting and decrypting adjoining or overlapping parts of one shared buffer, with and without spare capacity behind the part, keys of every length, and callers that write to the results.",
		Scenarios: []*run.Scenario{
			run.New("aes", 1, misc.GenAes, misc.Aes),
		}})
}
