// Package xlog stands in for log: output is dropped, fatal calls are reported.
package xlog

import (
	"dst/sim"
	"fmt"
	"io"
	"log"
)

func init() { log.SetOutput(io.Discard) }

func Fatal(v ...any) { sim.Fail("exit", "the code called log.Fatal: %s", fmt.Sprint(v...)) }
func Fatalf(f string, v ...any) {
	sim.Fail("exit", "the code called log.Fatalf: %s", fmt.Sprintf(f, v...))
}
func Fatalln(v ...any) { sim.Fail("exit", "the code called log.Fatalln: %s", fmt.Sprint(v...)) }
