// Package xruntime stands in for runtime.
package xruntime

import (
	"dst/sim"
	"runtime"
)

const (
	GOOS     = "linux"
	GOARCH   = "amd64"
	Compiler = runtime.Compiler
)

func Gosched()           { sim.Yield() }
func NumGoroutine() int  { return len(sim.Live()) + 1 }
func NumCPU() int        { return 8 }
func GOMAXPROCS(int) int { return 8 }
func LockOSThread()      {}
func UnlockOSThread()    {}
func GC()                {}
func Version() string    { return "go1.27" }
