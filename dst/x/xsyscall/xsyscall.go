// Package xsyscall stands in for syscall: signals go to the simulated process
// table; nothing else here reaches the system.
package xsyscall

import (
	"dst/x/xos"
	real "syscall"
)

func Kill(pid int, sig real.Signal) error { return xos.SendSignal(pid, sig) }

func Getpid() int  { return xos.Getpid() }
func Getppid() int { return xos.Getppid() }
