// Code generated by genalias. DO NOT EDIT.

package xruntime

import real "runtime"

var Caller = real.Caller
var Callers = real.Callers
var CallersFrames = real.CallersFrames

type Error = real.Error
type Frame = real.Frame
type Frames = real.Frames
type Func = real.Func

var FuncForPC = real.FuncForPC
var Goexit = real.Goexit
var KeepAlive = real.KeepAlive

type MemStats = real.MemStats

var ReadMemStats = real.ReadMemStats
var SetFinalizer = real.SetFinalizer
var Stack = real.Stack

type TypeAssertionError = real.TypeAssertionError
