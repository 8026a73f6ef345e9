// Package simruntime stands in for package runtime.
package simruntime

import (
	"runtime"

	"verifsim/sim"
)

type (
	Error    = runtime.Error
	Frame    = runtime.Frame
	Frames   = runtime.Frames
	Func     = runtime.Func
	MemStats = runtime.MemStats
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

var (
	Caller        = runtime.Caller
	Callers       = runtime.Callers
	CallersFrames = runtime.CallersFrames
	FuncForPC     = runtime.FuncForPC
	Stack         = runtime.Stack
	Version       = runtime.Version
	ReadMemStats  = runtime.ReadMemStats
	Goexit        = runtime.Goexit
)

// CPUs is what the program sees as the machine's size.
var CPUs = 4

func GC()                                 {}
func Gosched()                            { sim.Gosched() }
func NumCPU() int                         { return CPUs }
func GOMAXPROCS(int) int                  { return CPUs }
func NumGoroutine() int                   { return sim.LiveTasks() + 1 }
func KeepAlive(x any)                     { runtime.KeepAlive(x) }
func SetFinalizer(obj any, finalizer any) {}
func LockOSThread()                       {}
func UnlockOSThread()                     {}
