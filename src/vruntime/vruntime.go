//go:build go1.21

// Package vruntime replaces package runtime in the instrumented build.
package vruntime

import (
	"runtime"

	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

// CPUs is the number of processors to report.
var CPUs = 1

func NumCPU() int { return CPUs }
func GOMAXPROCS(n int) int {
	return CPUs
}
func Gosched()                                     { vsync.Yield() }
func GC()                                          { runtime.GC() }
func NumGoroutine() int                            { return runtime.NumGoroutine() }
func KeepAlive(x any)                              { runtime.KeepAlive(x) }
func SetFinalizer(obj, finalizer any)              {}
func Version() string                              { return runtime.Version() }
func Caller(skip int) (uintptr, string, int, bool) { return runtime.Caller(skip + 1) }
func Stack(buf []byte, all bool) int               { return runtime.Stack(buf, all) }

type Error = runtime.Error
type MemStats = runtime.MemStats

func ReadMemStats(m *MemStats) { runtime.ReadMemStats(m) }
