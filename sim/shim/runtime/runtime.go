// Package runtime replaces what differs between machines and executions.
package runtime

import (
	real "runtime"

	"verifsim/rt"
)

// NumCPU is the number of processors of the simulated machine.
func NumCPU() int { return rt.CPUs() }

// GOMAXPROCS reports how many threads may run at a time.
func GOMAXPROCS(n int) int { return rt.CPUs() }

// NumGoroutine counts the threads of the simulated process.
func NumGoroutine() int { return rt.Threads() }

// Gosched lets other threads run.
func Gosched() { rt.Pause() }

// GC is left to the simulator.
func GC() {}

// Goexit ends the thread.
func Goexit() { real.Goexit() }

// SetFinalizer is ignored: when the collector runs is not simulated.
func SetFinalizer(obj, finalizer any) {}

// ReadMemStats reports a fixed state.
func ReadMemStats(m *MemStats) { *m = MemStats{} }

// AddCleanup is ignored, as finalizers are.
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup { return Cleanup{} }
