// Package time stands in for the real one: clock readings come from the
// simulator, and timers run on the simulated clock.
package time

import (
	real "time"

	"verifsim/rt"
)

// Now reads the simulated clock.
func Now() real.Time {
	if rt.W == nil {
		return real.Date(2000, 1, 1, 0, 0, 0, 0, real.UTC)
	}
	return rt.W.Now()
}

func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }

// Sleep lets the other tasks go on.
func Sleep(d real.Duration) {
	b := rt.BeforeBlock()
	real.Sleep(d)
	rt.AfterBlock(b)
}

// AfterFunc runs f as a task.
func AfterFunc(d real.Duration, f func()) *real.Timer {
	p := rt.Cur()
	return real.AfterFunc(d, func() {
		if p != nil {
			rt.LateTask(p, f)
		}
	})
}
