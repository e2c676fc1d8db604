// Package simrt is called by the instrumented code under test before every
// statement. It is the simulator's preemption point and step counter.
package simrt

import "runtime"

var (
	on     bool
	yield  uint32 // one in `yield` statements is a preemption; 0 = none
	steps  uint64
	limit  uint64
	yields uint64
	cov    [1 << 15]uint32

	// OnLimit is called (once) when the step budget of the case is exhausted.
	OnLimit func()
	lcg     uint64
)

// Start arms the preemption points.
func Start(seed uint64, yieldEvery uint32, budget uint64) {
	lcg = seed*0x9e3779b97f4a7c15 + 0x1234567
	yield, steps, limit, yields = yieldEvery, 0, budget, 0
	on = true
}

// Switch goes on with other preemptions.
func Switch(seed uint64, yieldEvery uint32) {
	lcg = seed*0x9e3779b97f4a7c15 + 0x1234567
	yield = yieldEvery
}

// Stop disarms them.
func Stop() { on = false }

// Budget restarts the step budget (at the start of each operation).
func Budget(n uint64) { limit = steps + n }

// Stats returns statements executed and forced preemptions.
func Stats() (uint64, uint64) { return steps, yields }

// Coverage returns how often each statement ran.
func Coverage() []uint32 { return cov[:] }

// Step counts one simulated system call.
func Step() {
	if !on {
		return
	}
	Y(0)
}

// Y is a preemption point.
func Y(site int) {
	cov[site&(1<<15-1)]++
	if !on {
		return
	}
	steps++
	runtime.SimReseed(steps)
	if steps > limit {
		limit = ^uint64(0)
		if OnLimit != nil {
			OnLimit()
		}
	}
	if yield != 0 {
		lcg = lcg*6364136223846793005 + 1442695040888963407
		if uint32(lcg>>33)%yield == 0 {
			yields++
			n := steps
			runtime.Gosched()
			if on {
				// whatever others drew must not matter here
				runtime.SimReseed(n | 1<<40)
			}
		}
	}
}

// V is a preemption point between the computation of a value and its use.
func V[T any](v T) T {
	Y(0)
	return v
}
