// Package verifrt is the scheduling-noise runtime that the checks overlay into
// the build of the code under test. It must stay invisible to the race
// detector: no function here is race-instrumented and none uses an atomic or a
// lock, so a noise point never orders two goroutines for the detector.
package verifrt

import (
	"runtime"
	"time"
)

const (
	// Quiet only counts the point.
	Quiet = iota
	// Yield yields at random points.
	Yield
	// Target stalls whoever reaches the target points until others have made
	// progress, and yields at random elsewhere.
	Target
	// Chaos yields often and sometimes sleeps for some microseconds.
	Chaos
)

const maxPoints = 1 << 14

var (
	mode    int32
	targetA int32
	targetB int32
	stall   int32
	step    uint64
	rng     uint64 = 88172645463325252
	hits    [maxPoints]uint32
)

//go:norace
//go:noinline
func rnd() uint64 {
	x := rng
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	if x == 0 {
		x = 88172645463325252
	}
	rng = x
	return x
}

// Y is a noise point, inserted before the statements of the code under test.
//
//go:norace
//go:noinline
func Y(id int32) {
	hits[id&(maxPoints-1)]++
	step++
	switch mode {
	case Quiet:
		return
	case Yield:
		if rnd()>>20&7 == 0 {
			runtime.Gosched()
		}
	case Target:
		if id == targetA || id == targetB {
			if rnd()>>20&3 != 0 {
				wait()
			}
			return
		}
		if rnd()>>20&31 == 0 {
			runtime.Gosched()
		}
	case Chaos:
		r := rnd() >> 20
		if r&3 == 0 {
			runtime.Gosched()
		} else if r&255 == 5 {
			time.Sleep(time.Duration(r>>10&15) * time.Microsecond)
		}
	}
}

//go:norace
//go:noinline
func wait() {
	s := step
	need := uint64(stall)
	limit := int(stall)*2 + 20
	for i := 0; i < limit; i++ {
		runtime.Gosched()
		if step-s >= need {
			return
		}
	}
	if rnd()>>20&15 == 0 {
		time.Sleep(20 * time.Microsecond)
	}
}

// Set changes the noise.
//
//go:norace
//go:noinline
func Set(m, a, b, st int32, seed uint64) {
	mode, targetA, targetB, stall = m, a, b, st
	if seed != 0 {
		rng = seed*0x9E3779B97F4A7C15 | 1
	}
}

// Steps returns the number of points passed so far.
//
//go:norace
//go:noinline
func Steps() uint64 { return step }

// Hit returns the points passed at least once and the number of passages.
//
//go:norace
//go:noinline
func Hit() (ids []int32, total uint64) {
	for i := range hits {
		if hits[i] != 0 {
			ids = append(ids, int32(i))
			total += uint64(hits[i])
		}
	}
	return
}

// Reset forgets the hits, so that Hit reports those of one workload.
//
//go:norace
//go:noinline
func Reset() {
	for i := range hits {
		hits[i] = 0
	}
}
