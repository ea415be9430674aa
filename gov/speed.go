package main

// Solver time limits are set for the machine they were chosen on; on a slower or busier one
// they are scaled.

import (
	"sync"
	"time"
)

// nominalSpin is how long eight concurrent spins take on an idle eight-core sandbox.
const nominalSpin = 200 * time.Millisecond

func spin() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := uint64(i) + 88172645463325252
			for n := 0; n < 80_000_000; n++ {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
			}
			sink[i] = x
		}()
	}
	wg.Wait()
}

var sink [8]uint64

// slowness estimates how much slower this machine is now, between 1 and 4.
func slowness() float64 {
	t0 := time.Now()
	spin()
	f := float64(time.Since(t0)) / float64(nominalSpin)
	return min(max(f, 1), 4)
}

var lastPace time.Time

// pace sets the time limits for the current speed of the machine.
func pace() {
	if time.Since(lastPace) < 15*time.Second {
		return
	}
	f := slowness()
	lastPace = time.Now()
	set := func(d *time.Duration, base time.Duration) { *d = time.Duration(float64(base) * f) }
	set(&houdiniQuick, 1500*time.Millisecond)
	set(&houdiniFull, 4*time.Second)
	set(&quickLimit, baseQuick)
	set(&fullLimit, baseFull)
}

var baseQuick, baseFull, quickLimit, fullLimit time.Duration
