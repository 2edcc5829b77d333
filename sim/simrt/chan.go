package simrt

import (
	"runtime"
	"time"
)

// Yield stands for runtime.Gosched and for every wait that is done by polling:
// the next task that can run gets its turn.
//
//go:norace
func Yield(gosched func(), site uint32) {
	t := cur
	if t == nil {
		if killing {
			runtime.Goexit()
		}
		if gosched == nil {
			gosched = runtime.Gosched
		}
		gosched()
		return
	}
	if killing {
		runtime.Goexit()
	}
	if t.spawned {
		t.refill()
		if idleDone() {
			if t.idle++; t.idle > 1000 {
				abort(t)
			}
		}
	}
	t.steps++
	cov[site%MaxSites] = 1
	t.site = site
	if t.steps >= t.nextStop {
		stop(t, site)
	}
	if o := roundRobin(t); o != nil {
		switchTo(t, o, site)
	}
}

// Sleep stands for time.Sleep: simulated time has no length, so that sleeping
// is letting others run.
func Sleep(sleep func(time.Duration), site uint32, d time.Duration) {
	if !Active() && !Killing() {
		sleep(d)
		return
	}
	Yield(nil, site)
}

// Send stands for c <- v.
func Send[T any](c chan<- T, site uint32) func(T) {
	return func(v T) {
		if !Active() && !Killing() {
			c <- v
			return
		}
		for {
			select {
			case c <- v:
				YS(site)
				return
			default:
			}
			Yield(nil, site)
		}
	}
}

// Recv2 stands for v, ok := <-c.
func Recv2[T any](c <-chan T, site uint32) (T, bool) {
	if !Active() && !Killing() {
		v, ok := <-c
		return v, ok
	}
	for {
		select {
		case v, ok := <-c:
			YS(site)
			return v, ok
		default:
		}
		Yield(nil, site)
	}
}

// Recv stands for <-c.
func Recv[T any](c <-chan T, site uint32) T {
	v, _ := Recv2(c, site)
	return v
}

// Cap is the capacity of a channel made with capacity n: only one task runs at
// a time, so that a channel without a buffer would never be passed.
func Cap[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N) N {
	if n == 0 {
		return 1
	}
	return n
}
