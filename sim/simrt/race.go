//go:build race
// +build race

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceReleaseMerge(p *int) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

//go:norace
func raceAcquire(p *int) { runtime.RaceAcquire(unsafe.Pointer(p)) }

// Acquire, Release and ReleaseMerge tell the race detector about the
// happens-before edges of simulated synchronisation.
//
//go:norace
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
