//go:build !race
// +build !race

package simrt

import "unsafe"

const RaceEnabled = false

func raceDisable()           {}
func raceEnable()            {}
func raceReleaseMerge(*int)  {}
func raceAcquire(*int)       {}
func Acquire(unsafe.Pointer) {}
func Release(unsafe.Pointer) {}

func ReleaseMerge(unsafe.Pointer) {}

func RaceErrors() int { return 0 }
