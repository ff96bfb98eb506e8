//go:build !race

package hook

import "unsafe"

// RaceBuild says whether the race detector is compiled in.
const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}

// RaceAcquire and friends create the happens-before edges that the simulated primitives promise.
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of races reported so far in this process.
func RaceErrors() int { return 0 }
