//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled is true in binaries built with -race.
const RaceEnabled = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// Acquire, Release and ReleaseMerge create the happens-before edges of a simulated synchronisation primitive.
//
//go:norace
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of data races reported so far.
//
//go:norace
func RaceErrors() int { return runtime.RaceErrors() }
