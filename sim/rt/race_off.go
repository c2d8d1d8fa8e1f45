//go:build !race

package rt

import "unsafe"

// RaceEnabled is true in binaries built with -race.
const RaceEnabled = false

func raceDisable() {}
func raceEnable()  {}

// Acquire is a no-op without -race
func Acquire(unsafe.Pointer) {}

// Release is a no-op without -race
func Release(unsafe.Pointer) {}

// ReleaseMerge is a no-op without -race
func ReleaseMerge(unsafe.Pointer) {}

// RaceErrors is always zero without -race
func RaceErrors() int { return 0 }
