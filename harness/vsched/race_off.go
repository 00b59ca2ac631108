//go:build !race

package vsched

import "unsafe"

const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceErrors() int                   { return 0 }

// Acquire and Release are happens-before annotations for modelled primitives (race builds only).
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
