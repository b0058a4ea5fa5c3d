//go:build race

package ssync

import (
	"runtime"
	"unsafe"
)

// the scheduler's own synchronization is hidden from the race detector
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors gives how many data races were reported in this process.
func RaceErrors() int { return runtime.RaceErrors() }
