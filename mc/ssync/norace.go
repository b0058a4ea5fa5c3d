//go:build !race

package ssync

import "unsafe"

func raceOff()                          {}
func raceOn()                           {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

func RaceErrors() int { return 0 }
