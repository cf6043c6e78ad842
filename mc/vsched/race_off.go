//go:build !race

package vsched

import "unsafe"

const RaceEnabled = false

func raceOff()                          {}
func raceOn()                           {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }
