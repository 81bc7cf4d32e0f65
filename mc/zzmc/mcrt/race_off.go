//go:build !race

package mcrt

import "unsafe"

// RaceMode tells whether this binary was built with the race detector.
const RaceMode = false

func raceDisable()                        {}
func raceEnable()                         {}
func raceAcquire(p unsafe.Pointer)        {}
func raceRelease(p unsafe.Pointer)        {}
func raceErrors() int                     { return 0 }
func raceRead(b []byte)                   {}
func raceWrite(b []byte)                  {}
func raceAtomic(p unsafe.Pointer, w bool) {}
