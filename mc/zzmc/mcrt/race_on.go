//go:build race

package mcrt

import (
	"runtime"
	"sync/atomic"
	"unsafe"
)

// RaceMode tells whether this binary was built with the race detector.
const RaceMode = true

func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int              { return runtime.RaceErrors() }

// raceRead and raceWrite report accesses that the socket makes to memory of the program.
func raceRead(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
func raceWrite(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}

// raceAtomic lets the race detector see an atomic access, so that plain accesses conflict with it.
func raceAtomic(p unsafe.Pointer, w bool) {
	q := (*uint32)(p)
	if uintptr(p)&3 != 0 {
		return
	}
	if w {
		atomic.AddUint32(q, 0)
	} else {
		atomic.LoadUint32(q)
	}
}
