//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// Under the race detector the scheduler must not create happens-before edges of its own: its
// synchronisation is hidden, and the shims announce the edges of the primitives they stand for.

const RaceEnabled = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func Hide()                         { runtime.RaceDisable() }
func Unhide()                       { runtime.RaceEnable() }
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
