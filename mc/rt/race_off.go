//go:build !race

package rt

import "unsafe"

const RaceEnabled = false

func raceOff() {}
func raceOn()  {}

func Hide()                         {}
func Unhide()                       {}
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
