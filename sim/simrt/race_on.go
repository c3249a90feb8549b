//go:build race && go1.23

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func RaceErrors() int { return runtime.RaceErrors() }

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
