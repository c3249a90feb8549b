//go:build !race && go1.23

package simrt

import "unsafe"

const RaceEnabled = false

func RaceErrors() int { return 0 }

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
