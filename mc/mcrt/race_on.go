//go:build race

package mcrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector watches the explored code.
const RaceBuild = true

func syncOff()                   { runtime.RaceDisable() }
func syncOn()                    { runtime.RaceEnable() }
func hbAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func hbRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
