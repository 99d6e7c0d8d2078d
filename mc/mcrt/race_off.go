//go:build !race

package mcrt

import "unsafe"

// RaceBuild tells whether the race detector watches the explored code.
const RaceBuild = false

func syncOff()                   {}
func syncOn()                    {}
func hbAcquire(p unsafe.Pointer) {}
func hbRelease(p unsafe.Pointer) {}
