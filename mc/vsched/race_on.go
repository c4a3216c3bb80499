//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = true

func raceDisable()             { runtime.RaceDisable() }
func raceEnable()              { runtime.RaceEnable() }
func raceAcquire(p *Addr)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease(p *Addr)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceReleaseMerge(p *Addr) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceErrors() int          { return runtime.RaceErrors() }
