//go:build !race

package vsched

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = false

func raceDisable()             {}
func raceEnable()              {}
func raceAcquire(p *Addr)      {}
func raceRelease(p *Addr)      {}
func raceReleaseMerge(p *Addr) {}
func raceErrors() int          { return 0 }
