//go:build go1.21 && !race

package mcrt

const RaceBuild = false

func raceDisable()             {}
func raceEnable()              {}
func raceUndo()                {}
func raceAcquire(p *byte)      {}
func raceRelease(p *byte)      {}
func raceReleaseMerge(p *byte) {}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }

// RaceAcquire and RaceReleaseMerge are happens-before edges of fakes.
func RaceAcquire(p *byte)           {}
func RaceReleaseMerge(p *byte)      {}
func raceReports(from int) []string { return nil }

// RaceRead tells the detector that the current thread reads b.
func RaceRead(b []byte) {}

// RaceWrite tells the detector that the current thread writes b.
func RaceWrite(b []byte) {}
