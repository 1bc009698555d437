//go:build !race

package vsim

func raceOff()              {}
func raceOn()               {}
func releaseTask()          {}
func acquireAll(*scheduler) {}

// RaceEnabled tells whether this is a race detector build.
const RaceEnabled = false
