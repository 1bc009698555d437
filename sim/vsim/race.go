//go:build race

package vsim

import (
	"runtime"
	"unsafe"
)

// The race detector must not take the hand-over of the baton for
// synchronisation between the tasks: that would hide every race.

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

var endToken int

//go:norace
func releaseTask() { runtime.RaceReleaseMerge(unsafe.Pointer(&endToken)) }

//go:norace
func acquireAll(*scheduler) { runtime.RaceAcquire(unsafe.Pointer(&endToken)) }

// RaceEnabled tells whether this is a race detector build.
const RaceEnabled = true
