package vsim

// getg returns a number that tells the calling goroutine from all others.
func getg() uintptr
