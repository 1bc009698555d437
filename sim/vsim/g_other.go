//go:build !amd64

package vsim

func getg() uintptr { return uintptr(goid()) }
