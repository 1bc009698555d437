package scen

import (
	"runtime/debug"
	"syscall"
	"unsafe"
)

// lent is memory a caller lends for one load: while the load runs it can only
// be read, it ends where the next page cannot be touched at all, and when the
// load has returned nobody may touch it any more.
type lent struct {
	mem []byte // the last page is never accessible
	use int    // bytes before the last page
}

const lentPage = 4096

var lents []*lent

// lentRoom is the room of one lent memory.
const lentRoom = 1 << 18

// lend makes sure that there are n lent memories, as far as possible.
func lend(n int) {
	for len(lents) < n {
		l := &lent{use: lentRoom}
		m, err := syscall.Mmap(-1, 0, lentRoom+lentPage, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
		if err != nil {
			return
		}
		l.mem = m
		lents = append(lents, l)
	}
}

func (l *lent) protect(p int) bool { return syscall.Mprotect(l.mem[:l.use], p) == nil }

// fill puts f at the end of the memory and makes it read-only; nil if that
// does not work.
func (l *lent) fill(f []byte) []byte {
	if len(f) > l.use || !l.protect(syscall.PROT_READ|syscall.PROT_WRITE) {
		return nil
	}
	b := l.mem[l.use-len(f) : l.use : l.use]
	copy(b, f)
	if !l.protect(syscall.PROT_READ) {
		return nil
	}
	return b
}

// back takes the memory away.
func (l *lent) back() { l.protect(syscall.PROT_NONE) }

// touched tells whether an address is inside lent memory.
func touched(a uintptr) bool {
	for _, l := range lents {
		if lo := uintptr(unsafe.Pointer(&l.mem[0])); a >= lo && a < lo+uintptr(len(l.mem)) {
			return true
		}
	}
	return false
}

// untouched calls f, outside a simulation, and tells whether it left lent
// memory alone.
func untouched(f func()) (ok bool) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if e, is := r.(interface{ Addr() uintptr }); !is || !touched(e.Addr()) {
			panic(r)
		}
		ok = false
	}()
	f()
	return true
}
