// Package vsync stands in for package sync in the code under test. Inside a
// concurrent phase a lock that is taken makes the task wait under the control
// of the simulator instead of blocking the process; the real lock is taken as
// well, so that the race detector sees the synchronisation the code does.
package vsync

import (
	"sync"

	"verif.local/sim/vsim"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is sync.Map (it never blocks for long).
type Map = sync.Map

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	held bool
	mu   sync.Mutex
}

//go:norace
func (m *Mutex) Ready() bool { return !m.held }

//go:norace
func (m *Mutex) Lock() {
	vsim.Gosched()
	vsim.Wait(m)
	m.held = true
	m.mu.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	vsim.Gosched()
	if m.held {
		return false
	}
	m.held = true
	return m.mu.TryLock()
}

//go:norace
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	m.held = false
	vsim.Wake()
	vsim.Gosched()
}

// RWMutex is a simulated sync.RWMutex.
type RWMutex struct {
	readers int
	writer  bool
	mu      sync.RWMutex
}

type rwRead struct{ m *RWMutex }
type rwWrite struct{ m *RWMutex }

//go:norace
func (r rwRead) Ready() bool { return !r.m.writer }

//go:norace
func (r rwWrite) Ready() bool { return !r.m.writer && r.m.readers == 0 }

//go:norace
func (m *RWMutex) RLock() {
	vsim.Gosched()
	vsim.Wait(rwRead{m})
	m.readers++
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	m.readers--
	vsim.Wake()
	vsim.Gosched()
}

//go:norace
func (m *RWMutex) Lock() {
	vsim.Gosched()
	vsim.Wait(rwWrite{m})
	m.writer = true
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	m.writer = false
	vsim.Wake()
	vsim.Gosched()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !(rwWrite{m}).Ready() {
		return false
	}
	m.writer = true
	return m.mu.TryLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.writer {
		return false
	}
	m.readers++
	return m.mu.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is as in package sync.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is as in package sync.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is as in package sync.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is as in package sync.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

//go:norace
func (w *WaitGroup) Ready() bool { return w.n <= 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	w.n += d
	w.wg.Add(d)
	if w.n <= 0 {
		vsim.Wake()
	}
}

// Done is as in package sync.
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	vsim.Gosched()
	vsim.Wait(w)
	w.wg.Wait()
}

// Go is as in package sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() { defer w.Done(); f() })
}

// Pool is a deterministic sync.Pool: last in, first out. Like the real one it
// hands an item from Put to a later Get, and synchronises the two.
type Pool struct {
	New   func() any
	m     sync.Mutex
	items []any
	known bool
}

var (
	poolsMu sync.Mutex
	pools   []*Pool
)

// Collect takes away what pools hold, as a garbage collection does.
func Collect() {
	poolsMu.Lock()
	defer poolsMu.Unlock()
	for _, p := range pools {
		p.m.Lock()
		p.items, p.known = nil, false
		p.m.Unlock()
	}
	pools = nil
}

// Get is as in package sync.
func (p *Pool) Get() any {
	vsim.Gosched()
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is as in package sync.
func (p *Pool) Put(x any) {
	vsim.Gosched()
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	add := !p.known
	p.known = true
	p.m.Unlock()
	if add {
		poolsMu.Lock()
		pools = append(pools, p)
		poolsMu.Unlock()
	}
	vsim.Gosched()
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L   Locker
	seq uint64
	gen []*condWait
	mu  sync.Mutex
}

type condWait struct{ woken bool }

//go:norace
func (c *condWait) Ready() bool { return c.woken }

// NewCond is as in package sync.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &condWait{}
	c.gen = append(c.gen, w)
	c.L.Unlock()
	vsim.Wait(w)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if len(c.gen) > 0 {
		c.gen[0].woken = true
		c.gen = c.gen[1:]
		vsim.Wake()
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for _, w := range c.gen {
		w.woken = true
	}
	c.gen = nil
	vsim.Wake()
}
