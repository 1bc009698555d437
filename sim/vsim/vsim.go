// Package vsim is the simulator's runtime. The code under test is compiled
// with a call of Y before every statement, so this package decides, at every
// statement, which task goes on: exactly one task runs at a time, and the
// choice comes from a seeded strategy or from a recorded trace.
package vsim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------- step budget

// StepLimit is the panic value raised when an operation exceeds its budget.
type StepLimit struct{ Steps uint64 }

func (s StepLimit) Error() string { return fmt.Sprintf("step budget of %d exceeded", s.Steps) }

var (
	steps uint64 // statements executed since process start
	limit uint64 = 1 << 62

	edgeMap  [1 << 20]uint8 // (previous site, site) pairs seen
	siteSeen [1 << 16]uint8
	prevSite uint32
	edges    int
	sites    int
)

// Y is called before every statement of the code under test.
//
//go:norace
func Y(n uint32) {
	steps++
	if steps >= limit {
		over()
	}
	h := (prevSite*0x9E3779B1 ^ n*0x85EBCA6B) >> 12
	if edgeMap[h] == 0 {
		edgeMap[h] = 1
		edges++
	}
	if siteSeen[n&0xffff] == 0 {
		siteSeen[n&0xffff] = 1
		sites++
	}
	prevSite = n
	if sched != nil {
		yield(n)
	}
}

//go:norace
func over() {
	// once more if somebody recovers from the panic and goes on
	limit = steps + 100_000
	exceeded = true
	panic(StepLimit{steps})
}

var exceeded bool

// Exceeded tells whether the budget was exceeded since it was last set.
//
//go:norace
func Exceeded() bool { return exceeded }

// Steps returns the number of statements executed so far.
//
//go:norace
func Steps() uint64 { return steps }

// Budget allows n more steps; Budget(0) removes the limit.
//
//go:norace
func Budget(n uint64) {
	if n == 0 {
		limit = 1 << 62
		return
	}
	exceeded = false
	limit = steps + n
}

// Allow allows n more steps, but not more than allowed now, and returns a
// value that restores the present allowance.
//
//go:norace
func Allow(n uint64) (old uint64) {
	old = limit
	exceeded = false
	if steps+n < limit {
		limit = steps + n
	}
	return old
}

// Restore undoes Allow.
//
//go:norace
func Restore(old uint64) { limit = old }

// Coverage returns the number of distinct sites and site pairs executed.
func Coverage() (nsites, nedges int) { return sites, edges }

// ---------------------------------------------------------------- time

var simNow int64 = 1_700_000_000_000_000_000

// Now is the simulated wall clock.
//
//go:norace
func Now() time.Time { return time.Unix(0, simNow) }

// Since is time.Since on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the simulated clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// SetNow sets the simulated clock, in nanoseconds since the Unix epoch.
//
//go:norace
func SetNow(ns int64) { simNow = ns }

// NowNS reads the simulated clock.
//
//go:norace
func NowNS() int64 { return simNow }

// Sleep advances the simulated clock and lets other tasks run.
//
//go:norace
func Sleep(d time.Duration) {
	if d > 0 {
		simNow += int64(d)
	}
	Gosched()
}

// Gosched offers the scheduler a choice point outside instrumented code.
//
//go:norace
func Gosched() {
	if sched != nil {
		yield(0)
	}
}

// ---------------------------------------------------------------- scheduler

// Switch is one scheduling decision: at the given step task To went on.
type Switch struct {
	Step uint64 `json:"s"`
	To   int    `json:"t"`
}

// Strategy is a serialisable scheduling strategy.
type Strategy struct {
	Kind  string   `json:"kind"` // random, pct, sites, rr, trace, none
	Seed  uint64   `json:"seed,omitempty"`
	P     int      `json:"p,omitempty"`     // random: switch with probability 1/P
	Depth int      `json:"depth,omitempty"` // pct: number of change points
	Est   int      `json:"est,omitempty"`   // pct: estimated number of steps
	Sites []uint32 `json:"sites,omitempty"` // sites: preempt when reaching one of these
	Trace []Switch `json:"trace,omitempty"`
}

// Result describes a finished concurrent phase.
type Result struct {
	Switches []Switch
	Steps    uint64
	Panics   []TaskPanic
	Deadlock bool
	Blocked  int // times a task waited for a lock
	Hash     uint64
	Tasks    int // including those started on the way
}

// TaskPanic is a panic that ended a task.
type TaskPanic struct {
	Task  int
	Value string
	Stack string
	Addr  uintptr // of a memory fault
}

const (
	stReady = iota
	stBlocked
	stOutside // blocked in something that is not simulated, e.g. a channel
	stDone
)

var (
	// Goroutines tells that the code under test has go statements: every run
	// is then a phase, so that these goroutines are always scheduled.
	Goroutines bool
	// Channels tells that the code under test may block in something that is
	// not simulated: channels, select, contexts, timers.
	Channels bool
)

type task struct {
	id    int
	wake  chan struct{}
	state int
	prio  uint64
	fn    func()

	waitOn Waiter
	root   bool    // one of the functions given to Run
	g      uintptr // goroutine and its number, known if Channels
	gid    uint64
}

// Waiter is a condition a task can wait for. Ready must be marked go:norace.
type Waiter interface{ Ready() bool }

type scheduler struct {
	tasks []*task
	cur   *task
	step  uint64
	strat Strategy
	rnd   uint64
	// no maps: their use looks like a race to the race detector
	change   []uint64
	trace    []Switch
	lowPrio  uint64
	switches []Switch
	panics   []TaskPanic
	dead     bool
	blocked  int
	hash     uint64
	done     chan struct{}
	nextID   int
	outside  int // tasks in state stOutside
	outer    *scheduler
}

var sched *scheduler

// Active tells whether a concurrent phase is running.
//
//go:norace
func Active() bool { return sched != nil }

// CurrentTask returns the id of the running task, -1 outside a phase.
//
//go:norace
func CurrentTask() int {
	if sched == nil || sched.cur == nil {
		return -1
	}
	return sched.cur.id
}

//go:norace
func (s *scheduler) rand() uint64 {
	s.rnd += 0x9E3779B97F4A7C15
	z := s.rnd
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// traced looks the present step up in the recorded schedule.
//
//go:norace
func (s *scheduler) traced() (id int, ok bool) {
	for len(s.trace) > 0 && s.trace[0].Step < s.step {
		s.trace = s.trace[1:]
	}
	// the last decision recorded for a step counts
	for i := 0; i < len(s.trace) && s.trace[i].Step == s.step; i++ {
		id, ok = s.trace[i].To, true
	}
	return
}

//go:norace
func (s *scheduler) wanted(site uint32) bool {
	for _, n := range s.strat.Sites {
		if n == site {
			return true
		}
	}
	return false
}

//go:norace
func (s *scheduler) changes() bool {
	for _, n := range s.change {
		if n == s.step {
			return true
		}
	}
	return false
}

// Run runs the functions as tasks under the strategy and returns when all have
// ended (or none can go on).
//
//go:norace
func Run(fns []func(), strat Strategy) *Result {
	if len(fns) == 0 {
		return &Result{}
	}
	s := &scheduler{strat: strat, rnd: strat.Seed, done: make(chan struct{}, 1), hash: 14695981039346656037}
	s.trace = append(s.trace, strat.Trace...)
	sort.SliceStable(s.trace, func(i, j int) bool { return s.trace[i].Step < s.trace[j].Step })
	if strat.Kind == "pct" {
		est := strat.Est
		if est < 1 {
			est = 1
		}
		for i := 0; i < strat.Depth; i++ {
			s.change = append(s.change, s.rand()%uint64(est))
		}
	}
	s.outer = sched
	if s.outer != nil {
		s.outer.drain()
		s.outer.shed()
		sched = nil
	}
	for _, fn := range fns {
		s.add(fn).root = true
	}
	s.adopt()
	s.lowPrio = 1 << 20
	first := s.pick(nil)
	s.record(first)
	s.cur = first
	sched = s
	raceOff()
	first.wake <- struct{}{}
	if Channels {
		s.watch()
	} else {
		<-s.done
	}
	raceOn()
	if !s.dead {
		s.shed()
	}
	sched = s.outer
	if s.outer != nil {
		s.outer.adopt()
	}
	// a real synchronisation edge from every task to the caller
	acquireAll(s)
	return &Result{Switches: s.switches, Steps: s.step, Panics: s.panics, Deadlock: s.dead, Blocked: s.blocked, Hash: s.hash, Tasks: s.nextID}
}

// tasks that were still waiting when their phase ended
var leftover []*task

// shed gives up the tasks that wait and are not among those the phase is for.
//
//go:norace
func (s *scheduler) shed() {
	var keep []*task
	for _, t := range s.tasks {
		if t.root || (t.state != stBlocked && t.state != stOutside) {
			keep = append(keep, t)
			continue
		}
		if t.state == stOutside {
			s.outside--
		}
		if len(leftover) < 64 {
			leftover = append(leftover, t)
		}
	}
	s.tasks = keep
}

// adopt takes over the tasks that still wait since an earlier phase.
//
//go:norace
func (s *scheduler) adopt() {
	for _, t := range leftover {
		t.id = s.nextID
		s.nextID++
		s.tasks = append(s.tasks, t)
		if t.state == stOutside {
			s.outside++
		}
	}
	leftover = nil
}

// drain lets the other tasks run until none of them can go on.
//
//go:norace
func (s *scheduler) drain() {
	for i := 0; i < 1_000_000; i++ {
		me := s.self()
		s.wakeReady(me)
		s.step++
		next := s.pick(me)
		if next == nil {
			return
		}
		s.pass(me, next)
	}
}

// Drain lets tasks that the code under test started run until none can go on.
//
//go:norace
func Drain() {
	if sched != nil {
		sched.drain()
	}
}

// Forget drops what has been recorded about switches and ended tasks.
//
//go:norace
func Forget() {
	s := sched
	if s == nil {
		return
	}
	s.switches = nil
	var keep []*task
	for _, t := range s.tasks {
		if t.state != stDone {
			keep = append(keep, t)
		}
	}
	s.tasks = keep
}

// pass hands the baton to next and waits until it comes back.
//
//go:norace
func (s *scheduler) pass(me, next *task) {
	s.record(next)
	s.cur = next
	raceOff()
	next.wake <- struct{}{}
	<-me.wake
	raceOn()
}

// self returns the calling task. If it comes back from outside, it first waits
// for the baton.
//
//go:norace
func (s *scheduler) self() *task {
	if !Channels {
		return s.cur
	}
	g := getg()
	if s.cur != nil && s.cur.g == g {
		return s.cur
	}
	for _, t := range s.tasks {
		if t.g != g || t.state == stDone {
			continue
		}
		if t != s.cur {
			if t.state == stOutside {
				t.state = stReady
				s.outside--
			}
			raceOff()
			<-t.wake
			raceOn()
		}
		return t
	}
	// started in an earlier phase, or by other code: a task from now on
	t := &task{id: s.nextID, wake: make(chan struct{}, 1), prio: 1<<30 + s.rand()>>8, g: g, gid: goid()}
	s.nextID++
	s.tasks = append(s.tasks, t)
	raceOff()
	<-t.wake
	raceOn()
	return t
}

//go:norace
func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var v uint64
	for i := len("goroutine "); i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		v = v*10 + uint64(b[i]-'0')
	}
	return v
}

// watch waits for the end of the phase. When the running task blocks in
// something that is not simulated the baton goes on to another one.
//
//go:norace
func (s *scheduler) watch() {
	var last uint64
	same, idle := 0, 0
	for {
		select {
		case <-s.done:
			return
		default:
		}
		runtime.Gosched()
		if sched != s {
			continue // a phase inside this one
		}
		if s.cur == nil {
			s.wakeReady(nil)
			if next := s.pick(nil); next != nil {
				idle = 0
				s.step++
				s.record(next)
				s.cur = next
				next.wake <- struct{}{}
				continue
			}
			// everybody waits; a timer may still fire
			idle++
			limit := 3
			if !s.rootsDone() {
				limit = 400
			}
			if idle > limit {
				s.dead = !s.rootsDone()
				return
			}
			if idle > 20 {
				time.Sleep(time.Millisecond)
			}
			continue
		}
		if s.step != last {
			last, same = s.step, 0
			continue
		}
		if same++; same < 3 {
			continue
		}
		same = 0
		cur := s.cur
		switch parked(cur.gid) {
		case gone:
			cur.state = stDone
			s.cur = nil
			continue
		case running:
			continue
		}
		if s.step != last || s.cur != cur {
			continue
		}
		cur.state = stOutside
		s.outside++
		s.blocked++
		s.step++
		s.cur = nil
		idle = 0
	}
}

//go:norace
func (s *scheduler) rootsDone() bool {
	for _, t := range s.tasks {
		if t.root && t.state != stDone {
			return false
		}
	}
	return true
}

// parked tells whether a goroutine waits for something.
//
//go:norace
func parked(gid uint64) int {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	h := "goroutine " + strconv.FormatUint(gid, 10) + " [" // not fmt: its pool would look like a race
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.HasPrefix(g, h) {
			continue
		}
		st, _, _ := strings.Cut(g[len(h):], "]")
		st, _, _ = strings.Cut(st, ",")
		switch {
		case strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "select"), strings.HasPrefix(st, "semacquire"),
			strings.HasPrefix(st, "sync."), strings.HasPrefix(st, "sleep"), strings.HasPrefix(st, "IO wait"):
			// not if it waits for the baton
			head := strings.SplitN(g, "\n", 4)
			if len(head) < 2 || !strings.Contains(head[1], "/sim/vsim.") {
				return waiting
			}
		}
		return running
	}
	return gone
}

const (
	running = iota
	waiting
	gone
)

//go:norace
func (s *scheduler) add(fn func()) *task {
	t := &task{id: s.nextID, wake: make(chan struct{}, 1), fn: fn, prio: 1<<30 + s.rand()>>8}
	s.nextID++
	s.tasks = append(s.tasks, t)
	go s.main(t)
	return t
}

//go:norace
func (s *scheduler) main(t *task) {
	if Channels {
		t.g, t.gid = getg(), goid()
	}
	raceOff()
	<-t.wake
	raceOn()
	func() {
		debug.SetPanicOnFault(true)
		defer func() {
			if r := recover(); r != nil {
				if s := sched; s != nil {
					p := TaskPanic{Task: t.id, Value: fmt.Sprint(r), Stack: string(debug.Stack())}
					if f, ok := r.(interface{ Addr() uintptr }); ok {
						p.Addr = f.Addr()
					}
					s.panics = append(s.panics, p)
				}
			}
		}()
		t.fn()
	}()
	releaseTask()
	if s = sched; s == nil {
		return
	}
	s.self()
	t.state = stDone
	s.leave(t)
}

// leave hands the baton on for good or until t is woken.
//
//go:norace
func (s *scheduler) leave(t *task) {
	s.step++
	next := s.pick(t)
	if next == nil {
		s.wakeReady(t)
		next = s.pick(t)
	}
	if next == nil && s.outside > 0 {
		s.cur = nil // the watcher goes on
		return
	}
	if next == nil {
		s.dead = !s.rootsDone()
		raceOff()
		s.done <- struct{}{}
		raceOn()
		return
	}
	s.record(next)
	s.cur = next
	raceOff()
	next.wake <- struct{}{}
	raceOn()
}

//go:norace
func (s *scheduler) record(next *task) {
	s.switches = append(s.switches, Switch{s.step, next.id})
	s.hash = (s.hash ^ (s.step<<8 | uint64(next.id))) * 1099511628211
}

// pick chooses among the runnable tasks other than me (which has ended or is
// blocked, or is nil at the start).
//
//go:norace
func (s *scheduler) pick(me *task) *task {
	var run []*task
	for _, t := range s.tasks {
		if t != me && t.state == stReady {
			run = append(run, t)
		}
	}
	if len(run) == 0 {
		return nil
	}
	switch s.strat.Kind {
	case "trace":
		if id, ok := s.traced(); ok {
			for _, t := range run {
				if t.id == id {
					return t
				}
			}
		}
		return run[0]
	case "pct":
		best := run[0]
		for _, t := range run {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case "none", "rr":
		if me != nil {
			for _, t := range run {
				if t.id > me.id {
					return t
				}
			}
		}
		return run[0]
	default:
		return run[s.rand()%uint64(len(run))]
	}
}

//go:norace
func yield(n uint32) {
	s := sched
	me := s.self()
	s.step++
	if len(s.tasks) == 1 {
		return
	}
	var next *task
	switch s.strat.Kind {
	case "random":
		if s.rand()%uint64(s.strat.P) != 0 {
			return
		}
		next = s.pick(me)
	case "sites":
		if !s.wanted(n) {
			return
		}
		next = s.pick(me)
	case "rr":
		next = s.pick(me)
	case "pct":
		if s.changes() {
			s.lowPrio--
			me.prio = s.lowPrio
		}
		next = s.pick(me)
		if next != nil && next.prio < me.prio {
			return
		}
	case "trace":
		id, ok := s.traced()
		if !ok || id == me.id {
			return
		}
		for _, t := range s.tasks {
			if t.id == id && t.state == stReady {
				next = t
			}
		}
	}
	if next == nil || next == me {
		return
	}
	s.pass(me, next)
}

// Wait blocks the current task until w is ready. It must be followed by the
// action that w guards without an intervening choice point. Outside a
// phase it panics if w is not ready, since nobody could make it hold.
//
//go:norace
func Wait(w Waiter) {
	if sched == nil {
		for i := 0; !w.Ready(); i++ {
			if i > 1000 {
				panic("vsim: blocked forever")
			}
			runtime.Gosched()
		}
		return
	}
	s := sched
	me := s.self()
	for !w.Ready() {
		s = sched
		s.blocked++
		s.step++
		me.state = stBlocked
		me.waitOn = w
		s.wakeReady(me)
		next := s.pick(me)
		if next == nil && s.outside > 0 {
			s.cur = nil // the watcher goes on
			raceOff()
			<-me.wake
			raceOn()
			continue
		}
		if next == nil {
			s.dead = !s.rootsDone()
			raceOff()
			s.done <- struct{}{}
			<-me.wake // in a later phase, if ever
			raceOn()
			continue
		}
		s.pass(me, next)
	}
	me.state = stReady
	me.waitOn = nil
}

//go:norace
func (s *scheduler) wakeReady(me *task) {
	for _, t := range s.tasks {
		if t != me && t.state == stBlocked {
			if t.waitOn != nil && t.waitOn.Ready() {
				t.state = stReady
			}
		}
	}
}

// Wake lets blocked tasks re-examine their condition; to be called after
// releasing something.
//
//go:norace
func Wake() {
	if sched == nil {
		return
	}
	sched.wakeReady(nil)
}

// Go starts a new task inside a phase, or an ordinary goroutine outside.
//
//go:norace
func Go(fn func()) {
	if sched == nil {
		go fn()
		return
	}
	sched.self()
	sched.add(fn)
}

// Printed takes what the builtin print functions write, if set.
var Printed func(s string)

// Print replaces the builtin functions print and println, whose arguments are
// of basic types.
func Print(a ...any) {
	if Printed != nil {
		Printed(fmt.Sprint(a...))
	}
}
