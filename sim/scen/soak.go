package scen

import (
	"runtime"
	"time"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
	"verif.local/sim/vsim"
	"verif.local/sim/vsync"
)

// SoakPlan describes a long service: one signal after the other arrives, is
// worked on and let go.
type SoakPlan struct {
	Seed uint64         `json:"seed"` // of the arriving signals
	Base *model.Section `json:"base,omitempty"`
	// Forms the signals arrive in, in turn.
	Forms []string `json:"forms"`
	Into  bool     `json:"into,omitempty"` // one object takes them all
	// Bytes and Texts tell how many of 4 arrive damaged.
	Bytes int   `json:"bytes,omitempty"`
	Texts int   `json:"texts,omitempty"`
	Ops   []int `json:"ops"`            // what is asked of every signal
	Edit  bool  `json:"edit,omitempty"` // every other one is edited
	// Tasks is how many signals are handled at the same time.
	Tasks int `json:"tasks,omitempty"`
	P     int `json:"p,omitempty"` // they take turns about every P steps
	Zone  int `json:"zone,omitempty"`
}

// The service goes on for soakWarm signals before anything is measured, and
// then in stretches. What grows in all of the first ones has to go on growing
// in the further ones to count: a cache or pool of limited size does not.
var (
	soakWarm    = 200
	soakFirst   = []int{250, 500}
	soakFurther = []int{1500, 3000, 6000}
	soakMore    = []int{12000, 24000}
)

// What is kept for all the values of a field of 8 bits, or for the last few
// hundred signals, fills so slowly where few signals need it that it seems to
// grow without end. Less than this is taken for that kind.
const (
	soakObjects = 5000
	soakBytes   = 1 << 20
	soakSteps   = 3000
)

func genSoak(prop string, r *rng.R) *SoakPlan {
	p := &SoakPlan{Seed: r.U64(), Zone: drawZone(r), Into: r.One(3)}
	if r.Bool() {
		g := &model.Gen{R: r, D: reuseDomain}
		p.Base = g.Section()
	}
	for n := r.In(1, 3); n > 0; n-- {
		p.Forms = append(p.Forms, rng.Pick(r, adapt.Bin, adapt.Bin, adapt.B64, adapt.Hex, adapt.JSON, adapt.XML))
	}
	p.Bytes = rng.Pick(r, 0, 0, 1, 4)
	p.Texts = rng.Pick(r, 0, 1, 4)
	for n := r.N(5); n > 0; n-- {
		p.Ops = append(p.Ops, r.N(len(adapt.Ops)))
	}
	p.Edit = r.One(3)
	if r.One(3) {
		p.Tasks, p.P = r.In(2, 4), rng.Pick(r, 2, 10, 60)
	}
	return p
}

func (p *SoakPlan) check() string {
	if len(p.Forms) == 0 || p.Bytes < 0 || p.Texts < 0 || p.Tasks < 0 || p.Tasks > 8 || p.P < 0 {
		return "forms"
	}
	for _, f := range p.Forms {
		switch f {
		case adapt.Bin, adapt.B64, adapt.Hex, adapt.JSON, adapt.XML:
		default:
			return "form"
		}
	}
	for _, i := range p.Ops {
		if i < 0 || i >= len(adapt.Ops) {
			return "op"
		}
	}
	if p.Base != nil {
		if err := p.Base.Check(reuseDomain, true); err != nil {
			return err.Error()
		}
	}
	return ""
}

// holding is what the process holds at a time.
type holding struct {
	objects, bytes int64
	routines       int
}

func holds() (h holding) {
	vsim.Drain()
	vsim.Forget()
	for i := 0; i < 3; i++ {
		vsync.Collect()
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return holding{int64(m.Mallocs) - int64(m.Frees), int64(m.HeapAlloc), runtime.NumGoroutine()}
}

func execSoak(p *SoakPlan, o *core.Out) {
	const prop = "C21"
	if m := p.check(); m != "" {
		o.Invalid = m
		return
	}
	time.Local = zone(p.Zone)
	w := &soak{p: p, o: o}
	seen := 0
	stretch := func(n int) bool {
		for ; n > 0; n-- {
			if p.Tasks > 1 {
				k := min(4*p.Tasks, n)
				if !w.together(k) {
					return false
				}
				n -= k - 1
			} else if !w.signal() {
				return false
			}
			if w.n-seen < 16 {
				continue
			}
			seen = w.n
			if w.crowd() {
				o.Fail(prop, "goroutines pile up", "more than %d goroutines are left over from the signals handled so far", soakCrowd)
				return false
			}
		}
		// whatever the last one was, it is let go
		for i := range max(1, p.Tasks) {
			if !w.small(i) {
				return false
			}
		}
		return true
	}
	w.base = runtime.NumGoroutine()
	if !stretch(soakWarm) {
		return
	}
	yard := w.measure()
	if yard == nil {
		return
	}
	was := holds()
	start, startYard := was, yard
	// what has grown in every stretch so far
	memory, routines, slower := true, true, -1
	all := append([]int{}, soakFirst...)
	for i := 0; i < len(all); i++ {
		n := all[i]
		if !stretch(n) {
			return
		}
		y := w.measure()
		if y == nil {
			return
		}
		now := holds()
		d := holding{now.objects - was.objects, now.bytes - was.bytes, now.routines - was.routines}
		was = now
		memory = memory && (d.objects*60 > int64(n)+100 || d.bytes > int64(n/2+200))
		routines = routines && d.routines*60 > n
		at := -1
		for j := range y {
			if (slower == j || i == 0 && at < 0) && y[j] > yard[j]+uint64(n/20) {
				at = j
			}
		}
		slower, yard = at, y
		if !memory && !routines && slower < 0 {
			break
		}
		if i == len(soakFirst)-1 {
			o.Probe("growing at first")
			all = append(all, soakFurther...)
		}
		much := memory && (now.objects-start.objects > soakObjects || now.bytes-start.bytes > soakBytes)
		long := slower >= 0 && y[slower] > startYard[slower]+soakSteps
		if i == len(all)-1 && !much && !long && !routines {
			k := len(all) - len(soakFirst) - len(soakFurther)
			if k == len(soakMore) {
				o.Probe("what is kept may be limited")
				memory, slower = false, -1
				break
			}
			all = append(all, soakMore[k])
		}
	}
	switch {
	case memory:
		o.Fail(prop, "memory is kept", "after every stretch of signals (of %v) the process holds more memory than before, in proportion to their number, though nothing refers to them any more", all)
	case routines:
		o.Fail(prop, "goroutines pile up", "after every stretch of signals (of %v) there are more goroutines than before", all)
	case slower >= 0:
		o.Fail(prop, "calls take longer", "handling the same signal (measure %d) takes more steps after every stretch of signals (of %v), in proportion to their number", slower, all)
	}
	o.SimNS = int64(w.n) * 40_000_000
	o.Probes["signals served"] += w.n
	o.Log("%d signals %x, %d refused", w.n, w.sum, w.refused)
	o.Nontrivial = true
	o.Inter = o.Hash
}

// soakCrowd is how many goroutines may be left over at any time.
const soakCrowd = 100

// crowd tells whether there are too many goroutines.
func (w *soak) crowd() bool {
	if runtime.NumGoroutine() <= w.base+soakCrowd {
		return false
	}
	vsim.Drain()
	for i := 0; i < 1000; i++ {
		runtime.Gosched()
	}
	return runtime.NumGoroutine() > w.base+soakCrowd
}

// soak is a long service.
type soak struct {
	p       *SoakPlan
	o       *core.Out
	base    int // goroutines at first
	fresh   uint64
	sum     uint64 // of all that arrived
	n       int
	refused int
	obj     [8]*adapt.SIS
}

// arrival is a signal as it arrives.
type arrival struct {
	n    int
	form string
	data []byte
}

// arrive draws the next signal; ok is false if that went wrong.
func (w *soak) arrive() (a arrival, ok bool) {
	p := w.p
	r := rng.New(rng.Hash(p.Seed, uint64(w.n)))
	g := &model.Gen{R: r, D: reuseDomain}
	a.form = p.Forms[w.n%len(p.Forms)]
	a.n = w.n
	w.n++
	vsim.SetNow(vsim.NowNS() + 40_000_000)
	in := CrashIn{Form: a.form}
	if p.Base != nil {
		in.Sec = vary(g, p.Base)
		in.Sec.PTSAdj = r.U64() & (1<<33 - 1)
	} else {
		in.Sec = g.Section()
	}
	if r.N(4) < p.Bytes {
		in.BM = append(in.BM, drawBMut(r, len(in.Sec.Bytes())))
		if r.Bool() {
			in.BM = append(in.BM, BMut{K: "crc"})
		}
		w.o.Faults["damaged signal"]++
	}
	if r.N(4) < p.Texts {
		in.TM = append(in.TM, drawTMut(r, a.form, rng.Pick(r, 100, 900)))
		w.o.Faults["damaged text"]++
	}
	return w.made(a, &in)
}

func (w *soak) made(a arrival, in *CrashIn) (arrival, bool) {
	quiet := core.NewOut()
	a.data = in.data(quiet)
	if len(quiet.Viol) > 0 {
		w.o.Log("making the signal: %s", quiet.Viol[0].Msg)
		return a, false
	}
	w.sum = rng.Hash(w.sum, rng.HashString(string(a.data)))
	return a, true
}

// signal lets the next signal arrive.
func (w *soak) signal() bool {
	a, ok := w.arrive()
	return ok && w.guarded(0, a)
}

// small has an object hold a small signal instead of the last one.
func (w *soak) small(task int) bool {
	a, ok := w.made(arrival{form: adapt.Bin}, &CrashIn{Form: adapt.Bin, Sec: soakYard[0]})
	return ok && w.guarded(task, a)
}

func (w *soak) guarded(task int, a arrival) bool {
	if prob := core.Guard(20*core.Budget(2*len(a.data)+8000), func() { w.handle(task, a) }); prob != "" {
		// not what this is about
		w.o.Log("%s", prob)
		return false
	}
	return true
}

// together lets the next n signals be handled by several tasks.
func (w *soak) together(n int) bool {
	var as []arrival
	for range n {
		a, ok := w.arrive()
		if !ok {
			return false
		}
		as = append(as, a)
	}
	var fns []func()
	for i := range w.p.Tasks {
		fns = append(fns, func() {
			for j := i; j < len(as); j += w.p.Tasks {
				w.handle(i, as[j])
			}
		})
	}
	old := vsim.Allow(60_000_000)
	res := vsim.Run(fns, vsim.Strategy{Kind: "random", Seed: rng.Hash(w.p.Seed, 2, uint64(w.n)), P: max(2, w.p.P)})
	vsim.Restore(old)
	w.o.Switches += len(res.Switches)
	w.o.Faults["preemption"] += len(res.Switches)
	if res.Deadlock || len(res.Panics) > 0 {
		for _, p := range res.Panics {
			if !core.Library(p.Stack) {
				panic("task " + p.Value + "\n" + p.Stack)
			}
		}
		w.o.Log("together: deadlock %v, %d panics", res.Deadlock, len(res.Panics))
		return false
	}
	return true
}

// handle does what is to be done with a signal.
func (w *soak) handle(task int, a arrival) {
	if a.data == nil {
		return
	}
	var x *adapt.SIS
	var err error
	if w.p.Into && (a.form == adapt.Bin || a.form == adapt.JSON || a.form == adapt.XML) {
		if w.obj[task] == nil {
			w.obj[task] = &adapt.SIS{}
		}
		x = w.obj[task]
		err = adapt.LoadInto(x, a.form, a.data)
	} else {
		x, err = adapt.Load(a.form, a.data)
	}
	if err != nil {
		w.refused++
	}
	if x == nil {
		return
	}
	for _, i := range w.p.Ops {
		adapt.Do(adapt.Ops[i], x)
	}
	if w.p.Edit && a.n%2 == 0 {
		rawEdit(x, a.n/2%10)
		for _, i := range w.p.Ops {
			adapt.Do(adapt.Ops[i], x)
		}
	}
}

// soakYard are the signals whose handling is measured.
var soakYard = func() (out []*model.Section) {
	for i := uint64(0); i < 6; i++ {
		g := &model.Gen{R: rng.New(rng.Hash(77, i)), D: model.Domain{}}
		out = append(out, g.Section())
	}
	return
}()

// measure returns how many steps it takes to handle some signals that have not
// been met before, intact and damaged.
func (w *soak) measure() (out []uint64) {
	for i, s := range soakYard {
		s = s.Clone()
		w.fresh++
		s.PTSAdj = 1<<32 | rng.Hash(w.p.Seed, 1, w.fresh)>>32
		for _, form := range []string{adapt.Bin, "bad", adapt.JSON, adapt.XML} {
			data, ok := s.Bytes(), true
			load := form
			switch form {
			case "bad":
				load = adapt.Bin
				data[len(data)-1-i%4] ^= 0x20
			case adapt.JSON, adapt.XML:
				var t string
				if t, ok = document(form, s); !ok {
					continue
				}
				data = []byte(t)
			}
			n0 := vsim.Steps()
			prob := core.Guard(core.Budget(len(data)+100000), func() {
				x, _ := adapt.Load(load, data)
				if x != nil {
					for _, op := range adapt.Ops {
						adapt.Do(op, x)
					}
				}
			})
			if prob != "" {
				w.o.Log("measuring: %s", prob)
				return nil
			}
			out = append(out, vsim.Steps()-n0)
		}
	}
	return out
}

func init() {
	core.Register(core.S[SoakPlan]{ID: "soak", G: genSoak, E: execSoak}, map[string]int{"C21": 1})
}
