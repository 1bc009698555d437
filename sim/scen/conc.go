package scen

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
	"verif.local/sim/vsim"
)

// Sig is a signal a task works on, and how it came to be.
type Sig struct {
	Sec    *model.Section `json:"sec"`
	Origin string         `json:"origin"`         // api, bin, b64, hex, 0x
	Flip   []int          `json:"flip,omitempty"` // flipped bits, modulo the length
	Cut    int            `json:"cut,omitempty"`  // bytes cut off the end
	// ThenText: convert the object through a document first (json, xml)
	Text string `json:"text,omitempty"`
	// Odd are changes to fields beyond what the format can carry.
	Odd []uint64 `json:"odd,omitempty"`
}

func (s *Sig) damaged() bool { return len(s.Flip) > 0 || s.Cut > 0 }

// known tells whether the reference model follows the signal.
func (s *Sig) known() bool { return !s.damaged() && len(s.Odd) == 0 }

func (s *Sig) data() []byte {
	b := append([]byte(nil), s.Sec.Bytes()...)
	for _, f := range s.Flip {
		if f >= 0 {
			f %= 8 * len(b)
			b[f/8] ^= 0x80 >> uint(f%8)
		}
	}
	if s.Cut > 0 && s.Cut <= len(b) {
		b = b[:len(b)-s.Cut]
	}
	return adapt.Wrap(s.form(), b)
}

func (s *Sig) form() string {
	if s.Origin == "api" {
		return adapt.Bin
	}
	return s.Origin
}

// COp is one call of a task.
type COp struct {
	Op  string `json:"op"` // load, reload, viajson, viaxml, badjson, badxml, edit, crowd or a read-only operation
	Sig int    `json:"sig"`
	Ed  *Edit  `json:"ed,omitempty"`
	// crowd: N other signals, drawn from Seed, are handled and dropped
	N    int    `json:"n,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// ConcPlan describes tasks that run concurrently.
type ConcPlan struct {
	Shared bool          `json:"shared,omitempty"`
	Sigs   []Sig         `json:"sigs"`
	Tasks  [][]COp       `json:"tasks"`
	Zone   int           `json:"zone,omitempty"`
	Log    bool          `json:"log,omitempty"` // diagnostics are formatted
	Strat  vsim.Strategy `json:"strat"`
	// OneBuf makes all tasks load from the same read-only buffers.
	OneBuf bool `json:"onebuf,omitempty"`
}

// SetTrace fixes the schedule to a recorded one.
func (p *ConcPlan) SetTrace(t []vsim.Switch) { p.Strat = vsim.Strategy{Kind: "trace", Trace: t} }

func drawSig(g *model.Gen, base *model.Section) Sig {
	r := g.R
	var s Sig
	switch {
	case base != nil && r.One(3):
		s.Sec = base.Clone()
	case base != nil && r.Bool():
		s.Sec = vary(g, base)
	default:
		s.Sec = g.Section()
	}
	s.Origin = rng.Pick(r, "api", adapt.Bin, adapt.Bin, adapt.B64, adapt.Hex, adapt.Hex0x)
	if s.Origin == "api" && (len(s.Sec.Stuff) > 0 || s.Sec.Legacy) {
		s.Origin = adapt.Bin
	}
	if r.One(3) {
		for k := r.In(1, 3); k > 0; k-- {
			s.Odd = append(s.Odd, r.U64())
		}
	}
	return s
}

func genConc(prop string, r *rng.R) *ConcPlan {
	p := &ConcPlan{Shared: prop == "C02"}
	g := &model.Gen{R: r, D: model.Domain{XML: true, Enc: true, Stuff: true, Legacy: true}}
	p.Zone = drawZone(r)
	p.Log = r.One(3)
	p.OneBuf = r.One(3)
	p.Strat = strategy(r)
	nt := rng.Pick(r, 2, 2, 2, 3, 3, 4)
	if p.Shared {
		n := rng.Pick(r, 1, 1, 2)
		g.D.XML = !r.One(3)
		for i := 0; i < n; i++ {
			s := drawSig(g, nil)
			s.Text = rng.Pick(r, "", "", "json", "xml")
			if s.Text == "xml" && !fitsXML(s.Sec) {
				s.Text = "json"
			}
			if s.Text != "" && len(s.Sec.Stuff) > 0 {
				s.Sec.Stuff = nil
			}
			if r.One(8) {
				s.Cut, s.Text = r.In(1, 6), ""
				if s.Origin == "api" {
					s.Origin = adapt.Bin
				}
			}
			p.Sigs = append(p.Sigs, s)
		}
		focus := ""
		if r.Bool() {
			focus = adapt.Ops[r.N(len(adapt.Ops))]
		}
		for t := 0; t < nt; t++ {
			var ops []COp
			for k := r.In(1, 5); k > 0; k-- {
				op := adapt.Ops[r.N(len(adapt.Ops))]
				if focus != "" && r.Bool() {
					op = focus
				}
				ops = append(ops, COp{Op: op, Sig: r.N(n)})
			}
			p.Tasks = append(p.Tasks, ops)
		}
		return p
	}
	// texts that XML cannot carry as they are, too
	g.D.XML = !r.One(3)
	base := g.Section()
	// all tasks at one or two kinds of operation, so that those meet
	var focus []string
	if r.Bool() {
		all := append([]string{"reload", "viajson", "viaxml"}, adapt.Ops...)
		focus = append(focus, all[r.N(len(all))], all[r.N(len(all))])
		if r.One(3) {
			focus = rng.Pick(r, []string{"viajson", "viaxml"}, []string{"badjson", "viajson"}, []string{"badxml", "viaxml"})
		}
	}
	for t := 0; t < nt; t++ {
		n := r.In(1, 2)
		first := len(p.Sigs)
		for i := 0; i < n; i++ {
			s := drawSig(g, base)
			if r.One(6) {
				s.Origin = rng.Pick(r, adapt.Bin, adapt.B64, adapt.Hex)
				switch r.N(3) {
				case 0:
					s.Cut = r.In(1, 12)
				default:
					for k := r.In(1, 3); k > 0; k-- {
						s.Flip = append(s.Flip, r.N(1<<15))
					}
				}
			}
			p.Sigs = append(p.Sigs, s)
		}
		var ops []COp
		for i := 0; i < n; i++ {
			ops = append(ops, COp{Op: "load", Sig: first + i})
		}
		for k := r.In(1, 6); k > 0; k-- {
			i := first + r.N(n)
			if len(focus) > 0 && !r.One(3) {
				ops = append(ops, COp{Op: focus[r.N(2)], Sig: i, Seed: r.U64()})
				continue
			}
			switch r.N(8) {
			case 0:
				ops = append(ops, COp{Op: "reload", Sig: i})
			case 1:
				ops = append(ops, COp{Op: rng.Pick(r, "viajson", "viaxml", "viajson", "viaxml", "badjson", "badxml"), Sig: i, Seed: r.U64()})
			case 2:
				e := drawEdit(g, false)
				if e.N > 4 {
					e.N = 4
				}
				ops = append(ops, COp{Op: "edit", Sig: i, Ed: &e})
			default:
				ops = append(ops, COp{Op: adapt.Ops[r.N(len(adapt.Ops))], Sig: i})
			}
		}
		if r.One(80) {
			// the traffic of a busy process
			op := COp{Op: "crowd", Sig: first, N: r.In(1, 100), Seed: r.U64()}
			if r.One(5) {
				op.N = r.In(500, 3000)
			}
			k := n + r.N(len(ops)-n+1)
			ops = append(ops[:k], append([]COp{op}, ops[k:]...)...)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

// crowd handles n other signals that resemble s and gives a hash of the answers.
func crowd(sl *slot, s *model.Section, n int, seed uint64) string {
	g := &model.Gen{R: rng.New(seed), D: model.Domain{Enc: true, Stuff: true, Legacy: true}}
	h := fnv.New64a()
	for ; n > 0; n-- {
		switch {
		case g.R.One(8):
			s = g.Section()
		default:
			s = vary(g, s)
		}
		form := rng.Pick(g.R, adapt.Bin, adapt.Bin, adapt.Bin, adapt.B64, adapt.Hex)
		b := append([]byte(nil), s.Bytes()...)
		if g.R.One(6) {
			b[g.R.N(len(b))] ^= 1 << uint(g.R.N(8))
		}
		x, err := adapt.Load(form, adapt.Wrap(form, b))
		h.Write([]byte(sl.keep(err)))
		if x != nil && g.R.One(8) {
			_, err := badDoc(rng.Pick(g.R, adapt.JSON, adapt.XML), x, g.R.U64())
			h.Write([]byte(sl.keep(err)))
		}
		if x != nil {
			h.Write([]byte(adapt.Do(adapt.Ops[g.R.N(len(adapt.Ops))], x)))
		}
	}
	return fmt.Sprintf("%x", h.Sum64())
}

// badDoc loads a damaged document of the signal.
func badDoc(form string, x *adapt.SIS, seed uint64) (*adapt.SIS, error) {
	r := rng.New(seed)
	doc := adapt.Do(form, x)
	var ms []TMut
	for k := r.In(1, 3); k > 0; k-- {
		ms = append(ms, drawTMut(r, form, len(doc)))
	}
	y := &adapt.SIS{}
	return y, adapt.LoadInto(y, form, []byte(tdamage(form, doc, ms)))
}

// state of a task's signal
type slot struct {
	x   *adapt.SIS
	sec *model.Section // the content it should have; nil if unknown
	// errors the caller keeps, and what they said
	errs []error
	said []string
}

// keep notes an error of a load and gives its text.
func (s *slot) keep(err error) string {
	t := errText(err)
	if err != nil && len(s.errs) < 64 {
		s.errs, s.said = append(s.errs, err), append(s.said, t)
	}
	return t
}

type concWorld struct {
	p    *ConcPlan
	bufs [][]byte
}

func (w *concWorld) buf(i int) []byte {
	if w.p.OneBuf {
		return w.bufs[i]
	}
	return append([]byte(nil), w.bufs[i]...)
}

// load makes the object of a signal.
func (w *concWorld) load(i int) (*adapt.SIS, error) {
	s := &w.p.Sigs[i]
	var x *adapt.SIS
	var err error
	if s.Origin == "api" {
		x = adapt.Build(s.Sec)
	} else {
		x, err = adapt.Load(s.form(), w.buf(i))
	}
	for _, k := range s.Odd {
		if x == nil {
			break
		}
		adapt.Perturb(x, k)
	}
	if s.Text != "" && err == nil {
		y := &adapt.SIS{}
		if err = adapt.LoadInto(y, s.Text, []byte(adapt.Do(s.Text, x))); err != nil {
			return x, err
		}
		x = y
	}
	return x, err
}

// task runs the operations of a task that owns its signals. Results are
// written to res, one per operation; slots keeps the final objects.
func (w *concWorld) task(ops []COp, res []string, slots []slot) {
	at := func(i int) *slot { return &slots[i] }
	for k := range ops {
		op := &ops[k]
		s := at(op.Sig)
		var out string
		switch op.Op {
		case "load":
			x, err := w.load(op.Sig)
			s.x = x
			out = s.keep(err)
		case "reload":
			if s.x == nil || w.p.Sigs[op.Sig].form() != adapt.Bin {
				x, err := w.load(op.Sig)
				s.x = x
				out = s.keep(err)
			} else {
				out = s.keep(s.x.Decode(w.buf(op.Sig)))
			}
			if s.sec != nil {
				s.sec = w.p.Sigs[op.Sig].Sec.Clone()
			}
		case "viajson", "viaxml":
			if s.x == nil {
				continue
			}
			form := op.Op[3:]
			doc := adapt.Do(form, s.x)
			y := &adapt.SIS{}
			err := adapt.LoadInto(y, form, []byte(doc))
			out = s.keep(err) + " " + adapt.Dump(y)
			if err == nil && !strings.HasPrefix(doc, "error: ") {
				s.x = y
			}
		case "badjson", "badxml":
			// another document arrives that someone else made a mess of
			if s.x == nil {
				continue
			}
			y, err := badDoc(op.Op[3:], s.x, op.Seed)
			out = s.keep(err)
			if err == nil {
				out += " " + adapt.Dump(y)
			}
		case "edit":
			if s.x == nil || s.sec == nil {
				continue
			}
			op.Ed.Apply(s.sec, s.x)
			out = "edited"
		case "crowd":
			out = crowd(s, w.p.Sigs[op.Sig].Sec, op.N, op.Seed)
		default:
			if s.x == nil {
				continue
			}
			out = adapt.Do(op.Op, s.x)
		}
		res[k] = out
	}
}

func (p *ConcPlan) check() string {
	if len(p.Tasks) == 0 || len(p.Tasks) > 8 || len(p.Sigs) > 32 {
		return "size"
	}
	d := model.Domain{Enc: true, Stuff: true, Legacy: true}
	for i := range p.Sigs {
		s := &p.Sigs[i]
		if s.Sec == nil {
			return "no section"
		}
		if err := s.Sec.Check(d, true); err != nil {
			return err.Error()
		}
		if s.Text == "xml" && !fitsXML(s.Sec) {
			return "XML"
		}
		if s.Origin == "api" && (len(s.Sec.Stuff) > 0 || s.Sec.Legacy || s.damaged()) || s.Text != "" && (len(s.Sec.Stuff) > 0 || s.damaged()) {
			return "origin"
		}
		switch s.Origin {
		case "api", adapt.Bin, adapt.B64, adapt.Hex, adapt.Hex0x:
		default:
			return "origin"
		}
		switch s.Text {
		case "", "json", "xml":
		default:
			return "text"
		}
		if s.Cut < 0 {
			return "cut"
		}
	}
	owner := map[int]int{}
	for t, ops := range p.Tasks {
		for _, op := range ops {
			if op.Sig < 0 || op.Sig >= len(p.Sigs) {
				return "signal"
			}
			if !p.Shared {
				if o, ok := owner[op.Sig]; ok && o != t {
					return "shared signal"
				}
				owner[op.Sig] = t
			}
			known := op.Op == "load" || op.Op == "reload" || op.Op == "viajson" || op.Op == "viaxml" || op.Op == "badjson" || op.Op == "badxml" || op.Op == "edit" && op.Ed != nil || op.Op == "crowd" && op.N >= 0 && op.N <= 5000
			if p.Shared {
				known = false
			}
			for _, q := range adapt.Ops {
				known = known || q == op.Op
			}
			if !known {
				return "operation " + op.Op
			}
			if op.Op == "edit" {
				if m := checkEdit(op.Ed, d); m != "" {
					return m
				}
			}
		}
	}
	return ""
}

// checkEdit tells whether an edit carries only content of the domain.
func checkEdit(e *Edit, d model.Domain) string {
	s := &model.Section{Cmd: model.Cmd{Type: model.CmdNull}}
	if e.Cmd != nil {
		s.Cmd = *e.Cmd
	}
	if e.Event != nil {
		t := &model.Section{Cmd: model.Cmd{Type: model.CmdSchedule, Events: []model.Event{*e.Event}}}
		if err := t.Check(d, false); err != nil {
			return err.Error()
		}
	}
	if e.Desc != nil {
		s.Descs = append(s.Descs, *e.Desc)
	}
	if e.UPID != nil {
		s.Descs = append(s.Descs, model.Desc{Kind: model.DSeg, UPIDs: []model.UPID{*e.UPID}})
	}
	if e.Audio != nil {
		s.Descs = append(s.Descs, model.Desc{Kind: model.DAudio, Audio: []model.Audio{*e.Audio}})
	}
	if e.SegC != nil {
		s.Descs = append(s.Descs, model.Desc{Kind: model.DSeg, Comps: []model.SegComp{*e.SegC}})
	}
	if e.S != "" {
		s.Descs = append(s.Descs, model.Desc{Kind: model.DDTMF, Chars: e.S})
	}
	if e.Comp != nil && (e.Comp.Tag > 255 || e.Comp.Time != nil && *e.Comp.Time >= 1<<33) || e.EvC != nil && e.EvC.Tag > 255 {
		return "component"
	}
	if e.N < 0 || e.I < 0 || e.J < 0 {
		return "negative"
	}
	if err := s.Check(d, false); err != nil {
		return err.Error()
	}
	return ""
}

func execConc(p *ConcPlan, o *core.Out) {
	if m := p.check(); m != "" {
		o.Invalid = m
		return
	}
	prop := "C01"
	if p.Shared {
		prop = "C02"
	}
	if p.Log {
		scte35.Logger = dropLog
	} else {
		scte35.Logger = quiet
	}
	time.Local = zone(p.Zone)
	w := &concWorld{p: p}
	for i := range p.Sigs {
		w.bufs = append(w.bufs, p.Sigs[i].data())
	}
	o.Nontrivial = len(p.Tasks) > 1
	if p.Shared {
		execShared(p, w, o)
		return
	}

	// the concurrent phase
	newSlots := func() []slot {
		s := make([]slot, len(p.Sigs))
		for i := range s {
			if p.Sigs[i].known() {
				s[i].sec = p.Sigs[i].Sec.Clone()
			}
		}
		return s
	}
	n := len(p.Tasks)
	res := make([][]string, n)
	slots := make([][]slot, n)
	var fns []func()
	for t := range p.Tasks {
		res[t] = make([]string, len(p.Tasks[t]))
		slots[t] = newSlots()
		fns = append(fns, func() { w.task(p.Tasks[t], res[t], slots[t]) })
	}
	r := run(o, prop, fns, p.Strat)
	if r == nil {
		return
	}

	// each task alone
	for t := range p.Tasks {
		solo := make([]string, len(p.Tasks[t]))
		ss := newSlots()
		if prob := core.Guard(50_000_000, func() { w.task(p.Tasks[t], solo, ss) }); prob != "" {
			o.Fail(prop, "alone: "+core.Cls(prob), "task %d alone: %s", t, prob)
			continue
		}
		for k := range solo {
			o.Result(solo[k])
			if solo[k] != res[t][k] {
				o.Fail(prop, "differs "+p.Tasks[t][k].Op, "task %d, call %d (%s): concurrently %q, alone %q", t, k, p.Tasks[t][k].Op, clip(res[t][k], solo[k]), clip(solo[k], res[t][k]))
			}
		}
		for i := range ss {
			for _, s := range []*slot{&slots[t][i], &ss[i]} {
				for k, err := range s.errs {
					if now := errText(err); now != s.said[k] {
						o.Fail(prop, "error changed", "task %d, signal %d: an error said %q, and later %q", t, i, s.said[k], now)
						break
					}
				}
			}
			if ss[i].x == nil {
				continue
			}
			a, b := adapt.Dump(ss[i].x), adapt.Dump(slots[t][i].x)
			o.Result(a)
			if a != b {
				o.Fail(prop, "content differs", "task %d, signal %d: concurrently %q, alone %q", t, i, clip(b, a), clip(a, b))
			}
		}
		// and against the reference model
		checkTask(o, prop, p, t, res[t], slots[t])
	}
	for i := range w.bufs {
		if string(w.bufs[i]) != string(p.Sigs[i].data()) {
			o.Fail(prop, "input changed", "the input of signal %d was written to", i)
		}
	}
}

// checkTask compares what a task saw with the reference model.
func checkTask(o *core.Out, prop string, p *ConcPlan, t int, res []string, slots []slot) {
	st := make([]*model.Section, len(p.Sigs))
	for k, op := range p.Tasks[t] {
		s := &p.Sigs[op.Sig]
		switch op.Op {
		case "load", "reload":
			if !s.known() {
				st[op.Sig] = nil
			} else {
				if res[k] != "ok" {
					o.Fail(prop, "load fails", "task %d, call %d: %s", t, k, res[k])
				}
				st[op.Sig] = s.Sec.Clone()
			}
		case "viajson", "viaxml":
			if m := st[op.Sig]; m != nil {
				m.Stuff = nil
				if op.Op == "viaxml" && !fitsXML(m) {
					st[op.Sig] = nil
				}
			}
		case "edit":
			if st[op.Sig] != nil {
				op.Ed.Apply(st[op.Sig], nil)
			} else {
				// edits of damaged signals are not followed
				if slots[op.Sig].sec != nil {
					st[op.Sig] = nil
				}
			}
		case "encode", "base64", "hex":
			m := st[op.Sig]
			if m == nil || m.Alg != 0 {
				continue
			}
			want := m.Clone()
			want.Legacy = false
			e, err := want.Encode()
			if err != nil || e.SectionLength > 4093 {
				continue
			}
			w := string(adapt.Wrap(map[string]string{"encode": adapt.Hex, "base64": adapt.B64, "hex": adapt.Hex}[op.Op], e.B))
			if res[k] != w {
				o.Fail(prop, "wrong "+op.Op, "task %d, call %d (%s): %q, should be %q", t, k, op.Op, clip(res[k], w), clip(w, res[k]))
			}
		}
	}
	for i, m := range st {
		if m != nil && slots[i].x != nil {
			differ(o, prop, "wrong content", fmt.Sprintf("task %d, signal %d", t, i), m.View(), adapt.View(slots[i].x))
		}
	}
}

func execShared(p *ConcPlan, w *concWorld, o *core.Out) {
	const prop = "C02"
	objs := make([]*adapt.SIS, len(p.Sigs))
	dumps := make([]string, len(p.Sigs))
	for i := range p.Sigs {
		var err error
		if prob := core.Guard(core.Budget(8000), func() { objs[i], err = w.load(i) }); prob != "" {
			o.Fail(prop, "load: "+core.Cls(prob), "%s", prob)
			return
		}
		if err != nil && p.Sigs[i].known() {
			o.Fail(prop, "load fails", "signal %d: %v", i, err)
			return
		}
		dumps[i] = adapt.Dump(objs[i])
	}
	res := make([][]string, len(p.Tasks))
	var fns []func()
	for t := range p.Tasks {
		res[t] = make([]string, len(p.Tasks[t]))
		fns = append(fns, func() {
			for k, op := range p.Tasks[t] {
				res[t][k] = adapt.Do(op.Op, objs[op.Sig])
			}
		})
	}
	if run(o, prop, fns, p.Strat) == nil {
		return
	}
	for i := range p.Sigs {
		if d := adapt.Dump(objs[i]); d != dumps[i] {
			o.Fail(prop, "content changed", "signal %d: before %q, after %q", i, clip(dumps[i], d), clip(d, dumps[i]))
		}
	}
	// a lone caller, on a fresh equal signal and on the shared one
	for t := range p.Tasks {
		for k, op := range p.Tasks[t] {
			s := &p.Sigs[op.Sig]
			var fresh *adapt.SIS
			var a, b string
			prob := core.Guard(50_000_000, func() {
				fresh, _ = w.load(op.Sig)
				a = adapt.Do(op.Op, fresh)
				b = adapt.Do(op.Op, objs[op.Sig])
			})
			if prob != "" {
				o.Fail(prop, "alone: "+core.Cls(prob), "%s: %s", op.Op, prob)
				continue
			}
			o.Result(a)
			if res[t][k] != a {
				o.Fail(prop, "differs "+op.Op, "task %d, call %d (%s): concurrently %q, alone %q", t, k, op.Op, clip(res[t][k], a), clip(a, res[t][k]))
			}
			if b != a {
				o.Fail(prop, "differs later "+op.Op, "%s: the shared signal gives %q afterwards, an equal one %q", op.Op, clip(b, a), clip(a, b))
			}
			if (op.Op == "encode" || op.Op == "hex") && s.known() && s.Sec.Alg == 0 {
				m := s.Sec.Clone()
				m.Legacy = false
				if w := hex.EncodeToString(m.Bytes()); w != a {
					o.Fail(prop, "wrong "+op.Op, "%q, should be %q", clip(a, w), clip(w, a))
				}
			}
		}
	}
	for i := range p.Sigs {
		if d := adapt.Dump(objs[i]); d != dumps[i] {
			o.Fail(prop, "content changed later", "signal %d: before %q, after %q", i, clip(dumps[i], d), clip(d, dumps[i]))
		}
		if p.Sigs[i].known() {
			differ(o, prop, "wrong content", fmt.Sprintf("signal %d", i), p.Sigs[i].Sec.View(), adapt.View(objs[i]))
		}
	}
}

// run executes a concurrent phase and records it; nil if it went wrong.
func run(o *core.Out, prop string, fns []func(), strat vsim.Strategy) *vsim.Result {
	var r *vsim.Result
	old := vsim.Allow(60_000_000)
	r = vsim.Run(fns, strat)
	vsim.Restore(old)
	o.Steps += r.Steps
	o.Switches += len(r.Switches)
	o.Inter = r.Hash
	o.Sched = r.Switches
	o.Faults["preemption"] += len(r.Switches)
	if r.Blocked > 0 {
		o.Probes["lock contention"] += r.Blocked
	}
	o.Log("phase: %d steps, %d switches, hash %x", r.Steps, len(r.Switches), r.Hash)
	if o.Verbose {
		for i, s := range r.Switches {
			if i == 200 {
				break
			}
			o.Log("step %d: task %d goes on", s.Step, s.To)
		}
	}
	for _, tp := range r.Panics {
		if tp.Addr != 0 && touched(tp.Addr) {
			o.Fail(prop, "touched the caller's memory", "task %d touched memory of the caller: it wrote to bytes it was given to load, read past their end, or used them after the load\n%s", tp.Task, core.Frames(tp.Stack))
			continue
		}
		if !core.Library(tp.Stack) {
			panic("task " + tp.Value + "\n" + tp.Stack)
		}
		o.Fail(prop, "panic: "+core.Cls(tp.Value), "task %d: %s\n%s", tp.Task, tp.Value, core.Frames(tp.Stack))
	}
	if r.Deadlock {
		o.Fail(prop, "deadlock", "tasks wait for each other")
		return nil
	}
	if len(r.Panics) > 0 {
		return nil
	}
	return r
}

// clip shortens a text to the part where it differs from another.
func clip(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	hi := min(len(a), i+120)
	s := a[lo:hi]
	if lo > 0 {
		s = "..." + s
	}
	if hi < len(a) {
		s += "..."
	}
	return s
}

func init() {
	core.Register(core.S[ConcPlan]{ID: "conc", G: genConc, E: execConc}, map[string]int{"C01": 1, "C02": 1})
}
