package scen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
	"verif.local/sim/vsim"
)

// OwnPlan describes receivers that read frames into one arena of buffers,
// reuse the buffers at once, and scribble over what encodings returned.
type OwnPlan struct {
	Sigs  []Sig         `json:"sigs"`
	Tasks [][]OOp       `json:"tasks"`
	Slot  int           `json:"slot"` // bytes per receiver in the arena
	Fill  uint64        `json:"fill,omitempty"`
	Strat vsim.Strategy `json:"strat"`
}

// SetTrace fixes the schedule to a recorded one.
func (p *OwnPlan) SetTrace(t []vsim.Switch) { p.Strat = vsim.Strategy{Kind: "trace", Trace: t} }

// OOp is a step of a receiver.
type OOp struct {
	Op   string `json:"op"` // load, scribble, check, out, scribbleout, edit, upid, text
	Sig  int    `json:"sig,omitempty"`
	Obj  int    `json:"obj,omitempty"`
	Off  int    `json:"off,omitempty"`  // where in the slot
	Form string `json:"form,omitempty"` // load: bin, json, jsonm, xml; out: encode, json, cmd, desc
	Pat  uint64 `json:"pat,omitempty"`  // scribble: the pattern
	N    int    `json:"n,omitempty"`
	Ed   *Edit  `json:"ed,omitempty"`
	Lent bool   `json:"lent,omitempty"` // load: from memory that can only be read and is taken away afterwards
}

const ownObjs = 4

var ownDomain = model.Domain{Enc: true, Stuff: true, Legacy: true}

func genOwn(prop string, r *rng.R) *OwnPlan {
	p := &OwnPlan{Fill: r.U64(), Strat: strategy(r)}
	g := &model.Gen{R: r, D: ownDomain}
	n := r.In(1, 4)
	for i := 0; i < n; i++ {
		s := drawSig(g, nil)
		s.Origin = adapt.Bin
		if r.One(5) {
			if r.Bool() {
				s.Cut = r.In(1, 12)
			} else {
				for k := r.In(1, 3); k > 0; k-- {
					s.Flip = append(s.Flip, r.N(1<<15))
				}
			}
		}
		p.Sigs = append(p.Sigs, s)
	}
	p.Slot = rng.Pick(r, 64, 512, 4200, 16384)
	for t := rng.Pick(r, 1, 1, 2, 3); t > 0; t-- {
		var ops []OOp
		for k := r.In(3, 14); k > 0; k-- {
			o := OOp{Sig: r.N(n), Obj: r.N(ownObjs)}
			switch r.N(12) {
			case 0, 1, 2, 3:
				o.Op = "load"
				o.Form = rng.Pick(r, adapt.Bin, adapt.Bin, adapt.Bin, adapt.JSON, "jsonm", adapt.XML)
				o.Off = rng.Pick(r, 0, 1, 3, 7, r.N(40))
				o.Lent = r.One(3)
			case 4, 5:
				o.Op = "scribble"
				o.Pat = rng.Pick(r, 0, 0xFFFFFFFFFFFFFFFF, r.U64())
			case 6, 7:
				o.Op = "out"
				o.Form = rng.Pick(r, "encode", "encode", "json", "cmd", "desc")
			case 8:
				o.Op = "scribbleout"
				o.N = r.N(6)
				o.Pat = r.U64()
			case 9, 10:
				o.Op = "edit"
				e := drawEdit(g, r.Bool())
				if e.N > 6 {
					e.N = r.In(1, 6)
				}
				o.Ed = &e
			case 11:
				o.Op = rng.Pick(r, "upid", "text")
				o.N = r.N(256)
			}
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func (p *OwnPlan) check() string {
	if len(p.Tasks) == 0 || len(p.Tasks) > 6 || p.Slot < 16 || p.Slot > 1<<20 {
		return "size"
	}
	for i := range p.Sigs {
		s := &p.Sigs[i]
		if s.Sec == nil || s.Origin != adapt.Bin || s.Cut < 0 || s.Text != "" {
			return "signal"
		}
		if err := s.Sec.Check(ownDomain, true); err != nil {
			return err.Error()
		}
	}
	for _, ops := range p.Tasks {
		for _, o := range ops {
			if o.Sig < 0 || o.Sig >= len(p.Sigs) && o.Op == "load" || o.Obj < 0 || o.Obj >= ownObjs || o.Off < 0 || o.Off > 4096 || o.N < 0 {
				return "operation"
			}
			if o.Op == "edit" {
				if o.Ed == nil {
					return "edit"
				}
				if m := checkEdit(o.Ed, ownDomain); m != "" {
					return m
				}
			}
		}
	}
	return ""
}

// held is what an encoding returned.
type held struct {
	b    []byte
	want []byte
	what string
}

// ownObj is a signal of a receiver and the content it must keep.
type ownObj struct {
	x    *adapt.SIS
	dump string
	sec  *model.Section
}

type receiver struct {
	id    int
	p     *OwnPlan
	arena []byte
	lo    int
	hi    int
	objs  [ownObjs]ownObj
	held  []held
	upids []ownUPID
	fails []string
	class []string
	log   []string
}

type ownUPID struct {
	u, want scte35.SegmentationUPID
	t       *scte35.Bytes
	wantT   []byte
}

func (w *receiver) fail(class, f string, a ...any) {
	w.class = append(w.class, class)
	w.fails = append(w.fails, fmt.Sprintf(f, a...))
}

func pattern(b []byte, pat uint64) {
	for i := range b {
		pat = pat*6364136223846793005 + 1442695040888963407
		b[i] = byte(pat >> 56)
	}
}

// checkAll makes sure nothing has changed.
func (w *receiver) checkAll(after string) {
	for i := range w.objs {
		o := &w.objs[i]
		if o.x == nil {
			continue
		}
		if d := adapt.Dump(o.x); d != o.dump {
			w.fail("content changed by "+after, "receiver %d, object %d: after %s the content is %q, was %q", w.id, i, after, clip(d, o.dump), clip(o.dump, d))
			o.dump = d
			o.sec = nil
		}
	}
	for i := range w.held {
		h := &w.held[i]
		if !bytes.Equal(h.b, h.want) {
			w.fail("output changed by "+after, "receiver %d: after %s the bytes %s returned earlier have changed", w.id, after, h.what)
			h.want = append([]byte(nil), h.b...)
		}
	}
	for i := range w.upids {
		u := &w.upids[i]
		if u.t != nil {
			if !bytes.Equal(*u.t, u.wantT) {
				w.fail("bytes changed by "+after, "receiver %d: after %s a Bytes value has changed", w.id, after)
				u.wantT = append([]byte(nil), *u.t...)
			}
			continue
		}
		if u.u.Value != u.want.Value || u.u.Format != u.want.Format || u.u.Type != u.want.Type {
			w.fail("UPID changed by "+after, "receiver %d: after %s a UPID has changed", w.id, after)
			u.u = u.want
		}
	}
}

// encodeAs loads the signal the way the operation says from exactly b.
func loadAs(form string, x *adapt.SIS, b []byte) error {
	if form == "jsonm" {
		return x.UnmarshalJSON(b)
	}
	return adapt.LoadInto(x, form, b)
}

// frame returns what travels for a signal in a form.
func (w *receiver) frame(sig int, form string) []byte {
	s := &w.p.Sigs[sig]
	b := s.data()
	if form == adapt.Bin {
		return b
	}
	x := &adapt.SIS{}
	if err := x.Decode(b); err != nil && x.SpliceCommand == nil {
		return nil
	}
	op := "json"
	if form == adapt.XML {
		op = "xml"
	}
	d := adapt.Do(op, x)
	if len(d) > 6 && d[:6] == "error:" {
		return nil
	}
	return []byte(d)
}

func (w *receiver) step(k int, o *OOp) {
	ob := &w.objs[o.Obj]
	switch o.Op {
	case "load":
		f := w.frame(o.Sig, o.Form)
		if f == nil || len(f)+o.Off > w.hi-w.lo {
			w.log = append(w.log, "skip")
			return
		}
		a := w.lo + o.Off
		var l *lent
		var from []byte
		if o.Lent {
			if w.id < len(lents) {
				l = lents[w.id]
				from = l.fill(f)
			}
		}
		if from == nil {
			l = nil
			copy(w.arena[a:], f)
			from = w.arena[a : a+len(f)]
		}
		before := append([]byte(nil), w.arena[w.lo:w.hi]...)
		x := &adapt.SIS{}
		err := loadAs(o.Form, x, from)
		text := errText(err)
		if l != nil {
			l.back()
		}
		if !bytes.Equal(before, w.arena[w.lo:w.hi]) {
			w.fail("wrote to the buffer", "receiver %d: loading %s of signal %d wrote to the caller's buffer", w.id, o.Form, o.Sig)
		}
		// the same from a buffer of exactly the size
		y := &adapt.SIS{}
		c := make([]byte, len(f))
		copy(c, f)
		err2 := loadAs(o.Form, y, c)
		d := adapt.Dump(x)
		if d2 := adapt.Dump(y); d != d2 || text != errText(err2) {
			w.fail("depends on neighbours", "receiver %d: loading %s of signal %d (%s) in the arena gives %s %q, elsewhere %s %q", w.id, o.Form, o.Sig, short(f), text, clip(d, d2), errText(err2), clip(d2, d))
		}
		ob.x, ob.dump, ob.sec = x, d, nil
		if s := &w.p.Sigs[o.Sig]; !s.damaged() && (o.Form != adapt.XML || fitsXML(s.Sec)) {
			ob.sec = s.Sec.Clone()
			if o.Form != adapt.Bin {
				ob.sec.Stuff = nil
			}
		}
		w.log = append(w.log, o.Form+" "+text+" "+d)
	case "scribble":
		pattern(w.arena[w.lo:w.hi], o.Pat)
	case "out":
		if ob.x == nil {
			return
		}
		var b []byte
		var err error
		switch o.Form {
		case "encode":
			b, err = ob.x.Encode()
		case "json":
			b, err = ob.x.MarshalJSON()
		case "cmd":
			if m, ok := ob.x.SpliceCommand.(json.Marshaler); ok {
				b, err = m.MarshalJSON()
			}
		case "desc":
			if len(ob.x.SpliceDescriptors) == 0 {
				return
			}
			if m, ok := ob.x.SpliceDescriptors[len(ob.x.SpliceDescriptors)-1].(json.Marshaler); ok {
				b, err = m.MarshalJSON()
			}
		}
		if o.Form == "encode" && err == nil && ob.sec != nil && ob.sec.Alg == 0 {
			m := ob.sec.Clone()
			m.Legacy = false
			if e, err := m.Encode(); err == nil && e.SectionLength <= 4093 && !bytes.Equal(e.B, b) {
				w.fail("wrong encoding", "receiver %d, object %d: encodes as %s, should be %s", w.id, o.Obj, short(b), short(e.B))
			}
		}
		w.held = append(w.held, held{b, append([]byte(nil), b...), o.Form})
		w.log = append(w.log, fmt.Sprintf("%s %x %v", o.Form, b, err))
	case "scribbleout":
		if len(w.held) == 0 {
			return
		}
		h := &w.held[o.N%len(w.held)]
		// the caller may also append in place
		full := h.b[:cap(h.b)]
		pattern(full, o.Pat)
		h.want = append([]byte(nil), h.b...)
	case "edit":
		if ob.x == nil || ob.sec == nil {
			return
		}
		if o.Ed.Apply(ob.sec, ob.x) {
			ob.dump = adapt.Dump(ob.x)
			if m := model.Diff(ob.sec.View(), adapt.View(ob.x)); len(m) > 0 {
				w.fail("wrong content", "receiver %d, object %d: %v", w.id, o.Obj, m)
			}
		}
		w.log = append(w.log, "edit "+ob.dump)
	case "upid", "text":
		n := min(12, w.hi-w.lo)
		b := w.arena[w.lo : w.lo+n]
		pattern(b, uint64(o.N)+1)
		if o.Op == "upid" {
			u := scte35.NewSegmentationUPID(uint32(o.N), b)
			w.upids = append(w.upids, ownUPID{u: u, want: scte35.SegmentationUPID{Type: u.Type, Format: string([]byte(u.Format)), Value: string([]byte(u.Value))}})
		} else {
			for i := range b {
				b[i] = "0123456789abcdefABCDEF"[b[i]%22]
			}
			t := new(scte35.Bytes)
			if t.UnmarshalText(b) == nil {
				w.upids = append(w.upids, ownUPID{t: t, wantT: append([]byte(nil), *t...)})
			}
		}
	default:
		return
	}
	w.checkAll(o.Op)
}

func execOwn(p *OwnPlan, o *core.Out) {
	const prop = "C03"
	if m := p.check(); m != "" {
		o.Invalid = m
		return
	}
	time.Local = time.UTC
	n := len(p.Tasks)
	lend(n)
	arena := make([]byte, p.Slot*n+16, p.Slot*n+64)
	pattern(arena[:cap(arena)], p.Fill)
	tail := append([]byte(nil), arena[p.Slot*n:cap(arena)]...)
	var fns []func()
	var ws []*receiver
	for t := range p.Tasks {
		w := &receiver{id: t, p: p, arena: arena, lo: t * p.Slot, hi: (t + 1) * p.Slot}
		ws = append(ws, w)
		fns = append(fns, func() {
			for k := range p.Tasks[t] {
				w.step(k, &p.Tasks[t][k])
			}
			w.checkAll("the end")
		})
	}
	o.Nontrivial = true
	if run(o, prop, fns, p.Strat) == nil {
		return
	}
	if !bytes.Equal(tail, arena[p.Slot*n:cap(arena)]) {
		o.Fail(prop, "wrote to the buffer", "bytes behind the buffers were written to")
	}
	for _, w := range ws {
		if !untouched(func() { w.checkAll("the other receivers") }) {
			o.Fail(prop, "touched the caller's memory", "receiver %d: a signal still uses the memory it was loaded from", w.id)
		}
		for _, l := range w.log {
			o.Log("receiver %d: %s", w.id, l)
			o.Result(l)
		}
		for i := range w.fails {
			o.Fail(prop, w.class[i], "%s", w.fails[i])
		}
	}
	for t := range p.Tasks {
		for i := range p.Tasks[t] {
			switch p.Tasks[t][i].Op {
			case "scribble":
				o.Fault("buffer overwritten")
			case "load":
				if p.Tasks[t][i].Lent {
					o.Fault("buffer taken away")
				} else {
					o.Fault("buffer reused")
				}
			case "scribbleout":
				o.Fault("output overwritten")
			}
		}
	}
}

func init() {
	core.Register(core.S[OwnPlan]{ID: "own", G: genOwn, E: execOwn}, map[string]int{"C03": 1})
}
