package scen

import (
	"fmt"
	"time"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
)

// ReusePlan is the life of one signal object.
type ReusePlan struct {
	Steps []RStep `json:"steps"`
	Zone  int     `json:"zone,omitempty"`
}

// RStep is an event in that life.
type RStep struct {
	Op   string         `json:"op"` // load, edit, raw, use
	Form string         `json:"form,omitempty"`
	Sec  *model.Section `json:"sec,omitempty"`
	BM   []BMut         `json:"bm,omitempty"`
	TM   []TMut         `json:"tm,omitempty"`
	Ed   *Edit          `json:"ed,omitempty"`
	N    int            `json:"n,omitempty"`
	S    string         `json:"s,omitempty"`
}

var reuseDomain = model.Domain{Enc: true, Stuff: true, Legacy: true}

func genReuse(prop string, r *rng.R) *ReusePlan {
	p := &ReusePlan{Zone: drawZone(r)}
	g := &model.Gen{R: r, D: reuseDomain}
	var base *model.Section
	for k := r.In(2, 9); k > 0; k-- {
		var s RStep
		switch r.N(8) {
		case 0:
			e := drawEdit(g, r.Bool())
			if e.N > 5 {
				e.N = r.In(1, 5)
			}
			s = RStep{Op: "edit", Ed: &e}
		case 1:
			s = RStep{Op: "raw", N: r.N(10)}
		case 2:
			s = RStep{Op: "use", N: r.N(len(adapt.Ops))}
		default:
			s = RStep{Op: "load", Form: rng.Pick(r, adapt.Bin, adapt.Bin, adapt.JSON, adapt.XML)}
			switch {
			case base != nil && r.One(3):
				s.Sec = vary(g, base)
			default:
				s.Sec = g.Section()
			}
			base = s.Sec
			if r.One(3) {
				if s.Form == adapt.Bin {
					n := len(s.Sec.Bytes())
					for j := r.In(1, 2); j > 0; j-- {
						s.BM = append(s.BM, drawBMut(r, n))
					}
					if r.One(3) {
						s.BM = append(s.BM, BMut{K: "crc"})
					}
				} else {
					for j := r.In(1, 2); j > 0; j-- {
						s.TM = append(s.TM, drawTMut(r, s.Form, 900))
					}
				}
			}
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

func (p *ReusePlan) check() string {
	for _, s := range p.Steps {
		switch s.Op {
		case "load":
			if s.Sec == nil {
				return "no section"
			}
			if err := s.Sec.Check(reuseDomain, true); err != nil {
				return err.Error()
			}
			if s.Form != adapt.Bin && s.Form != adapt.JSON && s.Form != adapt.XML {
				return "form"
			}
		case "edit":
			if s.Ed == nil {
				return "edit"
			}
			if m := checkEdit(s.Ed, reuseDomain); m != "" {
				return m
			}
		case "raw", "use":
			if s.N < 0 {
				return "n"
			}
		default:
			return "op"
		}
	}
	return ""
}

// rawEdit changes an object in ways a user can that need no model.
func rawEdit(x *adapt.SIS, n int) {
	switch n {
	case 0:
		x.SpliceCommand = nil
	case 1:
		x.SpliceDescriptors = nil
	case 2:
		x.PreRollMilliSeconds = 4000
	case 3:
		x.EncryptedPacket.CWIndex = 77
		x.EncryptedPacket.EncryptionAlgorithm = 2
	case 4:
		x.SAPType = 2
		x.Tier = 0x123
	case 5:
		if len(x.SpliceDescriptors) > 0 {
			x.SpliceDescriptors = append(x.SpliceDescriptors, x.SpliceDescriptors[0])
		}
	case 6:
		x.SpliceDescriptors = x.SpliceDescriptors[:0]
	case 7:
		x.PTSAdjustment = 1<<33 - 1
		x.ProtocolVersion = 255
	case 8:
		*x = adapt.SIS{}
	default:
		x.XMLName.Local = "x"
	}
}

// document makes a JSON or XML document of a section with a new object.
func document(form string, s *model.Section) (string, bool) {
	x := &adapt.SIS{}
	if s.Alg == 0 && len(s.Stuff) == 0 {
		x = adapt.Build(s)
	} else if err := x.Decode(s.Bytes()); err != nil {
		return "", false
	}
	d := adapt.Do(form, x)
	return d, !(len(d) > 6 && d[:6] == "error:")
}

func execReuse(p *ReusePlan, o *core.Out) {
	const prop = "C04"
	if m := p.check(); m != "" {
		o.Invalid = m
		return
	}
	time.Local = zone(p.Zone)
	x := &adapt.SIS{}
	var sec *model.Section
	loads := 0
	guard := func(what string, n int, f func()) bool {
		if prob := core.Guard(core.Budget(n), f); prob != "" {
			o.Fail(prop, what+": "+core.Cls(prob), "%s: %s", what, prob)
			return false
		}
		return true
	}
	// copies of the object as it was, holding on to earlier commands and
	// descriptors
	type copied struct {
		x    adapt.SIS
		dump string
		at   int
	}
	var kept []copied
	still := func(k int, what string) bool {
		for i := range kept {
			if d := adapt.Dump(&kept[i].x); d != kept[i].dump {
				o.Fail(prop, "earlier content changed", "step %d, %s, changed what the caller had kept of the object since step %d: now %q, before %q", k, what, kept[i].at, clip(d, kept[i].dump), clip(kept[i].dump, d))
				return false
			}
		}
		return true
	}
	for k := range p.Steps {
		s := &p.Steps[k]
		if s.Op == "edit" || s.Op == "raw" {
			kept = nil // edits reach what copies share
		}
		switch s.Op {
		case "edit":
			if sec != nil && s.Ed.Apply(sec, x) {
				o.Fault("object edited")
			} else {
				sec = nil
			}
			continue
		case "raw":
			rawEdit(x, s.N)
			sec = nil
			o.Fault("object edited")
			continue
		case "use":
			guard("use", 8000, func() {
				o.Log("use %s: %d", adapt.Ops[s.N%len(adapt.Ops)], len(adapt.Do(adapt.Ops[s.N%len(adapt.Ops)], x)))
			})
			continue
		}
		var data []byte
		if s.Form == adapt.Bin {
			e, err := s.Sec.Map()
			if err != nil {
				o.Invalid = err.Error()
				return
			}
			data = damage(e.B, s.BM, e.Spans)
			countB(o, s.BM)
		} else {
			d, ok := document(s.Form, s.Sec)
			if !ok {
				continue
			}
			data = []byte(tdamage(s.Form, d, s.TM))
			countT(o, s.TM)
		}
		before := adapt.Dump(x)
		if len(kept) < 4 {
			kept = append(kept, copied{*x, before, k})
		} else {
			kept[k%4] = copied{*x, before, k}
		}
		y := &adapt.SIS{}
		var err, ferr error
		if !guard("load", len(data), func() { err = adapt.LoadInto(x, s.Form, append([]byte(nil), data...)) }) ||
			!guard("load", len(data), func() { ferr = adapt.LoadInto(y, s.Form, append([]byte(nil), data...)) }) {
			return
		}
		where := fmt.Sprintf("step %d, %s load of %q", k, s.Form, clip(string(data), ""))
		if s.Form == adapt.Bin {
			where = fmt.Sprintf("step %d, load of %s", k, short(data))
		}
		if !still(k, s.Form+" load") {
			return
		}
		if loads > 0 {
			o.Nontrivial = true
			o.Fault("object reused")
		}
		loads++
		if a, b := errText(err), errText(ferr); a != b {
			o.Fail(prop, "different error", "%s: %s into the used object, %s into a new one", where, a, b)
		}
		a, b := adapt.Dump(x), adapt.Dump(y)
		o.Log("step %d %s %s %s", k, s.Form, errText(err), b)
		if s.Form != adapt.Bin && err != nil {
			o.Probe("failed document load")
			if a != before {
				o.Fail(prop, "failed load changed the object", "%s failed (%v) and left %q, before %q", where, err, clip(a, before), clip(before, a))
			}
			continue
		}
		if err != nil {
			o.Probe("failed binary load")
		}
		if a != b {
			o.Fail(prop, "different content", "%s: the used object has %q, a new one %q", where, clip(a, b), clip(b, a))
			return
		}
		sec = nil
		if len(s.BM) == 0 && len(s.TM) == 0 && (s.Form != adapt.XML || fitsXML(s.Sec)) {
			sec = s.Sec.Clone()
			if err != nil {
				o.Fail(prop, "load fails", "%s: %v", where, err)
			}
			if s.Form != adapt.Bin {
				sec.Stuff = nil
			}
			differ(o, prop, "wrong content", where, sec.View(), adapt.View(x))
		}
		for _, op := range adapt.Ops {
			var a, b string
			if !guard(op, len(data), func() { a = adapt.Do(op, x) }) || !guard(op, len(data), func() { b = adapt.Do(op, y) }) {
				return
			}
			if a != b {
				o.Fail(prop, "different "+op, "%s: %s of the used object gives %q, of a new one %q", where, op, clip(a, b), clip(b, a))
			}
			if op == "hex" && sec != nil && sec.Alg == 0 {
				m := sec.Clone()
				m.Legacy = false
				if w := string(adapt.Wrap(adapt.Hex, m.Bytes())); w != a {
					o.Fail(prop, "wrong "+op, "%s: re-encodes as %q, should be %q", where, clip(a, w), clip(w, a))
				}
			}
			o.Log("%s %d", op, len(a))
			o.Result(a)
		}
		if !still(k, "use of the object") {
			return
		}
	}
	if loads < 2 {
		o.Nontrivial = false
	}
	o.Inter = o.Hash
}

func init() {
	core.Register(core.S[ReusePlan]{ID: "reuse", G: genReuse, E: execReuse}, map[string]int{"C04": 1})
}
