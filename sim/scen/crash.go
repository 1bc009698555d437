package scen

import (
	"fmt"
	"runtime/metrics"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
)

// CrashPlan is what a receiver has to put up with.
type CrashPlan struct {
	In   []CrashIn `json:"in"`
	Zone int       `json:"zone,omitempty"`
}

// CrashIn is one thing received and what is done with the result.
type CrashIn struct {
	Form string         `json:"form"`
	Sec  *model.Section `json:"sec,omitempty"`
	Raw  []byte         `json:"raw,omitempty"` // instead of a section
	BM   []BMut         `json:"bm,omitempty"`
	TM   []TMut         `json:"tm,omitempty"`
	// Into loads into the object of the input before, where that is possible.
	Into bool    `json:"into,omitempty"`
	Eds  []RStep `json:"eds,omitempty"`
	// Again reloads the documents the resulting object gives.
	Again bool `json:"again,omitempty"`
}

var crashForms = []string{adapt.Bin, adapt.Bin, adapt.Bin, adapt.B64, adapt.Hex, adapt.Hex0x, adapt.JSON, adapt.JSON, adapt.XML, adapt.XML}

func genCrash(prop string, r *rng.R) *CrashPlan {
	p := &CrashPlan{Zone: drawZone(r)}
	g := &model.Gen{R: r, D: reuseDomain}
	for k := r.In(1, 4); k > 0; k-- {
		in := CrashIn{Form: rng.Pick(r, crashForms...), Into: r.One(4), Again: r.Bool()}
		if r.One(12) {
			n := r.N(40)
			if r.One(4) {
				n = r.N(600)
			}
			in.Raw = r.Bytes(n)
			if n > 14 && r.Bool() {
				// a plausible header
				copy(in.Raw, []byte{0xFC, 0x30, byte(n - 3), 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xF0, byte(r.N(n)), byte(rng.Pick(r, 0, 4, 5, 6, 7, 255, r.N(256)))})
			}
			switch in.Form {
			case adapt.JSON:
				in.Raw = []byte(rng.Pick(r, append([]string{"", "{", "}", `{"spliceCommand":{}}`, `{"spliceCommand":{"type":5}}`, `{"spliceDescriptors":[{}]}`, `{"spliceDescriptors":[{"type":2}]}`, `{"spliceDescriptors":[[]]}`}, jsonVals...)...))
			case adapt.XML:
				in.Raw = []byte(rng.Pick(r, "", "<", "<a/>", "<SpliceInfoSection/>", `<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"/>`, "<SpliceInfoSection><SpliceInsert/></SpliceInfoSection>", "<?xml version=\"1.0\"?>", "<!DOCTYPE x [<!ENTITY a \"b\">]><x>&a;</x>"))
			}
		} else {
			in.Sec = g.Section()
		}
		n := len(in.Raw)
		if in.Sec != nil {
			n = len(in.Sec.Bytes())
		}
		doc := in.Form == adapt.JSON || in.Form == adapt.XML
		m := rng.Pick(r, 0, 1, 1, 1, 2, 3, 6)
		for ; m > 0; m-- {
			if doc && !r.One(6) {
				in.TM = append(in.TM, drawTMut(r, in.Form, rng.Pick(r, 200, 900, 4*n)))
			} else if !doc && in.Form != adapt.Bin && r.One(4) {
				in.TM = append(in.TM, drawTMut(r, in.Form, 2*n))
			} else {
				in.BM = append(in.BM, drawBMut(r, n))
			}
		}
		if r.One(3) {
			in.BM = append(in.BM, BMut{K: "crc"})
		}
		for m := rng.Pick(r, 0, 0, 1, 2); m > 0; m-- {
			if r.One(3) {
				in.Eds = append(in.Eds, drawOddUPID(r))
			} else if r.Bool() {
				in.Eds = append(in.Eds, RStep{Op: "raw", N: r.N(10)})
			} else {
				in.Eds = append(in.Eds, RStep{Op: "add", Sec: g.Section()})
			}
		}
		p.In = append(p.In, in)
	}
	return p
}

func (p *CrashPlan) check() string {
	for i := range p.In {
		in := &p.In[i]
		switch in.Form {
		case adapt.Bin, adapt.B64, adapt.Hex, adapt.Hex0x, adapt.JSON, adapt.XML:
		default:
			return "form"
		}
		for _, e := range in.Eds {
			if e.Op != "raw" && e.Op != "upid" && (e.Op != "add" || e.Sec == nil) || e.N < 0 {
				return "edit"
			}
			if e.Sec != nil {
				if err := e.Sec.Check(reuseDomain, false); err != nil {
					return err.Error()
				}
			}
		}
		if in.Sec != nil {
			if err := in.Sec.Check(reuseDomain, true); err != nil {
				return err.Error()
			}
		}
	}
	return ""
}

// drawOddUPID draws a UPID type and a text that may or may not suit it.
func drawOddUPID(r *rng.R) RStep {
	typ, b := drawNoForm(r)
	e := RStep{Op: "upid", N: int(typ), S: string(b)}
	if typ >= isoForm || r.Bool() {
		e.N = rng.Pick(r, 0, 1, 2, 5, 6, 8, 9, 0x0A, 0x0A, 0x0A, 0x0A, 0x0A, 0x0B, 0x0C, 0x0C, 0x0D, 0x0E, 0x0F, 0x10, 0xFF)
		var t []byte
		if e.N == 0x0A || r.One(4) {
			t = append(t, rng.Pick(r, "10.5240/", "10.5240/", "10.5237/", "10.0/", "10.65535/", "10.99999/", "/", "..", "10.5240/0/", "")...)
		}
		abc := rng.Pick(r, "0123456789ABCDEF", "0123456789abcdef-", "0123456789", "0", "-", "ABC/+=", "ghij", "\x00\x7f", "é")
		for n := r.N(rng.Pick(r, 3, 24, 50, 300)); n > 0; n-- {
			t = append(t, abc[r.N(len(abc))])
		}
		e.S = string(t)
	}
	return e
}

// oddUPID gives the signal such a UPID.
func oddUPID(x *adapt.SIS, e RStep) {
	k := scte35.SegmentationUPID{Type: uint32(e.N), Value: e.S}
	if len(e.S)%2 == 0 {
		f := uint32(0x41424344)
		k.FormatIdentifier = &f
	}
	for _, d := range x.SpliceDescriptors {
		if d, ok := d.(*scte35.SegmentationDescriptor); ok && d != nil && len(d.SegmentationUPIDs) > 0 && len(e.S)%3 > 0 {
			d.SegmentationUPIDs[len(e.S)%len(d.SegmentationUPIDs)] = k
			return
		}
	}
	x.SpliceDescriptors = append(x.SpliceDescriptors, &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{k}})
}

// allocated is how many bytes have been allocated since the process started.
func allocated() uint64 {
	metrics.Read(allocs)
	return allocs[0].Value.Uint64()
}

var allocs = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// memBudget is what an operation may allocate for n bytes of input.
func memBudget(n int) uint64 { return 16<<20 + 2000*uint64(n) }

func execCrash(p *CrashPlan, o *core.Out) {
	const prop = "C08"
	if m := p.check(); m != "" {
		o.Invalid = m
		return
	}
	time.Local = zone(p.Zone)
	var x *adapt.SIS
	for i := range p.In {
		in := &p.In[i]
		data := in.data(o)
		if data == nil {
			continue
		}
		where := fmt.Sprintf("input %d (%s %s)", i, in.Form, quoted(in.Form, data))
		guard := func(what string, n int, f func()) bool {
			before := allocated()
			if prob := core.Guard(core.Budget(n), f); prob != "" {
				o.Fail(prop, what+": "+core.Cls(prob), "%s: %s: %s", where, what, prob)
				return false
			}
			if m := allocated() - before; m > memBudget(n) {
				o.Fail(prop, what+": too much memory", "%s: %s allocates %d bytes", where, what, m)
				return false
			}
			return true
		}
		var err error
		form := in.Form
		if !guard("load", len(data), func() {
			if in.Into && x != nil && (form == adapt.Bin || form == adapt.JSON || form == adapt.XML) {
				err = adapt.LoadInto(x, form, data)
				return
			}
			x, err = adapt.Load(form, data)
		}) {
			return
		}
		o.Log("input %d %s %d bytes: %s", i, form, len(data), errText(err))
		if err == nil {
			o.Probe("loaded " + form)
		} else {
			o.Probe("refused " + form)
		}
		if x == nil {
			if err == nil {
				o.Fail(prop, "neither signal nor error", "%s: no signal and no error", where)
			}
			continue
		}
		n := 2*len(data) + 8000
		all := func(what string, x *adapt.SIS) bool {
			for _, op := range adapt.Ops {
				var s string
				if !guard(what+op, n, func() { s = adapt.Do(op, x) }) {
					return false
				}
				o.Log("%s %d", op, len(s))
				o.Result(s)
			}
			return true
		}
		if !all("", x) {
			return
		}
		for _, e := range in.Eds {
			if e.Op == "raw" {
				rawEdit(x, e.N)
			} else if e.Op == "upid" {
				oddUPID(x, e)
			} else {
				y := adapt.Build(e.Sec)
				x.SpliceDescriptors = append(x.SpliceDescriptors, y.SpliceDescriptors...)
				if e.N%2 == 0 {
					x.SpliceCommand = y.SpliceCommand
				}
			}
			o.Fault("object edited: " + e.Op)
			if !all("after an edit, ", x) {
				return
			}
		}
		if in.Again {
			for _, f := range []string{adapt.Bin, adapt.B64, adapt.Hex, adapt.JSON, adapt.XML} {
				op := map[string]string{adapt.Bin: "encode", adapt.B64: "base64", adapt.Hex: "hex", adapt.JSON: "json", adapt.XML: "xml"}[f]
				var doc string
				if !guard(op, n, func() { doc = adapt.Do(op, x) }) {
					return
				}
				if f == adapt.Bin {
					b, _ := adapt.Unwrap(adapt.Hex, []byte(doc))
					doc = string(b)
				}
				var y *adapt.SIS
				var err error
				if !guard("reload of "+f, n+len(doc), func() { y, err = adapt.Load(f, []byte(doc)) }) {
					return
				}
				o.Log("reload %s %s", f, errText(err))
				if y != nil && !all("after reload of "+f+", ", y) {
					return
				}
			}
		}
	}
	o.Inter = o.Hash
}

// data makes what is received.
func (in *CrashIn) data(o *core.Out) []byte {
	var b []byte
	var spans []model.Span
	doc := in.Form == adapt.JSON || in.Form == adapt.XML
	if in.Sec != nil {
		e, err := in.Sec.Map()
		if err != nil {
			return nil
		}
		b, spans = e.B, e.Spans
	} else {
		b = in.Raw
	}
	text := ""
	if doc {
		if in.Sec == nil {
			text = string(b)
		} else if len(in.BM) > 0 {
			// the document of a damaged signal
			x := &adapt.SIS{}
			if prob := core.Guard(core.Budget(len(b)), func() {
				_ = x.Decode(damage(b, in.BM, spans))
				text = adapt.Do(in.Form, x)
			}); prob != "" {
				o.Fail("C08", in.Form+": "+core.Cls(prob), "%s: %s", short(b), prob)
				return nil
			}
			countB(o, in.BM)
			if len(text) > 6 && text[:6] == "error:" {
				return nil
			}
		} else {
			var ok bool
			if text, ok = document(in.Form, in.Sec); !ok {
				return nil
			}
		}
	} else {
		b = damage(b, in.BM, spans)
		countB(o, in.BM)
		if in.Form == adapt.Bin {
			return append([]byte{}, b...)
		}
		text = string(adapt.Wrap(in.Form, b))
	}
	text = tdamage(in.Form, text, in.TM)
	countT(o, in.TM)
	return append([]byte{}, text...)
}

func quoted(form string, data []byte) string {
	if form == adapt.Bin {
		return short(data)
	}
	return fmt.Sprintf("%q", clip(string(data), ""))
}

func init() {
	core.Register(core.S[CrashPlan]{ID: "crash", G: genCrash, E: execCrash}, map[string]int{"C08": 1})
}
