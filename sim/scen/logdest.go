//go:build oshook

package scen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
	"verif.local/sim/vsim"
)

// LogPlan is work that produces diagnostics, and where these go.
type LogPlan struct {
	Tasks  [][]LogStep   `json:"tasks"`
	Dest   []string      `json:"dest"` // what the destination does, write by write: ok, err, short, call, move, zero, more
	Flags  int           `json:"flags,omitempty"`
	Prefix string        `json:"prefix,omitempty"`
	Moves  int           `json:"moves,omitempty"` // redirections while the tasks run
	Strat  vsim.Strategy `json:"strat"`
	Zone   int           `json:"zone,omitempty"`
	Silent bool          `json:"silent,omitempty"` // io.Discard is what it is compared with
}

// LogStep is one operation.
type LogStep struct {
	Op    string         `json:"op"` // load, use, raw, upid, swap
	Form  string         `json:"form,omitempty"`
	Sec   *model.Section `json:"sec,omitempty"`
	BM    []BMut         `json:"bm,omitempty"`
	TM    []TMut         `json:"tm,omitempty"`
	N     int            `json:"n,omitempty"`
	Value string         `json:"value,omitempty"`
}

var upidTexts = []string{"10.5240/A2DA-6C1D-1B9C-4EB2-B62E-K", "10.5240/A2DA-6C1D-1B9C-4EB2-B62E", "11.5240/A2DA-6C1D-1B9C-4EB2-B62E-K", "10.5240/1/2/3", "10.x/A2DA-6C1D-1B9C-4EB2-B62E-K", "10.5240/zz", "", "zz", "0x12", "-1", "12345678901234567890123", "urn:x", "//", "8ZcA", "é"}

func genLog(prop string, r *rng.R) *LogPlan {
	p := &LogPlan{Flags: rng.Pick(r, 0, log.LstdFlags, log.Lshortfile|log.Lmicroseconds, log.Lmsgprefix), Prefix: rng.Pick(r, "", "scte35: ", "%s%d\n"), Zone: drawZone(r), Strat: strategy(r)}
	p.Silent = r.One(4)
	g := &model.Gen{R: r, D: reuseDomain}
	nt := rng.Pick(r, 1, 1, 2, 3)
	swaps := false
	for t := 0; t < nt; t++ {
		var st []LogStep
		for k := r.In(1, 6); k > 0; k-- {
			switch r.N(6) {
			case 0:
				st = append(st, LogStep{Op: "use", N: r.N(len(adapt.Ops))})
			case 1:
				st = append(st, LogStep{Op: "upid", N: rng.Pick(r, 10, 10, 8, 9, 12, 1, 3, 15, 13, r.N(256)), Value: rng.Pick(r, upidTexts...)}, LogStep{Op: "use", N: r.N(3)})
			case 2:
				st = append(st, LogStep{Op: "raw", N: rng.Pick(r, 0, 0, r.N(10))}, LogStep{Op: "use", N: r.In(1, 2)})
				if nt == 1 && r.Bool() {
					st = append(st, LogStep{Op: "swap"})
					swaps = true
				}
			default:
				s := LogStep{Op: "load", Form: rng.Pick(r, adapt.Bin, adapt.Bin, adapt.B64, adapt.Hex, adapt.JSON, adapt.XML), Sec: g.Section()}
				n := len(s.Sec.Bytes())
				for j := rng.Pick(r, 0, 1, 1, 2); j > 0; j-- {
					if isDoc(s.Form) {
						s.TM = append(s.TM, drawTMut(r, s.Form, 900))
					} else {
						s.BM = append(s.BM, drawBMut(r, n))
					}
				}
				st = append(st, s)
				if nt == 1 && r.One(3) {
					st = append(st, LogStep{Op: "swap"})
					swaps = true
				}
			}
		}
		p.Tasks = append(p.Tasks, st)
	}
	kinds := []string{"ok", "err", "short", "zero", "more"}
	switch {
	case swaps:
		if r.Bool() {
			p.Flags = 0
		}
		if r.Bool() {
			p.Dest = append(p.Dest, "ok")
		}
	case nt == 1:
		kinds = append(kinds, "call", "call", "move")
	default:
		p.Moves = rng.Pick(r, 0, 1, 3, 10)
	}
	for k := r.In(1, 4); k > 0; k-- {
		p.Dest = append(p.Dest, kinds[r.N(len(kinds))])
	}
	return p
}

func (p *LogPlan) check() string {
	if len(p.Tasks) == 0 || len(p.Tasks) > 6 || len(p.Dest) == 0 || p.Moves < 0 || p.Moves > 1000 {
		return "size"
	}
	swaps := false
	for _, st := range p.Tasks {
		for _, s := range st {
			swaps = swaps || s.Op == "swap"
		}
	}
	if swaps && (len(p.Tasks) > 1 || p.Moves > 0) {
		return "redirected by several tasks"
	}
	for _, d := range p.Dest {
		switch d {
		case "ok", "err", "short", "zero", "more":
		case "call", "move":
			if swaps {
				return "redirected twice"
			}
			if len(p.Tasks) > 1 || p.Moves > 0 {
				return "a logger that calls back while others log waits for itself"
			}
		default:
			return "destination"
		}
	}
	for _, st := range p.Tasks {
		for _, s := range st {
			if s.N < 0 {
				return "n"
			}
			switch s.Op {
			case "load":
				if s.Sec == nil {
					return "no section"
				}
				if err := s.Sec.Check(reuseDomain, true); err != nil {
					return err.Error()
				}
				switch s.Form {
				case adapt.Bin, adapt.B64, adapt.Hex, adapt.JSON, adapt.XML:
				default:
					return "form"
				}
			case "use", "raw", "upid", "swap":
			default:
				return "op"
			}
		}
	}
	return ""
}

// first is the logger that is configured before all others; it drops what it
// is given. Nothing may reach it once another one is configured.
type first struct{ n int }

func (f *first) Write(b []byte) (int, error) {
	f.n++
	return len(b), nil
}

var (
	firstDest first
	firstLog  = log.New(&firstDest, "", 0)
)

// dest is a log destination.
type dest struct {
	p      *LogPlan
	o      *core.Out
	n      int
	bytes  int
	lines  bytes.Buffer
	other  *log.Logger
	frame  []byte
	faults map[string]int
	deep   bool
}

func (d *dest) Write(b []byte) (int, error) {
	k := d.p.Dest[d.n%len(d.p.Dest)]
	d.n++
	d.bytes += len(b)
	d.faults["log destination: "+k]++
	d.lines.Write(b)
	switch k {
	case "err":
		return 0, errors.New("log destination is full")
	case "short":
		return len(b) / 2, io.ErrShortWrite
	case "zero":
		return 0, nil
	case "more":
		return len(b) + 7, nil
	case "call":
		if !d.deep {
			d.deep = true
			x := &adapt.SIS{}
			if err := x.Decode(d.frame); err == nil {
				_ = adapt.Do("table", x)
				_ = adapt.Do("encode", x)
				_ = adapt.Do("json", x)
				_ = json.Unmarshal([]byte(adapt.Do("json", x)), &adapt.SIS{})
			}
			d.deep = false
		}
	case "move":
		scte35.Logger = d.other
	}
	return len(b), nil
}

// logFrame is a signal that gives no diagnostics.
var logFrame = (&model.Section{Tier: 0xFFF, Cmd: model.Cmd{Type: model.CmdTime, Time: new(uint64)}, Descs: []model.Desc{{Kind: model.DAvail, Avail: 7}, {Kind: model.DSeg, ID: 9, TypeID: 0x30}}}).Bytes()

// work carries out a task and returns its results.
func (p *LogPlan) work(t int, swap func()) []string {
	var out []string
	x := &adapt.SIS{}
	for k := range p.Tasks[t] {
		s := &p.Tasks[t][k]
		switch s.Op {
		case "load":
			e, err := s.Sec.Map()
			if err != nil {
				continue
			}
			var data []byte
			if isDoc(s.Form) {
				d, ok := document(s.Form, s.Sec)
				if !ok {
					continue
				}
				data = []byte(tdamage(s.Form, d, s.TM))
			} else {
				data = adapt.Wrap(s.Form, damage(e.B, s.BM, e.Spans))
			}
			y, err := adapt.Load(s.Form, data)
			x = y
			out = append(out, errText(err)+" "+adapt.Dump(x))
		case "use":
			op := adapt.Ops[s.N%len(adapt.Ops)]
			out = append(out, op+" "+adapt.Do(op, x))
		case "raw":
			rawEdit(x, s.N)
		case "swap":
			swap()
		case "upid":
			u := scte35.SegmentationUPID{Type: uint32(s.N), Value: s.Value}
			done := false
			for _, d := range x.SpliceDescriptors {
				if sd, ok := d.(*scte35.SegmentationDescriptor); ok && sd != nil {
					sd.SegmentationUPIDs = append(sd.SegmentationUPIDs, u)
					done = true
					break
				}
			}
			if !done {
				x.SpliceDescriptors = append(x.SpliceDescriptors, &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{u}})
			}
		}
	}
	return append(out, adapt.Dump(x))
}

func execLog(p *LogPlan, o *core.Out) {
	const prop = "C12"
	if m := p.check(); m != "" {
		o.Invalid = m
		return
	}
	time.Local = zone(p.Zone)
	n := len(p.Tasks)

	// with logging discarded
	want := make([][]string, n)
	var refs []*bytes.Buffer // what is logged between two redirections
	for t := range p.Tasks {
		scte35.Logger = firstLog
		swap := func() {
			refs = append(refs, &bytes.Buffer{})
			scte35.Logger = log.New(refs[len(refs)-1], p.Prefix, p.Flags)
		}
		if p.Silent {
			swap = func() { scte35.Logger = log.New(io.Discard, "", 0) }
			swap()
		} else if n == 1 {
			swap()
		}
		if prob := core.Guard(50_000_000, func() { want[t] = p.work(t, swap) }); prob != "" {
			o.Fail(prop, "discarded: "+core.Cls(prob), "task %d with logging discarded: %s", t, prob)
			return
		}
	}

	// with the destination
	before := firstDest.n
	var had []int
	for _, b := range refs {
		had = append(had, b.Len())
	}
	faults := map[string]int{}
	d1 := &dest{p: p, o: o, frame: logFrame, faults: faults}
	d2 := &dest{p: p, o: o, frame: logFrame, faults: faults, n: 1}
	l1 := log.New(d1, p.Prefix, p.Flags)
	l2 := log.New(d2, p.Prefix, p.Flags)
	d1.other, d2.other = l2, l1
	var std [3]bytes.Buffer
	var def bytes.Buffer
	os.VerifWrite = func(fd int, b []byte) (int, error) { return std[fd].Write(b) }
	vsim.Printed = func(s string) { std[2].WriteString(s) }
	log.SetOutput(&def)
	scte35.Logger = l1
	got := make([][]string, n)
	var fns []func()
	dests := []*dest{d1}
	swap := func() {
		d := &dest{p: p, o: o, frame: logFrame, faults: faults, n: len(dests)}
		dests = append(dests, d)
		l1 = log.New(d, p.Prefix, p.Flags)
		scte35.Logger = l1
		faults["log redirected"]++
	}
	for t := range p.Tasks {
		fns = append(fns, func() { got[t] = p.work(t, swap) })
	}
	if p.Moves > 0 {
		fns = append(fns, func() {
			for k := 0; k < p.Moves; k++ {
				if k%2 == 0 {
					scte35.Logger = l2
				} else {
					l2.SetOutput(d1)
					scte35.Logger = l1
				}
				faults["log redirected"]++
				vsim.Gosched()
			}
		})
	}
	ok := run(o, prop, fns, p.Strat)
	now := scte35.Logger
	Quiet()
	os.VerifWrite, vsim.Printed = nil, nil
	log.SetOutput(os.Stderr)
	for k, v := range faults {
		o.Faults[k] += v
		o.Nontrivial = true
	}
	if ok == nil {
		return
	}
	if d1.n+d2.n > 0 {
		o.Probe("diagnostics written")
	}
	for t := range want {
		for k := range want[t] {
			o.Result(want[t][k])
			if k >= len(got[t]) || got[t][k] != want[t][k] {
				g := ""
				if k < len(got[t]) {
					g = got[t][k]
				}
				o.Fail(prop, "result depends on the log", "task %d, result %d: %q, with logging discarded %q", t, k, clip(g, want[t][k]), clip(want[t][k], g))
			}
		}
	}
	if firstDest.n != before {
		o.Fail(prop, "diagnostics elsewhere", "%d writes went to a logger that is no longer configured", firstDest.n-before)
	}
	for i, b := range refs {
		if b.Len() != had[i] {
			o.Fail(prop, "diagnostics elsewhere", "%q went to a logger that is no longer configured", clip(b.String()[had[i]:], ""))
		}
	}
	if len(refs) > 1 && len(refs) == len(dests) && p.Flags&^log.Lmsgprefix == 0 {
		// each line went to the logger that was configured when the
		// operation ran (it may have gone nowhere: nothing is said about how
		// often something is logged)
		for i, d := range dests {
			left := map[string]int{}
			for _, l := range bytes.SplitAfter(refs[i].Bytes(), []byte("\n")) {
				left[string(l)]++
			}
			for _, l := range bytes.SplitAfter(d.lines.Bytes(), []byte("\n")) {
				if left[string(l)]--; len(l) > 0 && left[string(l)] < 0 {
					o.Fail(prop, "diagnostics elsewhere", "after %d redirections the logger was given %q, which does not belong to what was done then", i, clip(string(l), ""))
				}
			}
		}
		o.Probe("redirected between operations")
	}
	for fd, b := range std {
		if b.Len() > 0 {
			o.Fail(prop, "diagnostics elsewhere", "%q was written to file descriptor %d", clip(b.String(), ""), fd)
		}
	}
	if def.Len() > 0 {
		o.Fail(prop, "diagnostics elsewhere", "%q was written to the process's default logger", clip(def.String(), ""))
	}
	if now != l1 && now != l2 {
		o.Fail(prop, "logger replaced", "the configured logger was replaced")
	}
	o.Log("diagnostics: %d writes", d1.n+d2.n)
	for t := range got {
		o.Log("task %d: %s", t, fmt.Sprint(len(got[t])))
	}
}

func init() {
	core.Register(core.S[LogPlan]{ID: "log", G: genLog, E: execLog}, map[string]int{"C12": 1})
}
