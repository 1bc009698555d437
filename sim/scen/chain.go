package scen

import (
	"bytes"
	"container/heap"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
	"verif.local/sim/vsim"
)

// ChainPlan is a distribution tree: node 0 originates signals, the others
// receive from their parent, change what they are told to and send on.
type ChainPlan struct {
	Prop  string      `json:"prop"`
	XML   bool        `json:"xml,omitempty"` // signals keep to what XML can carry
	Sigs  []ChainSig  `json:"sigs"`
	Nodes []ChainNode `json:"nodes"` // Nodes[0] is the origin
	Sends []ChainSend `json:"sends"`
	Links []LinkFault `json:"links,omitempty"`
	Parts []Part      `json:"parts,omitempty"`
	Crash []NodeCrash `json:"crash,omitempty"`
}

// ChainSig is a signal of the origin.
type ChainSig struct {
	Sec *model.Section `json:"sec"`
	Ref bool           `json:"ref,omitempty"` // made by the reference encoder
}

// ChainNode is a node.
type ChainNode struct {
	Parent int    `json:"parent,omitempty"`
	Form   string `json:"form,omitempty"` // on the link from the parent
	Ref    bool   `json:"ref,omitempty"`  // an independent implementation
	Reuse  bool   `json:"reuse,omitempty"`
	Hold   int    `json:"hold,omitempty"` // ms between receiving and sending on
	Lat    int    `json:"lat,omitempty"`  // ms
	Zone   int    `json:"zone,omitempty"`
	Store  string `json:"store,omitempty"` // form of its journal
	Sync   int    `json:"sync,omitempty"`  // ms until a journal write is durable
	Chunk  int    `json:"chunk,omitempty"` // size of reads
	Indent bool   `json:"indent,omitempty"`
	Env    int    `json:"env,omitempty"` // the larger document that carries a JSON or XML signal to it
	// Bare: before a signal is encoded, so is a copy without a command.
	Bare bool       `json:"bare,omitempty"`
	Pre  uint32     `json:"pre,omitempty"`
	Eds  []NodeEdit `json:"eds,omitempty"`
	Ask  []string   `json:"ask,omitempty"` // what it asks of every signal
	// Flip are flags that are turned over and back while it asks.
	Flip int `json:"flip,omitempty"`
}

// NodeEdit is what a node does to a signal.
type NodeEdit struct {
	Sig int  `json:"sig"`
	Ed  Edit `json:"ed"`
}

// ChainSend is a transmission by the origin.
type ChainSend struct {
	At  int `json:"at"`
	Sig int `json:"sig"`
}

// LinkFault happens to the Nth message to a node.
type LinkFault struct {
	To    int    `json:"to"`
	Nth   int    `json:"nth"`
	Drop  bool   `json:"drop,omitempty"`
	Dup   int    `json:"dup,omitempty"` // ms until the copy
	Delay int    `json:"delay,omitempty"`
	BM    []BMut `json:"bm,omitempty"`
	TM    []TMut `json:"tm,omitempty"`
	Cut   int    `json:"cut,omitempty"` // bytes that arrive before the connection breaks, plus 1
	Val   int    `json:"val,omitempty"` // the value of a document that has become something its field cannot hold, plus 1
	How   int    `json:"how,omitempty"`
	Style uint64 `json:"style,omitempty"` // the document is written anew on the way; how
}

// Part cuts a node off.
type Part struct {
	To   int `json:"to"`
	From int `json:"from"`
	Till int `json:"till"`
}

// NodeCrash stops a node; what is not durable is lost.
type NodeCrash struct {
	Node int `json:"node"`
	At   int `json:"at"`
	Down int `json:"down"`
	Keep int `json:"keep"` // how many unsynced bytes survive, modulo their number plus 1
	Zone int `json:"zone,omitempty"`
}

var (
	binForms = []string{adapt.Bin, adapt.Bin, adapt.B64, adapt.Hex, adapt.Hex0x}
	docForms = []string{adapt.JSON, adapt.XML, adapt.JSON, adapt.XML, adapt.Bin, adapt.B64}
)

func isDoc(f string) bool { return f == adapt.JSON || f == adapt.XML }

func (p *ChainPlan) domain() model.Domain {
	return model.Domain{XML: p.XML, Enc: p.Prop != "C13", Stuff: p.Prop != "C13", Legacy: p.Prop != "C13"}
}

func genChain(prop string, r *rng.R) *ChainPlan {
	p := &ChainPlan{Prop: prop}
	p.XML = (prop == "C10" || prop == "C20") && !r.One(4) || prop == "C13" && r.One(3)
	g := &model.Gen{R: r, D: p.domain()}
	g.D.Big = r.One(10) || prop == "C13" && r.Bool()
	for k := r.In(1, 3); k > 0; k-- {
		s := ChainSig{Sec: g.Section(), Ref: r.Bool()}
		if k := len(p.Sigs); k > 0 && r.One(3) {
			s.Sec = vary(g, p.Sigs[k-1].Sec)
		}
		if len(s.Sec.Stuff) > 0 || s.Sec.Legacy || s.Sec.Alg != 0 {
			s.Ref = true
		}
		p.Sigs = append(p.Sigs, s)
	}
	forms := binForms
	switch prop {
	case "C10":
		forms = docForms
	case "C20":
		forms = append([]string{adapt.JSON}, binForms...)
		if p.XML {
			forms = append(append([]string{}, docForms...), binForms...)
		}
	case "C13":
		forms = append([]string{adapt.JSON, adapt.JSON}, binForms...)
		if p.XML {
			forms = append([]string{adapt.XML, adapt.XML}, forms...)
		}
	}
	if prop == "C10" && !p.XML {
		forms = []string{adapt.JSON, adapt.JSON, adapt.Bin, adapt.B64}
	}
	n := r.In(2, 6)
	p.Nodes = append(p.Nodes, ChainNode{Zone: drawZone(r), Indent: r.Bool(), Bare: prop == "C13" && r.One(8)})
	for i := 1; i < n; i++ {
		v := ChainNode{Parent: i - 1, Form: rng.Pick(r, forms...), Zone: drawZone(r), Lat: r.In(1, 20), Reuse: r.One(3), Indent: r.One(3), Bare: prop == "C13" && r.One(8)}
		if r.One(4) {
			v.Parent = r.N(i)
		}
		if r.Bool() {
			v.Hold = r.In(1, 60)
		}
		if r.One(3) {
			v.Store = rng.Pick(r, forms...)
			if !isDoc(v.Store) {
				v.Store = adapt.Bin
			}
			v.Sync = r.In(0, 50)
			v.Hold = r.In(1, 80)
		}
		if r.Bool() {
			v.Chunk = r.In(1, 40)
		}
		if isDoc(v.Form) && r.One(4) {
			v.Env = r.In(1, envelopes)
		}
		ned := 0
		switch {
		case prop == "C13":
			ned = r.In(0, 3)
		case prop == "C20" && !r.One(3):
			ned = r.In(1, 4)
		case r.One(3):
			ned = r.In(1, 2)
		}
		for ; ned > 0; ned-- {
			e := drawEdit(g, prop == "C13")
			if prop == "C20" && r.Bool() {
				e = Edit{Op: "vary", I: r.N(6), V: r.U64()}
			}
			if prop != "C13" && e.N > 20 {
				e.N = r.In(1, 20)
			}
			v.Eds = append(v.Eds, NodeEdit{Sig: r.N(len(p.Sigs)), Ed: e})
		}
		if (prop == "C10" || prop == "C20") && p.XML && r.One(5) {
			v.Pre = g.V32(32)
		}
		p.Nodes = append(p.Nodes, v)
	}
	// independent nodes speak only binary
	for i := 1; i < n; i++ {
		if prop == "C13" || !r.One(3) || isDoc(p.Nodes[i].Form) {
			continue
		}
		ok := true
		for j := i + 1; j < n; j++ {
			ok = ok && (p.Nodes[j].Parent != i || !isDoc(p.Nodes[j].Form))
		}
		if ok {
			v := &p.Nodes[i]
			v.Ref, v.Store, v.Reuse, v.Pre = true, "", false, 0
		}
	}
	t := 0
	for k := r.In(1, 8); k > 0; k-- {
		p.Sends = append(p.Sends, ChainSend{At: t, Sig: r.N(len(p.Sigs))})
		t += rng.Pick(r, 0, 1, 5, 30, r.N(100))
	}
	if n > 1 {
		for k := rng.Pick(r, 0, 1, 2, 4, 8); k > 0; k-- {
			f := LinkFault{To: r.In(1, n-1), Nth: r.N(10)}
			form := p.Nodes[f.To].Form
			switch r.N(6) {
			case 0:
				f.Drop = true
			case 1:
				f.Dup = r.In(1, 200)
			case 2:
				f.Delay = r.In(1, 300)
			default:
				if isDoc(form) && r.Bool() {
					f.Style = r.U64() | 1
					if r.Bool() {
						break
					}
				}
				if isDoc(form) && prop == "C10" && r.One(2) {
					f.Val, f.How = 1+r.N(200), r.N(1000)
					break
				}
				if isDoc(form) {
					f.Cut = 1 + r.N(rng.Pick(r, 50, 400, 1500))
					break
				}
				sz := len(p.Sigs[0].Sec.Bytes())
				for m := r.In(1, 2); m > 0; m-- {
					if form != adapt.Bin && r.One(3) {
						f.TM = append(f.TM, drawTMut(r, form, 2*sz))
					} else {
						f.BM = append(f.BM, drawBMut(r, sz))
					}
				}
			}
			p.Links = append(p.Links, f)
		}
		if r.One(4) {
			a := r.N(200)
			p.Parts = append(p.Parts, Part{To: r.In(1, n-1), From: a, Till: a + r.In(1, 200)})
		}
		for k := rng.Pick(r, 0, 0, 1, 2); k > 0; k-- {
			p.Crash = append(p.Crash, NodeCrash{Node: r.In(1, n-1), At: r.N(300), Down: r.In(1, 200), Keep: r.N(rng.Pick(r, 10, 300, 3000)), Zone: drawZone(r)})
		}
	}
	if prop == "C20" {
		// times are shown in the zone their document gave them
		for i := range p.Nodes {
			p.Nodes[i].Zone = p.Nodes[0].Zone
			if i > 0 && !p.Nodes[i].Ref {
				for k := r.In(1, 3); k > 0; k-- {
					op := rng.Pick(r, adapt.Ops...)
					if r.One(3) {
						op = rng.Pick(r, "methods", "table")
					}
					p.Nodes[i].Ask = append(p.Nodes[i].Ask, op)
				}
				if r.One(3) {
					p.Nodes[i].Flip = r.In(1, 31)
				}
			}
		}
		for i := range p.Crash {
			p.Crash[i].Zone = p.Nodes[0].Zone
		}
	}
	return p
}

func (p *ChainPlan) check() string {
	switch p.Prop {
	case "C09", "C10", "C13", "C20":
	default:
		return "property"
	}
	if p.Prop == "C20" {
		for i := range p.Nodes {
			if p.Nodes[i].Zone != p.Nodes[0].Zone {
				return "zones"
			}
		}
		for i := range p.Crash {
			if p.Crash[i].Zone != p.Nodes[0].Zone {
				return "zones"
			}
		}
	}
	d := p.domain()
	if len(p.Sigs) == 0 || len(p.Nodes) == 0 {
		return "empty"
	}
	for _, s := range p.Sigs {
		if s.Sec == nil {
			return "signal"
		}
		if err := s.Sec.Check(d, true); err != nil {
			return err.Error()
		}
		if !s.Ref && (len(s.Sec.Stuff) > 0 || s.Sec.Legacy || s.Sec.Alg != 0) {
			return "origin"
		}
	}
	for i := range p.Nodes {
		v := &p.Nodes[i]
		if i > 0 {
			if v.Parent < 0 || v.Parent >= i {
				return "parent"
			}
			switch v.Form {
			case adapt.Bin, adapt.B64, adapt.Hex, adapt.Hex0x:
			case adapt.JSON:
			case adapt.XML:
				if !p.XML {
					return "XML"
				}
			default:
				return "form"
			}
			if v.Env < 0 || v.Env > envelopes || v.Env > 0 && !isDoc(v.Form) {
				return "envelope"
			}
			if p.Nodes[v.Parent].Ref && isDoc(v.Form) || v.Ref && isDoc(v.Form) {
				return "reference node with documents"
			}
		} else if v.Ref || v.Store != "" || v.Hold != 0 || len(v.Eds) > 0 || v.Pre != 0 {
			return "origin"
		}
		switch v.Store {
		case "", adapt.Bin, adapt.JSON:
		case adapt.XML:
			if !p.XML {
				return "XML"
			}
		default:
			return "store"
		}
		if v.Hold < 0 || v.Lat < 0 || v.Sync < 0 || v.Chunk < 0 || v.Ref && (v.Store != "" || v.Pre != 0) || v.Pre != 0 && p.Prop != "C10" && p.Prop != "C20" {
			return "node"
		}
		for _, op := range v.Ask {
			if p.Prop != "C20" || !slices.Contains(adapt.Ops, op) {
				return "ask"
			}
		}
		for k := range v.Eds {
			if v.Eds[k].Sig < 0 {
				return "edit"
			}
			if m := checkEdit(&v.Eds[k].Ed, d); m != "" {
				return m
			}
		}
	}
	for _, s := range p.Sends {
		if s.At < 0 || s.Sig < 0 || s.Sig >= len(p.Sigs) {
			return "send"
		}
	}
	for i := range p.Links {
		f := &p.Links[i]
		if f.To < 1 || f.To >= len(p.Nodes) || f.Dup < 0 || f.Delay < 0 {
			return "link"
		}
		if !isDoc(p.Nodes[f.To].Form) && f.Val > 0 || f.Val < 0 {
			return "value"
		}
		if isDoc(p.Nodes[f.To].Form) && (len(f.BM) > 0 || len(f.TM) > 0) {
			return "documents are only cut short"
		}
	}
	for _, c := range p.Crash {
		if c.Node < 1 || c.Node >= len(p.Nodes) || c.At < 0 || c.Down < 1 || c.Keep < 0 {
			return "crash"
		}
	}
	for _, q := range p.Parts {
		if q.To < 1 || q.To >= len(p.Nodes) || q.From < 0 || q.Till < q.From {
			return "partition"
		}
	}
	return ""
}

// truth is what a message should contain.
type truth struct {
	sig int
	sec *model.Section
	pre uint32
	// as is: the bytes are those of the section's reference encoding
	gen int // the transmission of the origin
}

type event struct {
	at  int64 // ns
	seq int
	do  func()
}

type queue []event

func (q queue) Len() int { return len(q) }
func (q queue) Less(i, j int) bool {
	return q[i].at < q[j].at || q[i].at == q[j].at && q[i].seq < q[j].seq
}
func (q queue) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *queue) Push(x any)   { *q = append(*q, x.(event)) }
func (q *queue) Pop() any {
	o := *q
	e := o[len(o)-1]
	*q = o[:len(o)-1]
	return e
}

const ms = int64(time.Millisecond)

type cnode struct {
	*ChainNode
	id    int
	kids  []int
	up    bool
	epoch int // counts crashes
	zone  int
	nth   int // messages sent to it
	rx    [9000]byte
	obj   *adapt.SIS
	// the journal
	disk   []byte
	synced int
	recs   []jrec
	seen   map[int]bool // transmissions accepted
}

// jrec is the oracle's view of a journal record.
type jrec struct {
	end int
	t   truth
}

type world struct {
	p     *ChainPlan
	o     *core.Out
	now   int64
	seq   int
	q     queue
	nodes []*cnode
	stop  int64 // when the faults are over
	sent  map[int]truth
	over  bool
	load  int // loads so far
}

func (w *world) at(t int64, f func()) {
	w.seq++
	heap.Push(&w.q, event{t, w.seq, f})
}

func (w *world) fail(class, format string, a ...any) {
	w.o.Fail(w.prop(), class, format, a...)
}

// prop is the property that wrong content belongs to.
func (w *world) prop() string {
	if w.p.Prop == "C20" {
		return "C09"
	}
	return w.p.Prop
}

func (w *world) guard(what string, f func()) bool {
	if prob := core.Guard(core.Budget(40000), f); prob != "" {
		w.fail(what+": "+core.Cls(prob), "%s: %s", what, prob)
		return false
	}
	return true
}

func execChain(p *ChainPlan, o *core.Out) {
	if m := p.check(); m != "" {
		o.Invalid = m
		return
	}
	w := &world{p: p, o: o, sent: map[int]truth{}}
	for i := range p.Nodes {
		n := &cnode{ChainNode: &p.Nodes[i], id: i, up: true, zone: p.Nodes[i].Zone, seen: map[int]bool{}}
		w.nodes = append(w.nodes, n)
		if i > 0 {
			m := w.nodes[n.Parent]
			m.kids = append(m.kids, i)
		}
	}
	// faults end
	reach := int64(1)
	for i := range p.Nodes {
		reach += int64(p.Nodes[i].Lat+p.Nodes[i].Hold+p.Nodes[i].Sync+1) * ms
	}
	for _, s := range p.Sends {
		w.stop = max(w.stop, int64(s.At)*ms)
	}
	for _, c := range p.Crash {
		w.stop = max(w.stop, int64(c.At+c.Down)*ms)
	}
	for _, c := range p.Parts {
		w.stop = max(w.stop, int64(c.Till)*ms)
	}
	w.stop += ms
	for g, s := range p.Sends {
		w.at(int64(s.At)*ms, func() { w.originate(g, s.Sig) })
	}
	for _, c := range p.Crash {
		w.at(int64(c.At)*ms, func() { w.crash(c) })
	}
	g0 := len(p.Sends)
	for k := range p.Sigs {
		w.at(w.stop+int64(k)*3*ms, func() { w.originate(g0+k, k) })
	}
	deadline := w.stop + int64(len(p.Sigs))*3*ms + reach
	for len(w.q) > 0 && len(o.Viol) == 0 {
		e := heap.Pop(&w.q).(event)
		w.now = e.at
		vsim.SetNow(1_700_000_000_000_000_000 + w.now)
		e.do()
	}
	if len(o.Viol) > 0 {
		return
	}
	o.SimNS = w.now
	// progress
	for k := range p.Sigs {
		t, ok := w.sent[g0+k]
		if !ok {
			continue // the origin could not encode it
		}
		for _, n := range w.nodes[1:] {
			if !n.seen[g0+k] && !w.blocked(n, t) {
				w.fail("no progress", "signal %d, repeated after the last fault, has not reached node %d within %d ms", k, n.id, (deadline-w.stop)/ms)
			}
		}
	}
	if len(p.Nodes) > 2 {
		o.Nontrivial = true
	}
	o.Inter = o.Hash
}

// blocked tells whether a signal that grew too large stops before the node.
func (w *world) blocked(n *cnode, t truth) bool {
	if w.p.Prop != "C13" {
		return false
	}
	var path []*cnode
	for m := n; m.id != 0; m = w.nodes[m.Parent] {
		path = append(path, m)
	}
	sec := t.sec.Clone()
	for i := len(path) - 1; i >= 0; i-- {
		m := path[i]
		if !isDoc(m.Form) {
			e, err := sec.Encode()
			if err != nil || e.SectionLength > 4093 {
				return true
			}
		}
		w.shadow(m, t.sig, sec)
		if m.Store == adapt.Bin {
			e, err := sec.Encode()
			if err != nil || e.SectionLength > 4093 {
				return true
			}
		}
	}
	return false
}

// shadow applies a node's edits to the expected content.
func (w *world) shadow(n *cnode, sig int, sec *model.Section) {
	for i := range n.Eds {
		if e := &n.Eds[i]; e.Sig == sig {
			w.edit(n, e, sec, nil)
		}
	}
}

// edit applies one edit to the content and to the object, if given; a node
// other than those of C13 leaves a signal alone rather than outgrow the format.
func (w *world) edit(n *cnode, e *NodeEdit, sec *model.Section, x *adapt.SIS) {
	if w.p.Prop != "C13" {
		try := sec.Clone()
		if !e.Ed.Apply(try, nil) || try.Check(w.p.domain(), true) != nil {
			return
		}
	}
	e.Ed.Apply(sec, x)
}

func (w *world) originate(g, sig int) {
	s := w.p.Sigs[sig]
	n := w.nodes[0]
	t := truth{sig: sig, sec: s.Sec.Clone(), gen: g}
	x := &adapt.SIS{}
	time.Local = zone(n.zone)
	if s.Ref {
		var err error
		b := s.Sec.Bytes()
		if !w.guard("decode", func() { err = x.Decode(b) }) {
			return
		}
		if err != nil {
			w.fail("conforming signal refused", "a reference encoder's %s is refused: %v", short(b), err)
			return
		}
		if differ(w.o, w.prop(), "understood differently", "reference encoder's "+short(b), t.sec.View(), adapt.View(x)) {
			return
		}
	} else {
		x = adapt.Build(s.Sec)
	}
	w.sent[g] = t
	w.o.Log("%d ms: origin sends signal %d, transmission %d", w.now/ms, sig, g)
	w.forward(n, x, t, s.Ref)
}

// forward sends to the children. asRef sends the reference encoding.
func (w *world) forward(n *cnode, x *adapt.SIS, t truth, asRef bool) {
	for _, k := range n.kids {
		m := w.nodes[k]
		var data []byte
		if asRef && !isDoc(m.Form) {
			data = adapt.Wrap(m.Form, t.sec.Bytes())
		} else {
			var ok bool
			if data, ok = w.emit(n, x, m.Form, m.Env, t); !ok {
				if len(w.o.Viol) > 0 {
					return
				}
				continue
			}
		}
		u := t
		u.sec = t.sec.Clone()
		if !asRef || isDoc(m.Form) {
			u.sec.Legacy = false
		}
		if isDoc(m.Form) {
			u.sec.Stuff = nil
		}
		if m.Form != adapt.XML {
			u.pre = 0
		}
		w.transmit(m, data, u)
	}
}

// companion returns the content of the signal that shares a document with the
// given one, if any.
func (w *world) companion(sig int) *model.Section {
	s := w.p.Sigs[(sig+1)%len(w.p.Sigs)].Sec
	if s.Alg != 0 || len(w.p.Sigs) == 1 {
		return nil
	}
	s = s.Clone()
	s.Legacy, s.Stuff = false, nil
	return s
}

// emit encodes an object and checks what comes out.
func (w *world) emit(n *cnode, x *adapt.SIS, form string, env int, t truth) (data []byte, ok bool) {
	time.Local = zone(n.zone)
	where := fmt.Sprintf("node %d, signal %d as %s", n.id, t.sig, form)
	if isDoc(form) {
		var err error
		if !w.guard(form, func() {
			switch {
			case env > 0:
				var y *adapt.SIS
				if s := w.companion(t.sig); s != nil {
					y = adapt.Build(s)
				}
				data, err = enclose(form, env, n.Indent, x, y)
				w.o.Probe("signal in a larger document")
			case form == adapt.JSON && n.Indent:
				data, err = json.MarshalIndent(x, "", "  ")
			case form == adapt.JSON:
				data, err = json.Marshal(x)
			case n.Indent:
				data, err = xml.MarshalIndent(x, "", "  ")
			default:
				data, err = xml.Marshal(x)
			}
		}) {
			return nil, false
		}
		if err != nil {
			w.fail("no document", "%s: %v", where, err)
			return nil, false
		}
		return data, true
	}
	var b []byte
	var err error
	var b64, hx string
	if n.Bare && w.p.Prop == "C13" {
		y := *x
		y.SpliceCommand = nil
		if !w.guard("encode", func() {
			b, err = y.Encode()
			b64, hx = y.Base64(), y.Hex()
		}) {
			return nil, false
		}
		if err == nil || b64 != "" || hx != "" {
			w.fail("signal without a command", "%s: without a splice command, Encode returns %s and error %v, Base64 %q", where, short(b), err, clip(b64, ""))
			return nil, false
		}
		w.o.Probe("signal without a command refused")
	}
	if !w.guard("encode", func() {
		b, err = x.Encode()
		b64, hx = x.Base64(), x.Hex()
	}) {
		return nil, false
	}
	c := t.sec.Clone()
	c.Legacy = false
	e, rerr := c.Encode()
	legal := rerr == nil && e.SectionLength <= 4093
	if (err != nil) != (b64 == "") || (err != nil) != (hx == "") {
		w.fail("forms disagree", "%s: Encode returns %d bytes and error %v, Base64 %d and Hex %d characters", where, len(b), err, len(b64), len(hx))
		return nil, false
	}
	if err != nil {
		w.o.Probe("signal refused by the encoder")
		if legal {
			w.fail("signal refused", "%s: a signal with section_length %d is refused: %v", where, e.SectionLength, err)
		} else if !adapt.Exported(err) && w.p.Prop == "C13" && !errors.Is(err, scte35.ErrBufferOverflow) {
			w.o.Probe("refused with an unexported error")
		}
		return nil, false
	}
	if rerr != nil {
		w.fail("cut off", "%s: content that exceeds the format (%v) is encoded as %s", where, rerr, short(b))
		return nil, false
	}
	if e.SectionLength > 4095 {
		w.fail("cut off", "%s: section_length would be %d; encoded as %s", where, e.SectionLength, short(b))
		return nil, false
	}
	if e.SectionLength > 4000 {
		w.o.Probe("within 93 bytes of the limit")
	}
	if c.Alg == 0 {
		if !bytes.Equal(b, e.B) {
			w.fail("wrong bytes", "%s: encoded as %s, should be %s", where, clip(fmt.Sprintf("%x", b), fmt.Sprintf("%x", e.B)), clip(fmt.Sprintf("%x", e.B), fmt.Sprintf("%x", b)))
			return nil, false
		}
	} else if d, err := model.Decode(b); err != nil {
		w.fail("wrong bytes", "%s: encoded as %s, which an independent decoder refuses: %v", where, short(b), err)
		return nil, false
	} else if differ(w.o, w.prop(), "wrong bytes", where+", encoded as "+short(b), c.View(), d.View()) {
		return nil, false
	}
	if b64 != string(adapt.Wrap(adapt.B64, b)) || hx != string(adapt.Wrap(adapt.Hex, b)) {
		w.fail("forms disagree", "%s: Base64 %q and Hex %q are not those of %s", where, clip(b64, ""), clip(hx, ""), short(b))
		return nil, false
	}
	switch form {
	case adapt.B64:
		return []byte(b64), true
	case adapt.Hex:
		return []byte(hx), true
	case adapt.Hex0x:
		return []byte("0x" + hx), true
	}
	return b, true
}

// transmit puts a message on the link to m.
func (w *world) transmit(m *cnode, data []byte, t truth) {
	nth := m.nth
	m.nth++
	lat := int64(m.Lat) * ms
	type copyOf struct {
		data []byte
		at   int64
		bad  bool
	}
	msgs := []copyOf{{data, w.now + lat, false}}
	styled := false
	if w.now < w.stop {
		for _, q := range w.p.Parts {
			if q.To == m.id && w.now >= int64(q.From)*ms && w.now < int64(q.Till)*ms {
				w.o.Fault("partition: message lost")
				return
			}
		}
		for i := range w.p.Links {
			f := &w.p.Links[i]
			if f.To != m.id || f.Nth != nth {
				continue
			}
			if f.Drop {
				w.o.Fault("message lost")
				w.o.Log("%d ms: message %d to node %d lost", w.now/ms, nth, m.id)
				return
			}
			if f.Delay > 0 {
				w.o.Fault("message delayed")
				msgs[0].at += int64(f.Delay) * ms
			}
			if f.Dup > 0 {
				w.o.Fault("message repeated")
				msgs = append(msgs, copyOf{msgs[0].data, msgs[0].at + int64(f.Dup)*ms, msgs[0].bad})
			}
			if len(f.BM) > 0 || len(f.TM) > 0 || f.Cut > 0 || f.Val > 0 || f.Style != 0 {
				d := msgs[0].data
				bad := false
				if len(f.BM) > 0 {
					if raw, ok := adapt.Unwrap(m.Form, d); ok {
						e, err := t.sec.Map()
						var sp []model.Span
						if err == nil {
							sp = e.Spans
						}
						d = adapt.Wrap(m.Form, damage(raw, f.BM, sp))
						countB(w.o, f.BM)
					}
				}
				if len(f.TM) > 0 {
					d = []byte(tdamage(m.Form, string(d), f.TM))
					countT(w.o, f.TM)
				}
				bad = bad || !bytes.Equal(d, msgs[0].data)
				if f.Val > 0 && !bad && !msgs[0].bad && !(byValue(m.Env) && m.Form == adapt.JSON) {
					if x := wrongKind(m.Form, d, f.Val-1, f.How); x != nil {
						d, bad = x, true
						w.o.Fault("document value damaged")
					}
				}
				if f.Style != 0 && isDoc(m.Form) && !msgs[0].bad && !styled {
					if x := restyle(f.Style, m.Form, d, w.p.Prop == "C10", !bad); x != nil {
						styled = true
						d = x
						w.o.Fault("document rewritten by another tool")
					}
				}
				if f.Cut > 0 {
					k := mod(f.Cut-1, len(d)+1)
					bad = bad || k < len(d)
					d = d[:k:k]
					w.o.Fault("connection broke")
				}
				msgs[0].data, msgs[0].bad = d, msgs[0].bad || bad
				w.o.Log("%d ms: message %d to node %d changed", w.now/ms, nth, m.id)
			}
		}
	}
	for _, c := range msgs {
		w.at(c.at, func() { w.receive(m, c.data, c.bad, t) })
	}
}

// receive handles a message at node n.
func (w *world) receive(n *cnode, data []byte, bad bool, t truth) {
	if !n.up {
		w.o.Fault("node down: message lost")
		return
	}
	time.Local = zone(n.zone)
	where := fmt.Sprintf("node %d, signal %d received as %s %s", n.id, t.sig, n.Form, quoted(n.Form, data))
	if bad && !isDoc(n.Form) {
		if raw, ok := adapt.Unwrap(n.Form, data); ok && verifies(raw) {
			w.o.Probe("damage the checksum cannot show")
			return
		}
	}
	if n.Ref {
		w.receiveRef(n, data, bad, t)
		return
	}
	// the message arrives in the node's buffer, which the next one overwrites
	in := data
	if len(data) <= len(n.rx) {
		for i := range n.rx {
			n.rx[i] = 0xA5
		}
		k := copy(n.rx[:], data)
		in = n.rx[:k:k]
	}
	x := &adapt.SIS{}
	var other *adapt.SIS
	var err error
	if !w.guard("load", func() {
		switch {
		case n.Form == adapt.B64 || n.Form == adapt.Hex || n.Form == adapt.Hex0x:
			x, err = adapt.Load(n.Form, in)
			return
		case n.Reuse && n.Hold == 0 && n.Store == "":
			if n.obj == nil {
				n.obj = x
			}
			x = n.obj
			w.o.Probe("object reused")
		}
		if n.Env > 0 {
			x, other, err = disclose(n.Form, n.Env, in, n.Chunk, x)
			return
		}
		if isDoc(n.Form) && n.Chunk > 0 {
			err = stream(n.Form, in, n.Chunk, x)
			return
		}
		err = adapt.LoadInto(x, n.Form, in)
	}) {
		return
	}
	w.o.Log("%d ms: node %d, transmission %d: %s", w.now/ms, n.id, t.gen, errText(err))
	if !w.accepted(n, where, x, err, bad, t) {
		return
	}
	if other != nil {
		s := w.companion(t.sig)
		if s == nil {
			w.fail("wrong content", "%s: another signal came out of it", where)
			return
		}
		if differ(w.o, w.prop(), "wrong content", where+", the other signal in it", s.View(), adapt.View(other)) {
			return
		}
		w.o.Probe("two signals in one document")
	}
	n.seen[t.gen] = true
	x, t, ok := w.process(n, x, t)
	if !ok {
		return
	}
	switch {
	case n.Store != "":
		w.journal(n, x, t)
	case n.Hold > 0:
		ep := n.epoch
		w.at(w.now+int64(n.Hold)*ms, func() {
			if n.epoch != ep {
				w.o.Fault("crash: held signal lost")
				return
			}
			w.leave(n, x, t)
		})
	default:
		w.leave(n, x, t)
	}
}

// accepted judges a load.
func (w *world) accepted(n *cnode, where string, x *adapt.SIS, err error, bad bool, t truth) bool {
	if bad {
		if err == nil {
			w.fail("damage accepted", "%s: accepted", where)
		}
		return false
	}
	if err != nil {
		w.fail("signal refused", "%s: %v", where, err)
		return false
	}
	return !w.differs(n, where, x, t)
}

func (w *world) differs(n *cnode, where string, x *adapt.SIS, t truth) bool {
	if x.PreRollMilliSeconds != t.pre {
		w.fail("wrong content", "%s: preRollMilliSeconds is %d, should be %d", where, x.PreRollMilliSeconds, t.pre)
		return true
	}
	if differ(w.o, w.prop(), "wrong content", where, t.sec.View(), adapt.View(x)) {
		return true
	}
	return len(n.Ask) > 0 && w.asks(where, n, x, t)
}

// lists: JSON shows a list without elements as null or as [].
var lists = strings.NewReplacer(`"components":null`, `"components":[]`, `"components": null`, `"components": []`,
	`"events":null`, `"events":[]`, `"events": null`, `"events": []`, `"audioChannels":null`, `"audioChannels":[]`, `"audioChannels": null`, `"audioChannels": []`)

// flipFlags turns flags over that say how much of the signal is transmitted.
// Doing it twice changes nothing.
func flipFlags(x *adapt.SIS, k int) {
	flip := func(bit int, b *bool) {
		if k&bit != 0 {
			*b = !*b
		}
	}
	switch c := x.SpliceCommand.(type) {
	case *scte35.SpliceInsert:
		flip(1, &c.SpliceImmediateFlag)
		flip(2, &c.SpliceEventCancelIndicator)
	case *scte35.SpliceSchedule:
		for i := range c.Events {
			flip(4, &c.Events[i].SpliceEventCancelIndicator)
		}
	}
	for _, d := range x.SpliceDescriptors {
		if d, ok := d.(*scte35.SegmentationDescriptor); ok {
			flip(8, &d.SegmentationEventCancelIndicator)
		}
	}
	if k&16 != 0 {
		x.Tier ^= 1 << 20 // too wide: cannot be encoded
	}
}

// asks compares what the object tells with what a new object of the same
// content tells.
func (w *world) asks(where string, n *cnode, x *adapt.SIS, t truth) bool {
	var y *adapt.SIS
	from := "built"
	if w.o.Probe("asked"); t.sec.Alg == 0 && len(t.sec.Stuff) == 0 && w.seq%2 == 0 {
		y = adapt.Build(t.sec)
	} else {
		y, from = &adapt.SIS{}, "decoded"
		c := t.sec.Clone()
		c.Legacy = false
		b := c.Bytes()
		var err error
		if !w.guard("decode", func() { err = y.Decode(b) }) || err != nil {
			return false
		}
	}
	y.PreRollMilliSeconds = x.PreRollMilliSeconds
	if n.Flip > 0 {
		w.o.Probe("asked with flags turned over")
		flipFlags(x, n.Flip)
		for _, op := range n.Ask {
			if prob := core.Guard(core.Budget(40000), func() { adapt.Do(op, x) }); prob != "" {
				w.fail(op+": "+core.Cls(prob), "%s: %s with flags turned over: %s", where, op, prob)
				return true
			}
		}
		flipFlags(x, n.Flip)
	}
	for _, op := range n.Ask {
		if strings.HasPrefix(op, "xml") && !w.p.XML {
			continue
		}
		var a, b string
		if prob := core.Guard(core.Budget(40000), func() { a, b = adapt.Do(op, x), adapt.Do(op, y) }); prob != "" {
			w.fail(op+": "+core.Cls(prob), "%s: %s: %s", where, op, prob)
			return true
		}
		if strings.HasPrefix(op, "json") {
			a, b = lists.Replace(a), lists.Replace(b)
		}
		if a != b {
			w.o.Fail("C20", "tells otherwise: "+op, "%s: %s of the signal is %q, that of a newly %s one with the same content %q", where, op, clip(a, b), from, clip(b, a))
			return true
		}
	}
	return false
}

// process applies the node's edits.
func (w *world) process(n *cnode, x *adapt.SIS, t truth) (*adapt.SIS, truth, bool) {
	t.sec = t.sec.Clone()
	for i := range n.Eds {
		if e := &n.Eds[i]; e.Sig == t.sig {
			if !w.guard("edit", func() { w.edit(n, e, t.sec, x) }) {
				return x, t, false
			}
		}
	}
	if n.Pre != 0 {
		x.PreRollMilliSeconds = n.Pre
		t.pre = n.Pre
	}
	return x, t, true
}

// leave sends an object on after it was held.
func (w *world) leave(n *cnode, x *adapt.SIS, t truth) {
	time.Local = zone(n.zone)
	if w.differs(n, fmt.Sprintf("node %d, signal %d when sent on", n.id, t.sig), x, t) {
		return
	}
	w.forward(n, x, t, false)
}

func (w *world) receiveRef(n *cnode, data []byte, bad bool, t truth) {
	raw, ok := adapt.Unwrap(n.Form, data)
	if bad || !ok {
		return // its own business
	}
	s, err := model.Decode(raw)
	if err != nil {
		w.fail("independent decoder refuses", "node %d: %s: %v", n.id, short(raw), err)
		return
	}
	if differ(w.o, w.prop(), "independent decoder differs", fmt.Sprintf("node %d: %s", n.id, short(raw)), t.sec.View(), s.View()) {
		return
	}
	n.seen[t.gen] = true
	t.sec = t.sec.Clone()
	for i := range n.Eds {
		if e := &n.Eds[i]; e.Sig == t.sig {
			w.edit(n, e, t.sec, nil)
		}
	}
	t.sec.Legacy = false
	w.at(w.now+int64(n.Hold)*ms, func() {
		w.o.Log("%d ms: reference node %d sends on", w.now/ms, n.id)
		w.forward(n, nil, t, true)
	})
}

// chunks reads a little at a time.
type chunks struct {
	b []byte
	n int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	k := copy(p, c.b[:min(c.n, len(c.b))])
	c.b = c.b[k:]
	return k, nil
}

// stream reads one document from a connection.
func stream(form string, data []byte, chunk int, x *adapt.SIS) error {
	r := &chunks{data, chunk}
	if form == adapt.JSON {
		return json.NewDecoder(r).Decode(x)
	}
	return xml.NewDecoder(r).Decode(x)
}

// journal appends to the node's disk; the signal is read back and sent on
// later.
func (w *world) journal(n *cnode, x *adapt.SIS, t truth) {
	b, ok := w.emit(n, x, n.Store, 0, t)
	if !ok {
		return
	}
	t.sec.Legacy = false
	if isDoc(n.Store) {
		t.sec.Stuff = nil
	}
	if n.Store != adapt.XML {
		t.pre = 0
	}
	n.disk = append(n.disk, b...)
	end := len(n.disk)
	n.recs = append(n.recs, jrec{end, t})
	ep := n.epoch
	w.at(w.now+int64(n.Sync)*ms, func() {
		if n.epoch == ep {
			n.synced = max(n.synced, end)
		}
	})
	w.at(w.now+int64(n.Sync+n.Hold)*ms, func() {
		if n.epoch == ep {
			w.drain(n)
		}
	})
}

// drain reads the journal and sends everything in it on.
func (w *world) drain(n *cnode) {
	if len(n.disk) == 0 {
		n.recs, n.synced = nil, 0
		return
	}
	time.Local = zone(n.zone)
	disk := n.disk
	recs := n.recs
	n.disk, n.recs, n.synced = nil, nil, 0
	whole := len(recs)
	for i, r := range recs {
		if r.end > len(disk) {
			whole = i
			break
		}
	}
	chunk := n.Chunk
	if chunk == 0 {
		chunk = 4096
	}
	var xs []*adapt.SIS
	var last error
	in := &chunks{disk, chunk}
	jd := json.NewDecoder(in)
	xd := xml.NewDecoder(in)
	buf := make([]byte, 5000)
	if !w.guard("load", func() {
		for k := 0; k <= whole; k++ {
			x := &adapt.SIS{}
			switch n.Store {
			case adapt.JSON:
				last = jd.Decode(x)
			case adapt.XML:
				last = xd.Decode(x)
			default:
				var b []byte
				b, last = section(in, buf)
				if last == nil && k == whole && verifies(b) {
					w.o.Probe("damage the checksum cannot show")
					last = io.ErrUnexpectedEOF
				}
				if last == nil {
					last = x.Decode(b)
				}
			}
			if last != nil {
				return
			}
			xs = append(xs, x)
		}
	}) {
		return
	}
	w.o.Log("%d ms: node %d reads %d of %d records: %s", w.now/ms, n.id, len(xs), len(recs), errText(last))
	if len(xs) > whole {
		w.fail("torn journal accepted", "node %d: its %s journal of %d bytes with %d whole records gives %d signals", n.id, n.Store, len(disk), whole, len(xs))
		return
	}
	if len(xs) < whole {
		w.fail("signal refused", "node %d: record %d of its %s journal of %d bytes with %d whole records: %v", n.id, len(xs), n.Store, len(disk), whole, last)
		return
	}
	for k, x := range xs {
		if w.differs(n, fmt.Sprintf("node %d, record %d of its %s journal", n.id, k, n.Store), x, recs[k].t) {
			return
		}
	}
	for k, x := range xs {
		w.leave(n, x, recs[k].t)
		if len(w.o.Viol) > 0 {
			return
		}
	}
}

// section reads one section as a receiver does; what is there of a torn one is
// left to the decoder.
func section(r io.Reader, buf []byte) ([]byte, error) {
	k, err := io.ReadFull(r, buf[:3])
	if k == 0 {
		return nil, err
	}
	if err != nil {
		return buf[:k:k], nil
	}
	n := int(buf[1]&0x0F)<<8 | int(buf[2])
	m, _ := io.ReadFull(r, buf[3:3+n])
	return buf[: 3+m : 3+m], nil
}

// crash stops a node.
func (w *world) crash(c NodeCrash) {
	n := w.nodes[c.Node]
	if !n.up {
		return
	}
	n.up = false
	n.epoch++
	n.obj = nil
	w.o.Fault("node crash")
	if len(n.disk) > n.synced {
		keep := n.synced + mod(c.Keep, len(n.disk)-n.synced+1)
		if keep < len(n.disk) {
			w.o.Fault("torn journal")
		}
		n.disk = n.disk[:keep:keep]
	}
	w.o.Log("%d ms: node %d crashes, %d bytes on its disk", w.now/ms, n.id, len(n.disk))
	w.at(w.now+int64(c.Down)*ms, func() {
		n.up = true
		n.zone = c.Zone
		w.o.Log("%d ms: node %d restarts", w.now/ms, n.id)
		w.drain(n)
	})
}

func init() {
	core.Register(core.S[ChainPlan]{ID: "chain", G: genChain, E: execChain}, map[string]int{"C09": 1, "C10": 1, "C13": 1, "C20": 1})
}
