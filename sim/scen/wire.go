package scen

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
)

// WirePlan is a sequence of deliveries over a link that damages frames.
type WirePlan struct {
	Msgs []WireMsg `json:"msgs"`
}

// WireMsg is one delivery.
type WireMsg struct {
	Sec    *model.Section `json:"sec"`
	Sender string         `json:"sender"` // api: this library, ref: the reference encoder
	Form   string         `json:"form"`
	// Vals alter plain values, reserved bits and the checksum only.
	Vals []VMut `json:"vals,omitempty"`
	// Body damages only the body of one descriptor.
	Body *BodyMut `json:"body,omitempty"`
	BM   []BMut   `json:"bm,omitempty"`
	TM   []TMut   `json:"tm,omitempty"`
}

// VMut alters the I-th alterable field.
type VMut struct {
	I   int    `json:"i"`
	Xor uint64 `json:"xor"`
}

// BodyMut damages descriptor D from byte A of its body, or the splice command
// from its type on if D is -1.
type BodyMut struct {
	D int    `json:"d"`
	A int    `json:"a"`
	X []byte `json:"x"` // exclusive or
	// Crc: the damage happened before the checksum was made.
	Crc bool `json:"crc,omitempty"`
}

var wireDomain = model.Domain{Enc: true, Stuff: true, Legacy: true}

func genWire(prop string, r *rng.R) *WirePlan {
	p := &WirePlan{}
	for k := r.In(1, 4); k > 0; k-- {
		g := &model.Gen{R: r, D: wireDomain}
		g.D.Big = r.One(12)
		m := WireMsg{Sec: g.Section(), Sender: "ref", Form: rng.Pick(r, adapt.Bin, adapt.Bin, adapt.Bin, adapt.B64, adapt.Hex, adapt.Hex0x)}
		if prop == "C07" && r.Bool() {
			// small bodies, many descriptors
			m.Sec.Descs = nil
			for n := r.In(2, 6); n > 0; n-- {
				m.Sec.Descs = append(m.Sec.Descs, g.Desc())
			}
			m.Sec.Fit()
		}
		if len(m.Sec.Stuff) == 0 && !m.Sec.Legacy && m.Sec.Alg == 0 && r.Bool() {
			m.Sender = "api"
		}
		n := len(m.Sec.Bytes())
		switch {
		case prop == "C06":
			for j := r.In(1, 3); j > 0; j-- {
				v := VMut{I: r.N(4000), Xor: rng.Pick(r, 1, 0xFFFFFFFFFFFFFFFF, 1<<uint(r.N(40)), r.U64())}
				if r.One(3) {
					v.I = -1 // the checksum
				}
				m.Vals = append(m.Vals, v)
			}
		case prop == "C07" && !m.Sec.Legacy && r.One(4):
			m.Body = &BodyMut{D: -1, A: r.N(rng.Pick(r, 2, 10, 40)), X: rng.Pick(r, []byte{0xFF}, []byte{1 << uint(r.N(8))}, []byte{0, 1 << uint(r.N(8))}, r.Bytes(r.In(1, 20))), Crc: !r.One(4)}
			if r.One(4) {
				// another command type
				m.Body.A, m.Body.X = 0, []byte{byte(m.Sec.Cmd.Type) ^ rng.Pick(r, byte(0), 4, 5, 6, 7)}
			}
		case prop == "C07" && len(m.Sec.Descs) > 0 && r.Bool():
			m.Body = &BodyMut{D: r.N(len(m.Sec.Descs)), A: r.N(rng.Pick(r, 4, 16, 255)), X: rng.Pick(r, []byte{0xFF}, []byte{1 << uint(r.N(8))}, r.Bytes(r.In(1, 40)), bytes.Repeat([]byte{0xFF}, r.In(1, 255))), Crc: r.One(3)}
		case prop == "C07" && r.One(3):
			// something ends early or late, and the checksum is right
			fit := true
			switch r.N(4) {
			case 0:
				m.BM = append(m.BM, BMut{K: "end", N: r.In(1, rng.Pick(r, 2, 8, 30))})
			case 1:
				fit = false
				m.BM = append(m.BM, BMut{K: "len", A: r.N(60), N: r.N(rng.Pick(r, 4, 32, 256, 1<<12))})
			default:
				m.BM = append(m.BM, BMut{K: "loopend", N: r.In(1, rng.Pick(r, 2, 8, 30, 255))})
			}
			if fit && !r.One(8) {
				m.BM = append(m.BM, BMut{K: "fit"})
			}
			m.BM = append(m.BM, BMut{K: "crc"})
		case prop == "C05" && r.One(5):
			// arrives as it was sent
		case prop == "C05" && r.One(4) && m.Form != adapt.Bin:
			for j := r.In(1, 2); j > 0; j-- {
				m.TM = append(m.TM, drawTMut(r, m.Form, 2*n))
			}
		case prop == "C05" && r.One(3):
			// as a transport stream is damaged: whole packets
			ps := rng.Pick(r, 184, 183, 16, 8, 32)
			np := (n + ps - 1) / ps
			for j := r.In(1, 2); j > 0; j-- {
				a := r.N(np)
				switch r.N(5) {
				case 0:
					m.BM = append(m.BM, BMut{K: "del", A: a * ps, N: ps})
				case 1:
					m.BM = append(m.BM, BMut{K: "dup", A: a * ps, N: ps})
				case 2:
					m.BM = append(m.BM, BMut{K: "swap", A: a * ps, B: r.N(np) * ps, N: ps})
				case 3:
					m.BM = append(m.BM, BMut{K: "pad", B: rng.Pick(r, 0xFF, 0xFF, 0), N: r.In(1, rng.Pick(r, 2, ps))})
				default:
					// the next section, or what is left of it
					x := m.Sec
					if r.Bool() {
						x = g.Section()
					}
					b := x.Bytes()
					m.BM = append(m.BM, BMut{K: "ins", A: n, X: b[:r.In(1, len(b))]})
				}
			}
		default:
			for j := rng.Pick(r, 1, 1, 1, 2, 3); j > 0; j-- {
				switch {
				case prop == "C05" && r.Bool():
					m.BM = append(m.BM, BMut{K: "flip", A: r.N(8 * n)})
				case prop == "C05" && r.Bool():
					m.BM = append(m.BM, drawBurst(r, n))
				case prop == "C05" && r.One(4):
					m.BM = append(m.BM, BMut{K: "crcalt", A: r.N(altCRCs)})
				case prop == "C07" && r.One(3):
					m.BM = append(m.BM, BMut{K: "cut", A: r.N(n + 1)})
				default:
					m.BM = append(m.BM, drawBMut(r, n))
				}
			}
			if prop == "C05" && r.One(6) {
				m.BM = append(m.BM, BMut{K: "crc"})
			}
		}
		p.Msgs = append(p.Msgs, m)
	}
	return p
}

// drawBurst draws damage to at most 32 bits in a row of a frame of n bytes.
func drawBurst(r *rng.R, n int) BMut {
	m := BMut{K: "burst", A: r.N(8 * n), X: r.Bytes(4)}
	switch r.N(4) {
	case 0:
		m.X = bytes.Repeat([]byte{0xFF}, r.In(1, 4))
	case 1:
		m.X = r.Bytes(r.In(1, 3))
	}
	switch r.N(6) {
	case 0:
		m.A = 0
	case 1:
		m.A = 8*n - 32
	case 2:
		m.A &^= 7
	}
	return m
}

func (p *WirePlan) check() string {
	for i := range p.Msgs {
		m := &p.Msgs[i]
		if m.Sec == nil {
			return "no section"
		}
		if err := m.Sec.Check(wireDomain, true); err != nil {
			return err.Error()
		}
		switch m.Sender {
		case "ref":
		case "api":
			if len(m.Sec.Stuff) > 0 || m.Sec.Legacy || m.Sec.Alg != 0 {
				return "sender"
			}
		default:
			return "sender"
		}
		switch m.Form {
		case adapt.Bin, adapt.B64, adapt.Hex, adapt.Hex0x:
		default:
			return "form"
		}
		if m.Body != nil && (m.Body.D < -1 || m.Body.D >= len(m.Sec.Descs) || m.Body.A < 0) {
			return "descriptor"
		}
		if len(m.Vals) > 0 && (len(m.BM) > 0 || len(m.TM) > 0 || m.Body != nil) || m.Body != nil && (len(m.BM) > 0 || len(m.TM) > 0) {
			return "damage"
		}
	}
	return ""
}

// alter changes alterable fields of an encoding.
func alter(b []byte, spans []model.Span, vs []VMut) {
	var at []model.Span
	for _, s := range spans {
		if (s.Kind == model.KValue || s.Kind == model.KReserved || s.Kind == model.KCRC) && s.End > s.Start {
			at = append(at, s)
		}
	}
	for _, v := range vs {
		s := at[len(at)-1]
		if v.I >= 0 {
			s = at[v.I%len(at)]
		}
		// a window of at most 64 bits
		w := s.End - s.Start
		off := 0
		if w > 64 {
			off = v.I / len(at) * 8 % (w - 63)
			if off < 0 {
				off = 0
			}
			w = 64
		}
		x := v.Xor
		if w < 64 {
			x &= 1<<uint(w) - 1
			if x == 0 {
				x = 1
			}
		}
		setBits(b, s.Start+off, w, getBits(b, s.Start+off, w)^x)
	}
}

// descRange returns the bytes of descriptor d's body.
func descRange(spans []model.Span, d int) (lo, hi int) {
	lo, hi = -1, -1
	for _, s := range spans {
		if s.Desc == d {
			if lo < 0 {
				lo = s.Start/8 + 2
			}
			hi = s.End / 8
		}
	}
	return
}

// bodyRange is descRange, or the splice command from its type on for -1.
func bodyRange(b []byte, spans []model.Span, d int) (lo, hi int) {
	if d >= 0 {
		return descRange(spans, d)
	}
	n := int(b[11]&15)<<8 | int(b[12])
	if n == 0xFFF {
		return -1, -1
	}
	return 13, 14 + n
}

func verifies(b []byte) bool {
	if len(b) < 4 {
		return false
	}
	n := len(b) - 4
	return model.CRC(b[:n]) == uint32(b[n])<<24|uint32(b[n+1])<<16|uint32(b[n+2])<<8|uint32(b[n+3])
}

func execWire(p *WirePlan, o *core.Out) {
	if m := p.check(); m != "" {
		o.Invalid = m
		return
	}
	for i := range p.Msgs {
		deliver(&p.Msgs[i], i, o)
		if len(o.Viol) > 0 {
			return
		}
	}
	o.Inter = o.Hash
}

func deliver(m *WireMsg, i int, o *core.Out) {
	e, err := m.Sec.Map()
	if err != nil {
		o.Invalid = err.Error()
		return
	}
	sent := e.B
	if m.Sender == "api" {
		var b []byte
		var err error
		if prob := core.Guard(core.Budget(8000), func() { b, err = adapt.Build(m.Sec).Encode() }); prob != "" || err != nil || !bytes.Equal(b, e.B) {
			o.Fail("C05", "wrong encoding", "message %d: the library encodes %s (%v%s), should be %s", i, short(b), err, prob, short(e.B))
			return
		}
		sent = b
	}
	// the link
	got := append([]byte(nil), sent...)
	switch {
	case len(m.Vals) > 0:
		alter(got, e.Spans, m.Vals)
		o.Fault("field value or checksum altered")
	case m.Body != nil:
		lo, hi := bodyRange(sent, e.Spans, m.Body.D)
		if lo < hi {
			a := lo + m.Body.A%(hi-lo)
			for k, x := range m.Body.X {
				if a+k < hi {
					got[a+k] ^= x
				}
			}
			if m.Body.D < 0 {
				o.Fault("splice command damaged")
			} else {
				o.Fault("descriptor body damaged")
			}
			if m.Body.Crc {
				got = damage(got, []BMut{{K: "crc"}}, nil)
				o.Fault("checksum made right")
			}
		}
	case len(m.BM) > 0:
		got = damage(got, m.BM, e.Spans)
		countB(o, m.BM)
	}
	wire := adapt.Wrap(m.Form, got)
	if len(m.TM) > 0 {
		wire = []byte(tdamage(m.Form, string(wire), m.TM))
		countT(o, m.TM)
	}
	text, decodable := adapt.Unwrap(m.Form, wire)
	if m.Form == adapt.Hex || m.Form == adapt.Hex0x {
		if len(wire) >= 2 && string(wire[:2]) == "0X" {
			return // not a form the library documents
		}
	}
	damaged := !decodable || !bytes.Equal(text, sent)
	if decodable {
		got = text
	}

	// the receiver
	var x *adapt.SIS
	if prob := core.Guard(core.Budget(len(wire)), func() { x, err = adapt.Load(m.Form, wire) }); prob != "" {
		o.Fail("C05", "load: "+core.Cls(prob), "message %d: %s: %s", i, short(wire), prob)
		o.Fail("C07", "load: "+core.Cls(prob), "message %d: %s: %s", i, short(wire), prob)
		o.Fail("C06", "load: "+core.Cls(prob), "message %d: %s: %s", i, short(wire), prob)
		return
	}
	o.Log("message %d: %s %s: %s", i, m.Form, short(wire), errText(err))
	o.Result(errText(err))
	where := fmt.Sprintf("message %d (%s %s)", i, m.Form, short(wire))

	// C05
	if err != nil && !adapt.Exported(err) {
		o.Fail("C05", "unknown error", "%s: %v matches no exported error", where, err)
	}
	switch {
	case !decodable:
		if err == nil {
			o.Fail("C05", "bad text accepted", "%s: accepted", where)
		}
		o.Probe("undecodable text")
	case !verifies(got):
		if err == nil {
			o.Fail("C05", "damage accepted", "%s: accepted although its CRC_32 does not verify", where)
		}
		o.Probe("checksum mismatch")
	case !damaged:
		if err != nil {
			o.Fail("C05", "undamaged refused", "%s: %v", where, err)
		} else {
			differ(o, "C05", "wrong content", where, m.Sec.View(), adapt.View(x))
		}
	default:
		o.Probe("damaged but checksum verifies")
		// as good as a signal of another encoder
		if c, merr := model.Decode(got); merr == nil && c.Check(wireDomain, true) == nil {
			o.Probe("another signal made by damage")
			if err != nil {
				o.Fail("C05", "undamaged refused", "%s: %v", where, err)
			} else {
				differ(o, "C05", "wrong content", where, c.View(), adapt.View(x))
			}
		}
	}
	if x == nil {
		if decodable {
			o.Fail("C07", "no signal", "%s: no signal object", where)
		}
		return
	}

	// C06
	if len(m.Vals) > 0 && decodable && !verifies(got) {
		alike := m.Sec.Clone()
		alike.Legacy = false
		le, _ := alike.Map()
		b := le.B
		alter(b, le.Spans, m.Vals)
		b = damage(b, []BMut{{K: "crc"}}, nil)
		content, derr := model.Decode(b)
		if derr != nil {
			return // the alteration made it another kind of signal
		}
		o.Probe("checksum-only damage")
		if !errors.Is(err, scte35.ErrCRC32Invalid) {
			o.Fail("C06", "not the checksum error", "%s: %v", where, err)
			return
		}
		differ(o, "C06", "content lost", where, content.View(), adapt.View(x))
		var out []byte
		var eerr error
		if prob := core.Guard(core.Budget(8000), func() { out, eerr = x.Encode() }); prob != "" || eerr != nil {
			o.Fail("C06", "not re-encodable", "%s: %v %s", where, eerr, prob)
			return
		}
		if content.Alg == 0 {
			if w := content.Bytes(); !bytes.Equal(w, out) {
				o.Fail("C06", "wrong re-encoding", "%s: re-encodes as %s, should be %s", where, clip(fmt.Sprintf("%x", out), fmt.Sprintf("%x", w)), clip(fmt.Sprintf("%x", w), fmt.Sprintf("%x", out)))
			}
		} else if c, err := model.Decode(out); err != nil {
			o.Fail("C06", "wrong re-encoding", "%s: re-encodes as %s: %v", where, short(out), err)
		} else {
			differ(o, "C06", "wrong re-encoding", where, content.View(), c.View())
		}
		return
	}

	// C07
	if !decodable || !damaged {
		return
	}
	view := adapt.View(x)
	want := m.Sec.View()
	if verifies(got) && model.Broken(got) {
		o.Probe("section that ends inside what it announces")
		if err == nil {
			o.Fail("C07", "damage not reported", "%s: no error", where)
		}
	}
	first := len(sent)
	adjusted := map[int]bool{} // lengths made to fit
	last := len(sent)          // the descriptors end here
	for _, b := range m.BM {
		switch b.K {
		case "fit":
			adjusted[1], adjusted[2] = true, true
		case "loopend":
			for _, sp := range e.Spans {
				if sp.Desc >= 0 {
					last = max(0, sp.End/8-max(0, b.N))
				}
				if sp.Desc < 0 && sp.Kind == model.KLen && sp.End-sp.Start == 16 {
					adjusted[sp.Start/8], adjusted[sp.Start/8+1] = true, true
				}
			}
		}
	}
	for k := range sent {
		if k < len(got)-4 && adjusted[k] && (k != 1 || got[1]>>4 == sent[1]>>4) {
			continue
		}
		if k >= len(got) || got[k] != sent[k] {
			first = k
			break
		}
	}
	first = min(first, last)
	if m.Body != nil && m.Body.D < 0 {
		lo, hi := bodyRange(sent, e.Spans, -1)
		broken := lo >= 0 && model.CmdBroken(got[lo:hi])
		if broken {
			o.Probe("command that ends too early or too late")
		}
		if err == nil && (broken || !verifies(got)) {
			o.Fail("C07", "damage not reported", "%s: no error", where)
		}
	} else if m.Body != nil && (len(got) == len(sent)) {
		lo, hi := descRange(e.Spans, m.Body.D)
		broken := lo >= 0 && model.BodyBroken(got[lo-2:hi])
		if broken {
			o.Probe("descriptor that ends too early or too late")
		}
		if err == nil && (broken || !verifies(got)) {
			o.Fail("C07", "damage not reported", "%s: no error", where)
		}
		pre := fmt.Sprintf("d[%d].", m.Body.D)
		cut := func(v model.View) model.View {
			c := model.View{}
			for k, x := range v {
				if !strings.HasPrefix(k, pre) {
					c[k] = x
				}
			}
			return c
		}
		differ(o, "C07", "other content disturbed", where+fmt.Sprintf(", damaged only inside descriptor %d", m.Body.D), cut(want), cut(view))
	}
	bad := map[string]bool{}   // a part of the value was hit
	done := map[string]bool{}  // the value arrived
	whole := map[string]bool{} // descriptor whose identifier arrived
	for _, s := range e.Spans {
		if s.Path == "" {
			continue
		}
		if (s.End+7)/8 <= first {
			done[s.Path] = true
		} else {
			bad[s.Path] = true
		}
	}
	for d := range m.Sec.Descs {
		lo, _ := descRange(e.Spans, d)
		if lo >= 0 && lo+4 <= first {
			whole[fmt.Sprintf("d[%d].", d)] = true
		}
	}
	for path := range done {
		w, ok := want[path]
		if bad[path] || !ok {
			continue
		}
		if i := strings.LastIndexByte(path, '.'); i >= 0 {
			switch path[i+1:] {
			case "comps", "audio", "events":
				continue // how many of them are known depends on what follows
			case "subnum":
				if p := path[:i+1] + "subexp"; !done[p] || bad[p] {
					continue // the pair is there only if all of it is
				}
			case "type", "format":
				if strings.Contains(path, "upid") && !(done[path[:i+1]+"value"] && !bad[path[:i+1]+"value"]) {
					continue
				}
			}
		}
		if strings.HasPrefix(path, "d[") {
			k := path[:strings.IndexByte(path, '.')+1]
			if !whole[k] {
				continue
			}
			if view[k+"kind"] != want[k+"kind"] {
				o.Fail("C07", "descriptor lost", "%s: damaged from byte %d; %skind is %q, was %q", where, first, k, view[k+"kind"], want[k+"kind"])
				return
			}
		}
		if view[path] != w {
			o.Fail("C07", "field lost", "%s: damaged from byte %d on; %s is %q, was %q", where, first, path, view[path], w)
			return
		}
		o.Probe("field kept")
	}
	// characters and private bytes are fields of their own
	for _, sp := range e.Spans {
		n := first - sp.Start/8
		if n <= 0 || 8*n >= sp.End-sp.Start || sp.Start%8 != 0 {
			continue
		}
		pre := ""
		if i := strings.LastIndexByte(sp.Path, '.'); i >= 0 {
			pre = sp.Path[:i+1]
		}
		if strings.HasPrefix(sp.Path, "d[") && !whole[pre] || view[pre+"kind"] != want[pre+"kind"] {
			continue
		}
		var had, has string
		switch {
		case strings.HasSuffix(sp.Path, ".priv"):
			had, has = want[sp.Path][:2*n], view[sp.Path]
		case strings.HasSuffix(sp.Path, ".chars"):
			had, _ = strconv.Unquote(want[sp.Path])
			has, _ = strconv.Unquote(view[sp.Path])
			had = had[:n]
		default:
			continue
		}
		if !strings.HasPrefix(has, had) {
			o.Fail("C07", "field lost", "%s: damaged from byte %d on; %s is %q, began with %q", where, first, sp.Path, has, had)
			return
		}
		o.Probe("beginning kept")
	}
}

func init() {
	core.Register(core.S[WirePlan]{ID: "wire", G: genWire, E: execWire}, map[string]int{"C05": 1, "C06": 1, "C07": 1})
}
