// Package scen holds the simulated worlds.
package scen

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"slices"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/Comcast/scte35-go/pkg/scte35"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
	"verif.local/sim/vsim"
)

// SelfDir is a directory for scratch files.
var SelfDir string

// NSites is the number of instrumented places.
var NSites int

// LoadDict reads the dictionary of the instrumented sources.
func LoadDict(file string) error {
	if err := model.LoadDict(file); err != nil {
		return err
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var d struct {
		Sites                map[string]string
		Goroutines, Channels bool
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return err
	}
	NSites = len(d.Sites)
	vsim.Goroutines, vsim.Channels = d.Goroutines, d.Channels
	return nil
}

// dropper is a log destination that formats and drops.
type dropper struct{}

func (dropper) Write(b []byte) (int, error) { return len(b), nil }

var (
	quiet   = log.New(io.Discard, "", 0)
	dropLog = log.New(dropper{}, "", log.LstdFlags)
)

// Quiet sends diagnostics nowhere.
func Quiet() { scte35.Logger = quiet }

// zone is a time zone with whole minutes.
func zone(minutes int) *time.Location {
	if minutes == 0 {
		return time.UTC
	}
	return time.FixedZone("", minutes*60)
}

func drawZone(r *rng.R) int {
	if r.One(3) {
		return 0
	}
	return rng.Pick(r, -720, -480, -300, -210, -60, 30, 60, 120, 330, 345, 540, 570, 780, 840)
}

// strategy draws a scheduling strategy.
func strategy(r *rng.R) vsim.Strategy {
	s := vsim.Strategy{Seed: r.U64()}
	switch r.N(10) {
	case 0, 1, 2:
		s.Kind, s.P = "random", rng.Pick(r, 1, 2, 3, 5, 10, 30, 100)
	case 3, 4, 5:
		s.Kind, s.Depth, s.Est = "pct", r.In(1, 6), rng.Pick(r, 60, 200, 600, 2000, 6000)
	case 6, 7, 8:
		s.Kind = "sites"
		n := r.In(1, 12)
		for i := 0; i < n && NSites > 0; i++ {
			s.Sites = append(s.Sites, uint32(r.In(1, NSites)))
		}
		if r.Bool() && NSites > 0 {
			// neighbours, as in a function body
			a := r.In(1, NSites)
			for k := 0; k < r.In(3, 25) && a+k <= NSites; k++ {
				s.Sites = append(s.Sites, uint32(a+k))
			}
		}
	default:
		s.Kind = rng.Pick(r, "rr", "none")
	}
	return s
}

// Edit is a change to a signal that a user makes through the exported fields.
type Edit struct {
	Op    string         `json:"op"`
	I     int            `json:"i,omitempty"`
	J     int            `json:"j,omitempty"`
	V     uint64         `json:"v,omitempty"`
	B     []byte         `json:"b,omitempty"`
	S     string         `json:"s,omitempty"`
	Cmd   *model.Cmd     `json:"cmd,omitempty"`
	Desc  *model.Desc    `json:"desc,omitempty"`
	Event *model.Event   `json:"event,omitempty"`
	Comp  *model.Comp    `json:"comp,omitempty"`
	EvC   *model.EvComp  `json:"evc,omitempty"`
	SegC  *model.SegComp `json:"segc,omitempty"`
	UPID  *model.UPID    `json:"upid,omitempty"`
	Audio *model.Audio   `json:"audio,omitempty"`
	N     int            `json:"n,omitempty"` // repetitions
}

// target finds the i-th descriptor of a kind.
func target(s *model.Section, kind string, i int) int {
	var at []int
	for k := range s.Descs {
		if s.Descs[k].Kind == kind && !(kind == model.DSeg && s.Descs[k].Cancel) {
			at = append(at, k)
		}
	}
	if len(at) == 0 {
		return -1
	}
	if i < 0 {
		i = 0
	}
	return at[i%len(at)]
}

func times(n int) int {
	if n < 1 {
		return 1
	}
	if n > 5000 {
		return 5000
	}
	return n
}

func pick(n, i int) int {
	if n == 0 {
		return -1
	}
	if i < 0 {
		i = 0
	}
	return i % n
}

// Apply changes the model and the object alike (either may be nil); it returns
// false if there is nothing to change.
func (e *Edit) Apply(s *model.Section, x *adapt.SIS) bool {
	switch e.Op {
	case "tier":
		s.Tier = uint32(e.V & 0xFFF)
		if x != nil {
			x.Tier = s.Tier
		}
	case "adj":
		s.PTSAdj = e.V & (1<<33 - 1)
		if x != nil {
			x.PTSAdjustment = s.PTSAdj
		}
	case "sap":
		s.SAP = uint32(e.V & 3)
		if x != nil {
			x.SAPType = s.SAP
		}
	case "cw":
		s.CW = uint32(e.V & 255)
		if x != nil {
			x.EncryptedPacket.CWIndex = s.CW
		}
	case "proto":
		s.Proto = uint32(e.V & 255)
		if x != nil {
			x.ProtocolVersion = s.Proto
		}
	case "cmd":
		if e.Cmd == nil {
			return false
		}
		s.Cmd = e.Cmd.Clone()
		if s.Cmd.Type == model.CmdPrivate {
			s.Legacy = false
		}
		if x != nil {
			x.SpliceCommand = adapt.BuildCmd(e.Cmd)
		}
	case "cmdfill":
		// a command whose list has V elements
		if e.Cmd == nil || e.V < 1 || e.V > 800 {
			return false
		}
		c := e.Cmd.Clone()
		switch {
		case c.Type == model.CmdSchedule && len(c.Events) == 1 && len(c.Events[0].Comps) == 1:
			v := &c.Events[0]
			v.Comps = slices.Repeat(v.Comps, int(e.V))
		case c.Type == model.CmdSchedule && len(c.Events) == 1:
			for len(c.Events) < int(e.V) {
				c.Events = append(c.Events, c.Events[0].Clone())
			}
		case c.Type == model.CmdInsert && len(c.Comps) == 1:
			for len(c.Comps) < int(e.V) {
				c.Comps = append(c.Comps, c.Comps[0])
			}
		default:
			return false
		}
		s.Cmd = c
		if x != nil {
			x.SpliceCommand = adapt.BuildCmd(&c)
		}
	case "adddesc":
		if e.Desc == nil {
			return false
		}
		for i := 0; i < times(e.N); i++ {
			s.Descs = append(s.Descs, e.Desc.Clone())
			if x != nil {
				x.SpliceDescriptors = append(x.SpliceDescriptors, adapt.BuildDesc(e.Desc))
			}
		}
	case "deldesc":
		i := pick(len(s.Descs), e.I)
		if i < 0 {
			return false
		}
		s.Descs = append(append([]model.Desc(nil), s.Descs[:i]...), s.Descs[i+1:]...)
		if x != nil {
			x.SpliceDescriptors = append(x.SpliceDescriptors[:i], x.SpliceDescriptors[i+1:]...)
		}
	case "swapdesc":
		i, j := pick(len(s.Descs), e.I), pick(len(s.Descs), e.J)
		if i < 0 || i == j {
			return false
		}
		s.Descs[i], s.Descs[j] = s.Descs[j], s.Descs[i]
		if x != nil {
			x.SpliceDescriptors[i], x.SpliceDescriptors[j] = x.SpliceDescriptors[j], x.SpliceDescriptors[i]
		}
	case "event":
		if s.Cmd.Type != model.CmdSchedule || e.Event == nil {
			return false
		}
		for i := 0; i < times(e.N); i++ {
			s.Cmd.Events = append(s.Cmd.Events, e.Event.Clone())
			if x != nil {
				k := x.SpliceCommand.(*scte35.SpliceSchedule)
				k.Events = append(k.Events, adapt.BuildEvent(e.Event))
			}
		}
	case "evcomp":
		i := pick(len(s.Cmd.Events), e.I)
		if i < 0 || e.EvC == nil || s.Cmd.Type != model.CmdSchedule {
			return false
		}
		ev := &s.Cmd.Events[i]
		if ev.Cancel || ev.Program {
			return false
		}
		ev.Comps = append([]model.EvComp(nil), ev.Comps...)
		for n := 0; n < times(e.N); n++ {
			ev.Comps = append(ev.Comps, *e.EvC)
			if x != nil {
				k := &x.SpliceCommand.(*scte35.SpliceSchedule).Events[i]
				k.Components = append(k.Components, scte35.EventComponent{Tag: e.EvC.Tag, UTCSpliceTime: scte35.NewUTCSpliceTime(e.EvC.UTC)})
			}
		}
	case "comp":
		c := &s.Cmd
		if c.Type != model.CmdInsert || c.Cancel || c.Program || e.Comp == nil || c.Imm && e.Comp.Time != nil {
			return false
		}
		for n := 0; n < times(e.N); n++ {
			c.Comps = append(c.Comps, *e.Comp)
			if x != nil {
				k := x.SpliceCommand.(*scte35.SpliceInsert)
				k.Components = append(k.Components, adapt.BuildComp(*e.Comp))
			}
		}
	case "cmdpriv":
		if s.Cmd.Type != model.CmdPrivate {
			return false
		}
		for n := 0; n < times(e.N); n++ {
			s.Cmd.Priv = append(s.Cmd.Priv[:len(s.Cmd.Priv):len(s.Cmd.Priv)], e.B...)
			if x != nil {
				k := x.SpliceCommand.(*scte35.PrivateCommand)
				k.PrivateBytes = append(k.PrivateBytes, e.B...)
			}
		}
	case "priv":
		i := target(s, model.DPriv, e.I)
		if i < 0 {
			return false
		}
		for n := 0; n < times(e.N); n++ {
			d := &s.Descs[i]
			d.Priv = append(d.Priv[:len(d.Priv):len(d.Priv)], e.B...)
			if x != nil {
				k := x.SpliceDescriptors[i].(*scte35.PrivateDescriptor)
				k.PrivateBytes = append(k.PrivateBytes, e.B...)
			}
		}
	case "chars":
		i := target(s, model.DDTMF, e.I)
		if i < 0 {
			return false
		}
		t := strings.Repeat(e.S, times(e.N))
		s.Descs[i].Chars += t
		if x != nil {
			x.SpliceDescriptors[i].(*scte35.DTMFDescriptor).DTMFChars += t
		}
	case "audio":
		i := target(s, model.DAudio, e.I)
		if i < 0 || e.Audio == nil {
			return false
		}
		for n := 0; n < times(e.N); n++ {
			d := &s.Descs[i]
			d.Audio = append(d.Audio[:len(d.Audio):len(d.Audio)], *e.Audio)
			if x != nil {
				k := x.SpliceDescriptors[i].(*scte35.AudioDescriptor)
				k.AudioChannels = append(k.AudioChannels, adapt.BuildAudio(*e.Audio))
			}
		}
	case "upid":
		i := target(s, model.DSeg, e.I)
		if i < 0 || e.UPID == nil {
			return false
		}
		for n := 0; n < times(e.N); n++ {
			d := &s.Descs[i]
			d.UPIDs = append(d.UPIDs[:len(d.UPIDs):len(d.UPIDs)], e.UPID.Clone())
			if x != nil {
				k := x.SpliceDescriptors[i].(*scte35.SegmentationDescriptor)
				k.SegmentationUPIDs = append(k.SegmentationUPIDs, adapt.BuildUPID(e.UPID))
			}
		}
	case "noform":
		// a value that the binary form cannot carry
		if e.V == isoForm {
			i := target(s, model.DAudio, e.I)
			if i < 0 || len(e.B) == 3 {
				return false
			}
			d := &s.Descs[i]
			d.Audio = append(d.Audio[:len(d.Audio):len(d.Audio)], model.Audio{ISO: string(e.B)})
			if x != nil {
				k := x.SpliceDescriptors[i].(*scte35.AudioDescriptor)
				k.AudioChannels = append(k.AudioChannels, scte35.AudioChannel{ISOCode: string(e.B)})
			}
			break
		}
		i := target(s, model.DSeg, e.I)
		if i < 0 || len(e.B) == 0 || e.V == 0 || e.V > 255 && e.V != bareMPU || e.V == 0x0D || !utf8.Valid(e.B) {
			return false
		}
		u := model.UPID{Type: uint32(e.V), Bad: string(e.B)}
		switch e.V {
		case 0x0C:
			u.Raw = []byte("CUEI")
		case bareMPU:
			u.Type = 0x0C
		}
		d := &s.Descs[i]
		d.UPIDs = append(d.UPIDs[:len(d.UPIDs):len(d.UPIDs)], u)
		if x != nil {
			k := x.SpliceDescriptors[i].(*scte35.SegmentationDescriptor)
			k.SegmentationUPIDs = append(k.SegmentationUPIDs, adapt.BuildUPID(&u))
		}
	case "segcomp":
		i := target(s, model.DSeg, e.I)
		if i < 0 || e.SegC == nil {
			return false
		}
		for n := 0; n < times(e.N); n++ {
			d := &s.Descs[i]
			d.Comps = append(d.Comps[:len(d.Comps):len(d.Comps)], *e.SegC)
			if x != nil {
				k := x.SpliceDescriptors[i].(*scte35.SegmentationDescriptor)
				k.Components = append(k.Components, scte35.SegmentationDescriptorComponent{Tag: e.SegC.Tag, PTSOffset: e.SegC.Off})
			}
		}
	case "fill":
		// private descriptors up to a section length of V
		c := s.Clone()
		c.Legacy = false
		enc, err := c.Encode()
		if err != nil || e.V > 9000 {
			return false
		}
		for room := int(e.V) - enc.SectionLength; room >= 6; {
			n := min(room, 257)
			if rest := room - n; rest > 0 && rest < 6 {
				n -= 6
			}
			d := model.Desc{Kind: model.DPriv, Tag: 0x80, Ident: 0x41424344, Priv: make([]byte, n-6)}
			s.Descs = append(s.Descs, d)
			if x != nil {
				x.SpliceDescriptors = append(x.SpliceDescriptors, adapt.BuildDesc(&d))
			}
			room -= n
		}
	case "segfill":
		// one UPID that makes a segmentation descriptor V bytes long
		i := target(s, model.DSeg, e.I)
		if i < 0 || e.V > 2000 || e.UPID == nil || len(s.Descs[i].UPIDs) > 1 {
			return false
		}
		c := s.Descs[i].Clone()
		u := e.UPID.Clone()
		u.Type, u.Raw = 0x0F, []byte("x")
		c.UPIDs = []model.UPID{u}
		enc, err := (&model.Section{Cmd: model.Cmd{Type: model.CmdNull}, Descs: []model.Desc{c}}).Encode()
		if err != nil {
			return false
		}
		n := 1 + int(e.V) - (enc.SectionLength - 19)
		if n < 1 {
			return false
		}
		u.Raw = []byte(strings.Repeat("urn:nbn:", n/8+1)[:n])
		s.Descs[i].UPIDs = []model.UPID{u}
		if x != nil {
			x.SpliceDescriptors[i].(*scte35.SegmentationDescriptor).SegmentationUPIDs = []scte35.SegmentationUPID{adapt.BuildUPID(&u)}
		}
	case "segid":
		i := target(s, model.DSeg, e.I)
		if i < 0 {
			return false
		}
		s.Descs[i].ID = uint32(e.V)
		if x != nil {
			x.SpliceDescriptors[i].(*scte35.SegmentationDescriptor).SegmentationEventID = uint32(e.V)
		}
	case "segdur":
		i := target(s, model.DSeg, e.I)
		if i < 0 {
			return false
		}
		v := e.V & (1<<40 - 1)
		s.Descs[i].Dur = &v
		if x != nil {
			w := v
			x.SpliceDescriptors[i].(*scte35.SegmentationDescriptor).SegmentationDuration = &w
		}
	case "wide":
		// a value that its field cannot hold
		part := e.I%(len(s.Descs)+2) - 2
		t := s.Clone()
		if e.I < 0 || !t.Widen(part, e.J, e.N, e.V&1 == 1) {
			return false
		}
		switch {
		case part == -2:
			s.SAP, s.Proto, s.Alg, s.PTSAdj, s.CW, s.Tier = t.SAP, t.Proto, t.Alg, t.PTSAdj, t.CW, t.Tier
			if x != nil {
				x.SAPType, x.ProtocolVersion, x.PTSAdjustment, x.Tier = t.SAP, t.Proto, t.PTSAdj, t.Tier
				x.EncryptedPacket.EncryptionAlgorithm, x.EncryptedPacket.CWIndex = t.Alg, t.CW
			}
		case part == -1:
			s.Cmd = t.Cmd
			if x != nil {
				adapt.AssignCmd(x, adapt.BuildCmd(&s.Cmd))
			}
		default:
			s.Descs[part] = t.Descs[part]
			if x != nil {
				adapt.AssignDesc(x, part, adapt.BuildDesc(&s.Descs[part]))
			}
		}
	case "vary":
		// other values for some fields, in place
		g := &model.Gen{R: rng.New(e.V), D: model.Domain{XML: true}}
		if i := pick(len(s.Descs)+1, e.I); i < len(s.Descs) {
			s.Descs[i] = s.Descs[i].Clone()
			for k := g.R.In(1, 3); k > 0; k-- {
				varyDesc(g, &s.Descs[i])
			}
			if x != nil {
				adapt.AssignDesc(x, i, adapt.BuildDesc(&s.Descs[i]))
			}
		} else {
			s.Cmd = s.Cmd.Clone()
			for k := g.R.In(1, 3); k > 0; k-- {
				varyCmd(g, &s.Cmd)
			}
			if x != nil {
				adapt.AssignCmd(x, adapt.BuildCmd(&s.Cmd))
			}
		}
	default:
		return false
	}
	return true
}

// isoForm stands for a language code among the UPID types of drawNoForm.
const isoForm = 1000

// bareMPU stands for a managed private UPID without its format_identifier.
const bareMPU = 1001

// drawNoForm draws a UPID type and a text that has no binary form as such.
func drawNoForm(r *rng.R) (uint64, []byte) {
	typ := rng.Pick(r, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 0x0A, 0x0A, 0x0B, 0x0C, 0x0E, 0x0F, 0x10, 0x11, 0x40, 0xFF, isoForm, bareMPU)
	t := ""
	switch typ {
	case bareMPU:
		t = base64.StdEncoding.EncodeToString(r.Bytes(r.In(1, 24)))
	case isoForm:
		t = rng.Pick(r, "en", "e", "engl", "english", "\u00e9n", "en\u00e9")
		if len(t) == 3 {
			t += "g"
		}
	case 5, 6, 0x0C:
		t = rng.Pick(r, "!!!!", "QUJD!", "QUI", "Q", "QUJD=", "QUJDQUJD-_-_", "QUJD QUJD", "\u20ac")
	case 8:
		t = rng.Pick(r, "18446744073709551616", "99999999999999999999999", "-1", "1.5", "1e3", "0x10", "1 2", "abc", "\u0661")
	case 0x0A:
		t = rng.Pick(r, "10.5240/ABCD", "10.70000/0000-0000-0000-0000-0000", "10.-1/0000-0000-0000-0000-0000",
			"10.5240/0000-0000-0000-0000-0000-00", "10.5240/0000-0000-0000-0000-0000-0000-0000", "10.5240/0000-0000-0000-0000", "11.5240/0000-0000-0000-0000-0000", "EIDR", "abcd/efghijk")
	default:
		wide := rng.Pick(r, "\u0100", "\u2013", "\u20ac", "\u65e5\u672c", "\U0001F4FA", "\u0178")
		pre := make([]byte, r.N(20))
		for i := range pre {
			pre[i] = byte('a' + r.N(26))
		}
		t = string(pre) + wide
		if r.Bool() {
			t += "end"
		}
	}
	return uint64(typ), []byte(t)
}

// drawEdit draws a change; grow prefers growth.
func drawEdit(g *model.Gen, grow bool) Edit {
	r := g.R
	e := Edit{I: r.N(6), J: r.N(6)}
	small := []string{"tier", "adj", "sap", "cw", "proto", "cmd", "adddesc", "deldesc", "swapdesc", "segid", "segdur", "vary", "vary", "vary", "vary", "vary"}
	big := []string{"adddesc", "adddesc", "event", "event", "evcomp", "comp", "comp", "cmdpriv", "priv", "chars", "audio", "upid", "upid", "segcomp", "cmd"}
	if grow {
		big = append(big, "cmdfill", "cmdfill", "fill", "fill", "segfill", "segfill", "noform", "noform", "wide", "wide")
	}
	if grow || r.Bool() {
		e.Op = big[r.N(len(big))]
	} else {
		e.Op = small[r.N(len(small))]
	}
	rep := func(limit int) {
		switch r.N(6) {
		case 0, 1:
			e.N = 1
		case 2:
			e.N = r.In(1, 4)
		case 3:
			e.N = r.In(1, limit)
		case 4:
			e.N = max(1, limit+r.In(-3, 3))
		default:
			e.N = r.In(limit/2, limit+limit/2)
		}
		if !grow && r.Bool() {
			e.N = 1
		}
	}
	switch e.Op {
	case "tier", "adj", "sap", "cw", "proto", "segid", "segdur":
		e.V = g.Val(40)
	case "vary":
		e.V = r.U64()
	case "wide":
		e.V, e.I, e.J, e.N = uint64(r.N(2)), r.N(12), r.N(60), rng.Pick(r, 0, 0, r.N(64))
	case "cmd":
		c := g.Cmd()
		e.Cmd = &c
	case "cmdfill":
		c := g.Cmd()
		for c.Type != model.CmdSchedule && c.Type != model.CmdInsert {
			c = g.Cmd()
		}
		if c.Type == model.CmdSchedule {
			v := g.Event()
			if r.Bool() {
				v.Cancel, v.Program, v.UTC = false, false, 0
				v.Comps = []model.EvComp{{Tag: g.V32(8), UTC: g.V32(32)}}
			} else if len(v.Comps) > 0 {
				v.Comps = nil
			}
			c.Events = []model.Event{v}
		} else {
			v := model.Comp{Tag: g.V32(8)}
			if !c.Imm && r.Bool() {
				t := g.Val(33)
				v.Time = &t
			}
			c.Cancel, c.Program, c.Time, c.Comps = false, false, nil, []model.Comp{v}
		}
		e.Cmd = &c
		e.V = uint64(rng.Pick(r, 255, 256, 254, 257, r.In(250, 262), 511, 512, 513, r.In(1, 600)))
	case "adddesc":
		d := g.Desc()
		e.Desc = &d
		e.N = 1
		if grow && r.Bool() {
			e.N = r.In(1, 40)
		}
	case "event":
		v := g.Event()
		if len(v.Comps) > 6 {
			v.Comps = v.Comps[:6]
		}
		e.Event = &v
		rep(255)
	case "evcomp":
		v := model.EvComp{Tag: g.V32(8), UTC: g.V32(32)}
		e.EvC = &v
		rep(255)
	case "comp":
		v := model.Comp{Tag: g.V32(8)}
		if r.Bool() {
			t := g.Val(33)
			v.Time = &t
		}
		e.Comp = &v
		rep(255)
	case "cmdpriv":
		e.B = r.Bytes(r.In(1, 16))
		rep(4096 / len(e.B))
	case "priv":
		e.B = r.Bytes(r.In(1, 8))
		rep(256 / len(e.B))
	case "chars":
		e.S = string("0123456789*#"[r.N(12)])
		rep(8)
	case "audio":
		v := g.Audio()
		e.Audio = &v
		rep(15)
	case "upid":
		v := g.UPID(rng.Pick(r, 12, 40, 255, 300))
		e.UPID = &v
		rep(max(1, 250/(len(v.Raw)+2)))
	case "fill":
		e.V = uint64(rng.Pick(r, 4093, 4094, 4095, 4096, 4097, 8192, r.In(4070, 4110), r.In(4000, 4093)))
	case "segfill":
		e.V = uint64(rng.Pick(r, 255, 256, 257, r.In(230, 290), r.In(250, 530)))
		e.UPID = &model.UPID{Type: 0x0F, Raw: []byte("x")}
	case "noform":
		e.V, e.B = drawNoForm(r)
	case "segcomp":
		v := model.SegComp{Tag: g.V32(8), Off: g.Val(33)}
		e.SegC = &v
		rep(38)
	}
	return e
}

// differ reports a difference between the expected content and what was seen.
func differ(o *core.Out, prop, class, where string, want, got model.View) bool {
	d := model.Diff(want, got)
	if len(d) == 0 {
		return false
	}
	o.Fail(prop, class, "%s: %s", where, strings.Join(d, "; "))
	return true
}

func short(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x...(%d bytes)", b[:57], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// fitsXML tells whether XML carries the section as it is: no control
// characters and no white space around texts.
func fitsXML(s *model.Section) bool {
	return s.Check(model.Domain{XML: true, Enc: true, Stuff: true, Legacy: true}, false) == nil
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}

// vary changes a few fields of a section, keeping the rest, so that two
// signals collide in any key that leaves those fields out.
func vary(g *model.Gen, s *model.Section) *model.Section {
	if g.R.One(5) {
		if c := crcTwin(g, s); c != nil {
			return c
		}
	}
	c := s.Clone()
	n := g.R.In(1, 2)
	for i := 0; i < n; i++ {
		e := drawEdit(g, false)
		if e.N > 3 {
			e.N = 3
		}
		e.Apply(c, nil)
		if len(c.Descs) > 0 && g.R.Bool() {
			d := &c.Descs[g.R.N(len(c.Descs))]
			varyDesc(g, d)
		}
	}
	if g.R.One(3) {
		varyCmd(g, &c.Cmd)
	}
	c.Fit()
	return c
}

// crcTwin returns another section of the same length with the same CRC_32, or
// nil: it differs by a multiple of the generator polynomial within free bytes.
func crcTwin(g *model.Gen, s *model.Section) *model.Section {
	for try := 0; try < 12; try++ {
		c := s.Clone()
		var at [][]byte
		at = append(at, c.Cmd.Priv)
		for i := range c.Descs {
			d := &c.Descs[i]
			at = append(at, d.Priv)
			for j := range d.UPIDs {
				b := d.UPIDs[j].Raw
				if d.UPIDs[j].Type == 0x0C && len(b) >= 4 {
					b = b[4:]
				}
				at = append(at, b)
			}
		}
		var fit [][]byte
		for _, b := range at {
			if len(b) >= 5 {
				fit = append(fit, b)
			}
		}
		if len(fit) == 0 {
			return nil
		}
		b := fit[g.R.N(len(fit))]
		o, v := g.R.N(len(b)-4), uint64(0x104C11DB7)<<uint(g.R.N(8))
		for k := 0; k < 5; k++ {
			b[o+k] ^= byte(v >> uint(32-8*k))
		}
		if c.Check(g.D, true) == nil {
			return c
		}
	}
	return nil
}

func varyDesc(g *model.Gen, d *model.Desc) {
	r := g.R
	switch d.Kind {
	case model.DAvail:
		d.Avail ^= 1 << uint(r.N(32))
	case model.DDTMF:
		if i := len(d.Chars); i > 0 && r.Bool() {
			b := []byte(d.Chars)
			b[r.N(i)] = "0123456789*#ABCD"[r.N(16)]
			d.Chars = string(b)
			return
		}
		d.Preroll = (d.Preroll + 1) & 255
	case model.DTime:
		switch r.N(4) {
		case 0:
			d.TAI ^= 1 << uint(r.N(48))
		case 1:
			d.Off ^= 1
		default:
			d.NS++
		}
	case model.DAudio:
		if len(d.Audio) > 0 {
			a := &d.Audio[r.N(len(d.Audio))]
			switch r.N(6) {
			case 0:
				a.Tag ^= 1
			case 1:
				a.Mode = (a.Mode + 1) & 7
			case 2:
				a.Num = (a.Num + 1) & 15
			case 3:
				a.Full = !a.Full
			default:
				*a = g.Audio()
			}
		}
	case model.DPriv:
		switch {
		case len(d.Priv) > 0 && !r.One(3):
			d.Priv[r.N(len(d.Priv))]++
		case r.Bool() && d.Ident^0x20 != model.CUEI:
			d.Ident ^= 0x20
		case d.Ident != model.CUEI:
			d.Tag = (d.Tag + 1) & 255
		}
	case model.DSeg:
		if d.Cancel {
			d.ID++
			return
		}
		switch r.N(15) {
		case 7:
			if d.Restr == nil {
				d.Restr = &model.Restr{Web: r.Bool(), NoReg: r.Bool(), Arch: r.Bool(), Device: uint32(r.N(4))}
			} else if r.Bool() {
				d.Restr = nil
			} else {
				d.Restr = &model.Restr{Web: !d.Restr.Web, NoReg: r.Bool(), Arch: r.Bool(), Device: uint32(r.N(4))}
			}
		case 8:
			if d.Sub == nil {
				d.TypeID = rng.Pick(r, uint32(0x10), 0x11, 0x22, 0x23, 0x31, 0x34, 0x35, 0x50, 0x51, 0x30)
			} else {
				d.Sub = &[2]uint32{g.V32(8), g.V32(8)}
			}
		case 9, 12:
			for i := range d.UPIDs {
				if k := &d.UPIDs[i]; k.Type == 0x0C && len(k.Raw) >= 4 {
					k.Raw[r.N(4)] ^= 1
					break
				}
			}
		case 10:
			d.Exp = (d.Exp + 1) & 255
		case 11:
			if d.Dur == nil {
				v := g.Val(40)
				d.Dur = &v
			} else {
				d.Dur = nil
			}
		case 0:
			d.Num = (d.Num + 1) & 255
		case 1:
			if !model.SubTypes[d.TypeID] {
				d.TypeID = (d.TypeID + 1) & 255
			} else if d.Sub != nil && r.Bool() {
				d.Sub = nil
			} else if d.Sub == nil {
				d.Sub = &[2]uint32{g.V32(8), g.V32(8)}
			}
		case 2:
			if len(d.UPIDs) > 0 {
				k := &d.UPIDs[r.N(len(d.UPIDs))]
				*k = g.UPID(min(255, max(12, len(k.Raw))))
			}
		case 3:
			if len(d.UPIDs) > 0 {
				k := &d.UPIDs[r.N(len(d.UPIDs))]
				if f := k.Format(); f == "text" && len(k.Raw) > 0 && k.Type != 8 && k.Type != 10 {
					i := r.N(len(k.Raw))
					k.Raw[i] = "abcdefghij"[r.N(10)]
				} else if len(k.Raw) > 4 {
					k.Raw[len(k.Raw)-1]++
				}
			}
		case 4:
			if d.Dur != nil {
				v := (*d.Dur + 1) & (1<<40 - 1)
				d.Dur = &v
			}
		case 5:
			if len(d.Comps) > 0 {
				if k := &d.Comps[r.N(len(d.Comps))]; r.Bool() {
					k.Tag ^= 1
				} else {
					k.Off ^= 1 << uint(r.N(33))
				}
			}
		case 6:
			d.Compl = !d.Compl
		case 13, 14:
			// another kind of EIDR, or another type for the same text
			for i := range d.UPIDs {
				switch k := &d.UPIDs[i]; {
				case k.Type == 0x0A && len(k.Raw) == 12:
					v := uint32(5237 + r.N(5))
					k.Raw[0], k.Raw[1] = byte(v>>8), byte(v)
				case k.Type == 1 || k.Type == 2 || k.Type == 3 || k.Type == 9 || k.Type == 0x0E || k.Type == 0x0F:
					k.Type = rng.Pick(r, uint32(1), 2, 3, 9, 0x0E, 0x0F)
				case k.Type == 5 || k.Type == 6:
					k.Type ^= 3
				}
			}
		}
	}
}

// varyTime gives a time another value, or takes or gives it.
func varyTime(g *model.Gen, t *uint64) *uint64 {
	switch {
	case t == nil || g.R.One(4):
		v := g.Val(33)
		return &v
	case g.R.One(3):
		return nil
	}
	v := *t ^ 1<<uint(g.R.N(33))
	return &v
}

func varyBreak(g *model.Gen, b *model.Break) *model.Break {
	switch {
	case b == nil:
		return &model.Break{Auto: g.R.Bool(), Dur: g.Val(33)}
	case g.R.One(3):
		return nil
	case g.R.Bool():
		return &model.Break{Auto: !b.Auto, Dur: b.Dur}
	}
	return &model.Break{Auto: b.Auto, Dur: b.Dur ^ 2}
}

func varyCmd(g *model.Gen, c *model.Cmd) {
	r := g.R
	switch c.Type {
	case model.CmdTime:
		c.Time = varyTime(g, c.Time)
	case model.CmdInsert:
		if c.Cancel {
			c.ID ^= 1
			return
		}
		switch r.N(9) {
		case 0:
			c.Avail ^= 1
		case 1:
			c.OON = !c.OON
		case 2:
			c.Prog ^= 1
		case 3:
			c.Dur = varyBreak(g, c.Dur)
		case 4:
			c.Avails ^= 0x80
		case 5:
			c.ID ^= 1 << uint(r.N(32))
		case 6, 7:
			if c.Program && !c.Imm {
				c.Time = varyTime(g, c.Time)
			} else if len(c.Comps) > 0 {
				k := &c.Comps[r.N(len(c.Comps))]
				if c.Imm || r.One(3) {
					k.Tag ^= 1
				} else {
					k.Time = varyTime(g, k.Time)
				}
			}
		case 8:
			// the whole program, or components of it
			if c.Program {
				c.Program = false
				t := c.Time
				c.Time = nil
				for k := r.In(1, 3); k > 0; k-- {
					m := model.Comp{Tag: g.V32(8)}
					if !c.Imm {
						m.Time = t
					}
					c.Comps = append(c.Comps, m)
				}
			} else {
				c.Program = true
				if len(c.Comps) > 0 && !c.Imm {
					c.Time = c.Comps[0].Time
				}
				c.Comps = nil
			}
		}
	case model.CmdSchedule:
		if len(c.Events) > 0 {
			e := &c.Events[r.N(len(c.Events))]
			if e.Cancel {
				if r.Bool() {
					e.Compl = !e.Compl
				} else {
					e.ID ^= 1
				}
				return
			}
			switch r.N(8) {
			case 0:
				e.ID ^= 1
			case 1:
				e.OON = !e.OON
			case 2, 3:
				e.Dur = varyBreak(g, e.Dur)
			case 4:
				e.Prog ^= 1
			case 5:
				e.Avails ^= 1
			case 6:
				if e.Program {
					e.UTC ^= 1
				} else if len(e.Comps) > 0 {
					e.Comps[r.N(len(e.Comps))].UTC ^= 1
				}
			case 7:
				if e.Program {
					e.Program = false
					e.Comps = []model.EvComp{{Tag: g.V32(8), UTC: e.UTC}}
					e.UTC = 0
				} else if len(e.Comps) > 0 {
					e.Program, e.UTC, e.Comps = true, e.Comps[0].UTC, nil
				}
			}
		}
	case model.CmdPrivate:
		if len(c.Priv) > 0 && !r.One(3) {
			c.Priv[r.N(len(c.Priv))] ^= 1
		} else {
			c.Ident ^= 0x20
		}
	}
}
