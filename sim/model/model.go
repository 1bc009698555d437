// Package model is an independent reference model of SCTE 35 signals, written
// from the standard (ANSI/SCTE 35 2022b) and not from the code under test: the
// content of a section, its bit layout, its checksum, and what it looks like
// through the library's exported fields.
package model

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"maps"
	"math/big"
	"sort"
	"strconv"
)

// Command types.
const (
	CmdNull     = 0x00
	CmdSchedule = 0x04
	CmdInsert   = 0x05
	CmdTime     = 0x06
	CmdBW       = 0x07
	CmdPrivate  = 0xFF
)

// Descriptor kinds.
const (
	DAvail = "avail"
	DDTMF  = "dtmf"
	DSeg   = "seg"
	DTime  = "time"
	DAudio = "audio"
	DPriv  = "priv"
)

// CUEI is the identifier of the standard's descriptors.
const CUEI = 0x43554549

// Section is the content of a splice_info_section.
type Section struct {
	SAP    uint32 `json:"sap"`
	Proto  uint32 `json:"proto,omitempty"`
	Alg    uint32 `json:"alg,omitempty"` // 0: not encrypted
	PTSAdj uint64 `json:"adj,omitempty"`
	CW     uint32 `json:"cw,omitempty"`
	Tier   uint32 `json:"tier,omitempty"`
	Cmd    Cmd    `json:"cmd"`
	Descs  []Desc `json:"descs,omitempty"`
	Stuff  []byte `json:"stuff,omitempty"`
	// Legacy makes the reference encoder write splice_command_length 0xFFF.
	Legacy bool `json:"legacy,omitempty"`
	// ECRC is the E_CRC_32 the reference encoder writes if Alg is not 0.
	ECRC uint32 `json:"ecrc,omitempty"`
}

// Break is a break_duration().
type Break struct {
	Auto bool   `json:"auto,omitempty"`
	Dur  uint64 `json:"dur,omitempty"`
}

// Comp is a component of a splice_insert.
type Comp struct {
	Tag  uint32  `json:"tag"`
	Time *uint64 `json:"time,omitempty"`
}

// EvComp is a component of a splice_schedule event.
type EvComp struct {
	Tag uint32 `json:"tag"`
	UTC uint32 `json:"utc"`
	Far int8   `json:"far,omitempty"` // times 2^32 seconds, beyond what the format holds
}

// Event is an event of a splice_schedule.
type Event struct {
	ID      uint32   `json:"id"`
	Cancel  bool     `json:"cancel,omitempty"`
	Compl   bool     `json:"compl,omitempty"`
	OON     bool     `json:"oon,omitempty"`
	Program bool     `json:"program,omitempty"`
	UTC     uint32   `json:"utc,omitempty"`
	Far     int8     `json:"far,omitempty"` // times 2^32 seconds, beyond what the format holds
	Comps   []EvComp `json:"comps,omitempty"`
	Dur     *Break   `json:"dur,omitempty"`
	Prog    uint32   `json:"prog,omitempty"`
	Avail   uint32   `json:"avail,omitempty"`
	Avails  uint32   `json:"avails,omitempty"`
}

// Cmd is a splice command of any type.
type Cmd struct {
	Type    uint32  `json:"type"`
	Time    *uint64 `json:"time,omitempty"` // time_signal, splice_insert program
	ID      uint32  `json:"id,omitempty"`
	Cancel  bool    `json:"cancel,omitempty"`
	OON     bool    `json:"oon,omitempty"`
	Program bool    `json:"program,omitempty"`
	Imm     bool    `json:"imm,omitempty"`
	Comps   []Comp  `json:"comps,omitempty"`
	Dur     *Break  `json:"dur,omitempty"`
	Prog    uint32  `json:"prog,omitempty"`
	Avail   uint32  `json:"avail,omitempty"`
	Avails  uint32  `json:"avails,omitempty"`
	Events  []Event `json:"events,omitempty"`
	Ident   uint32  `json:"ident,omitempty"`
	Priv    []byte  `json:"priv,omitempty"`
}

// Restr are delivery restrictions.
type Restr struct {
	Web    bool   `json:"web,omitempty"`
	NoReg  bool   `json:"noreg,omitempty"`
	Arch   bool   `json:"arch,omitempty"`
	Device uint32 `json:"device,omitempty"`
}

// SegComp is a component of a segmentation_descriptor.
type SegComp struct {
	Tag uint32 `json:"tag"`
	Off uint64 `json:"off"`
}

// UPID is a segmentation_upid with its binary value.
type UPID struct {
	Type uint32 `json:"type"`
	Raw  []byte `json:"raw"`
	Bad  string `json:"bad,omitempty"` // a text without a binary form, instead of Raw
}

// Audio is an audio channel.
type Audio struct {
	Tag  uint32 `json:"tag"`
	ISO  string `json:"iso"`
	Mode uint32 `json:"mode,omitempty"`
	Num  uint32 `json:"num,omitempty"`
	Full bool   `json:"full,omitempty"`
}

// Desc is a splice descriptor of any kind.
type Desc struct {
	Kind string `json:"kind"`

	Avail uint32 `json:"avail,omitempty"` // avail

	Preroll uint32 `json:"preroll,omitempty"` // dtmf
	Chars   string `json:"chars,omitempty"`

	TAI uint64 `json:"tai,omitempty"` // time
	NS  uint32 `json:"ns,omitempty"`
	Off uint32 `json:"off,omitempty"`

	Audio []Audio `json:"audio,omitempty"` // audio

	Tag   uint32 `json:"tag,omitempty"` // private
	Ident uint32 `json:"ident,omitempty"`
	Priv  []byte `json:"priv,omitempty"`

	ID     uint32     `json:"id,omitempty"` // segmentation
	Cancel bool       `json:"cancel,omitempty"`
	Compl  bool       `json:"compl,omitempty"`
	Restr  *Restr     `json:"restr,omitempty"`
	Comps  []SegComp  `json:"comps,omitempty"`
	Dur    *uint64    `json:"dur,omitempty"`
	UPIDs  []UPID     `json:"upids,omitempty"`
	TypeID uint32     `json:"typeid,omitempty"`
	Num    uint32     `json:"num,omitempty"`
	Exp    uint32     `json:"exp,omitempty"`
	Sub    *[2]uint32 `json:"sub,omitempty"`
}

// SubTypes are the segmentation types that can have sub-segments.
var SubTypes = map[uint32]bool{0x30: true, 0x32: true, 0x34: true, 0x36: true, 0x38: true, 0x3A: true, 0x44: true, 0x46: true}

// Clone makes a deep copy.
func (s *Section) Clone() *Section {
	c := *s
	c.Cmd = s.Cmd.Clone()
	c.Descs = nil
	for i := range s.Descs {
		c.Descs = append(c.Descs, s.Descs[i].Clone())
	}
	c.Stuff = append([]byte(nil), s.Stuff...)
	return &c
}

// ---------------------------------------------------------------- view

// View is the content of a signal as path -> value.
type View map[string]string

func u(v uint64) string { return strconv.FormatUint(v, 10) }
func b2(v bool) string  { return strconv.FormatBool(v) }

// Put functions used by both sides of a comparison.
func (v View) U(p string, x uint64) { v[p] = u(x) }
func (v View) B(p string, x bool)   { v[p] = b2(x) }
func (v View) S(p string, x string) { v[p] = strconv.QuoteToASCII(x) }
func (v View) X(p string, x []byte) { v[p] = hex.EncodeToString(x) }

// Latin1 turns ISO 8859-1 bytes into text.
func Latin1(b []byte) string {
	r := make([]rune, len(b))
	for i := range b {
		r[i] = rune(b[i])
	}
	return string(r)
}

// Text returns the text form of a UPID value as the library documents it:
// canonical form for EIDR, base-64 for ISAN and MPU, decimal for TI, text for
// everything else.
func (p UPID) Text() string {
	if p.Bad != "" {
		return p.Bad
	}
	switch p.Type {
	case 0x0A:
		if len(p.Raw) != 12 {
			return "?"
		}
		s := "10." + strconv.Itoa(int(p.Raw[0])<<8|int(p.Raw[1])) + "/"
		const hexd = "0123456789ABCDEF"
		for i := 2; i < 12; i++ {
			if i > 2 && i%2 == 0 {
				s += "-"
			}
			s += string(hexd[p.Raw[i]>>4]) + string(hexd[p.Raw[i]&15])
		}
		return s
	case 0x05, 0x06:
		return base64.StdEncoding.EncodeToString(p.Raw)
	case 0x0C:
		if len(p.Raw) < 4 {
			return "?"
		}
		return base64.StdEncoding.EncodeToString(p.Raw[4:])
	case 0x08:
		return new(big.Int).SetBytes(p.Raw).String()
	}
	return Latin1(p.Raw)
}

// Format returns the name of the text form.
func (p UPID) Format() string {
	switch p.Type {
	case 0x05, 0x06, 0x0C:
		return "base-64"
	}
	return "text"
}

// FormatID returns the format_identifier of an MPU.
func (p UPID) FormatID() (uint32, bool) {
	if p.Type != 0x0C || len(p.Raw) < 4 {
		return 0, false
	}
	return uint32(p.Raw[0])<<24 | uint32(p.Raw[1])<<16 | uint32(p.Raw[2])<<8 | uint32(p.Raw[3]), true
}

// GPSUnix converts a utc_splice_time to Unix seconds.
func GPSUnix(sec uint32) int64 { return int64(sec) + 315964800 }

// View returns the content as the library's exported fields should show it.
// Fields that the section does not carry (after a cancel indicator, say) are
// left out.
func (s *Section) View() View {
	v := make(View, 24+28*len(s.Descs)+12*len(s.Cmd.Events)+4*len(s.Cmd.Comps))
	v.U("sap", uint64(s.SAP))
	v.U("proto", uint64(s.Proto))
	v.U("alg", uint64(s.Alg))
	v.U("adj", s.PTSAdj)
	v.U("cw", uint64(s.CW))
	v.U("tier", uint64(s.Tier))
	c := &s.Cmd
	v.U("cmd.type", uint64(c.Type))
	switch c.Type {
	case CmdTime:
		v.B("cmd.time_flag", c.Time != nil)
		if c.Time != nil {
			v.U("cmd.time", *c.Time)
		}
	case CmdInsert:
		v.U("cmd.id", uint64(c.ID))
		v.B("cmd.cancel", c.Cancel)
		if !c.Cancel {
			v.B("cmd.oon", c.OON)
			v.B("cmd.program", c.Program)
			v.B("cmd.dur_flag", c.Dur != nil)
			v.B("cmd.imm", c.Imm)
			if c.Program && !c.Imm {
				v.B("cmd.time_flag", c.Time != nil)
				if c.Time != nil {
					v.U("cmd.time", *c.Time)
				}
			}
			if !c.Program {
				v.U("cmd.comps", uint64(len(c.Comps)))
				for i, k := range c.Comps {
					p := "cmd.comp[" + strconv.Itoa(i) + "]."
					v.U(p+"tag", uint64(k.Tag))
					if !c.Imm {
						v.B(p+"time_flag", k.Time != nil)
						if k.Time != nil {
							v.U(p+"time", *k.Time)
						}
					}
				}
			}
			if c.Dur != nil {
				v.B("cmd.auto", c.Dur.Auto)
				v.U("cmd.dur", c.Dur.Dur)
			}
			v.U("cmd.prog", uint64(c.Prog))
			v.U("cmd.avail", uint64(c.Avail))
			v.U("cmd.avails", uint64(c.Avails))
		}
	case CmdSchedule:
		v.U("cmd.events", uint64(len(c.Events)))
		for i := range c.Events {
			e := &c.Events[i]
			p := "cmd.ev[" + strconv.Itoa(i) + "]."
			v.U(p+"id", uint64(e.ID))
			v.B(p+"cancel", e.Cancel)
			v.B(p+"compl", e.Compl)
			if e.Cancel {
				continue
			}
			v.B(p+"oon", e.OON)
			v.B(p+"program", e.Program)
			v.B(p+"dur_flag", e.Dur != nil)
			if e.Program {
				v[p+"utc"] = strconv.FormatInt(GPSUnix(e.UTC)+int64(e.Far)<<32, 10)
			} else {
				v.U(p+"comps", uint64(len(e.Comps)))
				for j, k := range e.Comps {
					q := p + "comp[" + strconv.Itoa(j) + "]."
					v.U(q+"tag", uint64(k.Tag))
					v[q+"utc"] = strconv.FormatInt(GPSUnix(k.UTC)+int64(k.Far)<<32, 10)
				}
			}
			if e.Dur != nil {
				v.B(p+"auto", e.Dur.Auto)
				v.U(p+"dur", e.Dur.Dur)
			}
			v.U(p+"prog", uint64(e.Prog))
			v.U(p+"avail", uint64(e.Avail))
			v.U(p+"avails", uint64(e.Avails))
		}
	case CmdPrivate:
		v.U("cmd.ident", uint64(c.Ident))
		v.X("cmd.priv", c.Priv)
	}
	v.U("descs", uint64(len(s.Descs)))
	for i := range s.Descs {
		s.Descs[i].view(v, "d["+strconv.Itoa(i)+"].")
	}
	return v
}

func (d *Desc) view(v View, p string) {
	v[p+"kind"] = d.Kind
	switch d.Kind {
	case DAvail:
		v.U(p+"avail", uint64(d.Avail))
	case DDTMF:
		v.U(p+"preroll", uint64(d.Preroll))
		v.S(p+"chars", d.Chars)
	case DTime:
		v.U(p+"tai", d.TAI)
		v.U(p+"ns", uint64(d.NS))
		v.U(p+"off", uint64(d.Off))
	case DAudio:
		v.U(p+"audio", uint64(len(d.Audio)))
		for i, a := range d.Audio {
			q := p + "a[" + strconv.Itoa(i) + "]."
			v.U(q+"tag", uint64(a.Tag))
			v.S(q+"iso", a.ISO)
			v.U(q+"mode", uint64(a.Mode))
			v.U(q+"num", uint64(a.Num))
			v.B(q+"full", a.Full)
		}
	case DPriv:
		v.U(p+"tag", uint64(d.Tag))
		v.U(p+"ident", uint64(d.Ident))
		v.X(p+"priv", d.Priv)
	case DSeg:
		v.U(p+"id", uint64(d.ID))
		v.B(p+"cancel", d.Cancel)
		v.B(p+"compl", d.Compl)
		if d.Cancel {
			return
		}
		v.B(p+"dur_flag", d.Dur != nil)
		v.B(p+"notrestr", d.Restr == nil)
		if d.Restr != nil {
			v.B(p+"web", d.Restr.Web)
			v.B(p+"noreg", d.Restr.NoReg)
			v.B(p+"arch", d.Restr.Arch)
			v.U(p+"device", uint64(d.Restr.Device))
		}
		v.U(p+"comps", uint64(len(d.Comps)))
		for i, k := range d.Comps {
			q := p + "comp[" + strconv.Itoa(i) + "]."
			v.U(q+"tag", uint64(k.Tag))
			v.U(q+"off", k.Off)
		}
		if d.Dur != nil {
			v.U(p+"dur", *d.Dur)
		}
		v.U(p+"upids", uint64(len(d.UPIDs)))
		for i, k := range d.UPIDs {
			q := p + "upid[" + strconv.Itoa(i) + "]."
			v.U(q+"type", uint64(k.Type))
			v.S(q+"value", k.Text())
			v[q+"fmt"] = k.Format()
			if id, ok := k.FormatID(); ok {
				v.U(q+"format", uint64(id))
			}
		}
		v.U(p+"typeid", uint64(d.TypeID))
		v.U(p+"num", uint64(d.Num))
		v.U(p+"exp", uint64(d.Exp))
		v.B(p+"sub_flag", d.Sub != nil)
		if d.Sub != nil {
			v.U(p+"subnum", uint64(d.Sub[0]))
			v.U(p+"subexp", uint64(d.Sub[1]))
		}
	}
}

// Diff lists the differences between what is expected and what was seen, in a
// stable order, at most eight.
func Diff(want, got View) []string {
	if maps.Equal(want, got) {
		return nil
	}
	keys := map[string]bool{}
	for k := range want {
		keys[k] = true
	}
	for k := range got {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		w, ok1 := want[k]
		g, ok2 := got[k]
		if ok1 && ok2 && w == g {
			continue
		}
		if !ok1 {
			w = "(absent)"
		}
		if !ok2 {
			g = "(absent)"
		}
		out = append(out, fmt.Sprintf("%s: want %s, got %s", k, clip(w), clip(g)))
		if len(out) == 8 {
			break
		}
	}
	return out
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:77] + "..."
	}
	return s
}

func cp64(p *uint64) *uint64 {
	if p == nil {
		return nil
	}
	v := *p
	return &v
}

func (b *Break) clone() *Break {
	if b == nil {
		return nil
	}
	c := *b
	return &c
}

// Clone makes a deep copy.
func (e *Event) Clone() Event {
	c := *e
	c.Comps = append([]EvComp(nil), e.Comps...)
	c.Dur = e.Dur.clone()
	return c
}

// Clone makes a deep copy.
func (c *Cmd) Clone() Cmd {
	k := *c
	k.Time, k.Dur = cp64(c.Time), c.Dur.clone()
	k.Comps = append([]Comp(nil), c.Comps...)
	for i := range k.Comps {
		k.Comps[i].Time = cp64(k.Comps[i].Time)
	}
	k.Events = nil
	for i := range c.Events {
		k.Events = append(k.Events, c.Events[i].Clone())
	}
	k.Priv = append([]byte(nil), c.Priv...)
	return k
}

// Clone makes a deep copy.
func (u UPID) Clone() UPID {
	u.Raw = append([]byte(nil), u.Raw...)
	return u
}

// Clone makes a deep copy.
func (d *Desc) Clone() Desc {
	k := *d
	k.Audio = append([]Audio(nil), d.Audio...)
	k.Priv = append([]byte(nil), d.Priv...)
	if d.Restr != nil {
		r := *d.Restr
		k.Restr = &r
	}
	k.Comps = append([]SegComp(nil), d.Comps...)
	k.Dur = cp64(d.Dur)
	k.UPIDs = nil
	for _, u := range d.UPIDs {
		k.UPIDs = append(k.UPIDs, u.Clone())
	}
	if d.Sub != nil {
		v := *d.Sub
		k.Sub = &v
	}
	return k
}
