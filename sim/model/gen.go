package model

import (
	"encoding/json"
	"os"
	"strings"

	"verif.local/sim/rng"
)

// Dict holds the constants found in the sources under test; the generators
// mix them into the values they draw.
var Dict struct {
	Ints    []uint64 `json:"ints"`
	Strings []string `json:"strings"`
}

// LoadDict reads the dictionary written by the instrumenter.
func LoadDict(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, &Dict)
}

// Domain restricts generated signals to what a format can carry.
type Domain struct {
	XML bool `json:"xml,omitempty"` // no control characters, no white space at the ends of a UPID
	Enc bool `json:"enc,omitempty"` // allow an encryption_algorithm
	// Stuff allows alignment stuffing, Legacy splice_command_length 0xFFF.
	Stuff  bool `json:"stuff,omitempty"`
	Legacy bool `json:"legacy,omitempty"`
	Big    bool `json:"big,omitempty"` // allow sizes near the limits often
}

// Gen draws signals.
type Gen struct {
	R *rng.R
	D Domain
}

// Val draws a w-bit value with a bias to boundaries and to constants that
// occur in the code.
func (g *Gen) Val(w int) uint64 {
	r := g.R
	max := uint64(1)<<uint(w) - 1
	switch r.N(12) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return 1
	case 3:
		k := uint64(1) << uint(r.N(w))
		return (k + uint64(r.N(3)) - 1) & max
	case 4:
		return (max - uint64(r.N(3))) & max
	case 5, 6:
		if n := len(Dict.Ints); n > 0 {
			v := Dict.Ints[r.N(n)]
			switch r.N(4) {
			case 0:
				v++
			case 1:
				v--
			}
			if v <= max {
				return v
			}
		}
		return r.U64() & max
	case 7:
		return uint64(r.N(300)) & max
	default:
		return r.U64() & max
	}
}

// V32 is Val for 32-bit fields.
func (g *Gen) V32(w int) uint32 { return uint32(g.Val(w)) }

// count draws a list length up to max.
func (g *Gen) count(max int) int {
	r := g.R
	if g.D.Big && r.One(3) {
		return r.In(max/2, max)
	}
	switch r.N(10) {
	case 0:
		return 0
	case 1, 2, 3:
		return r.In(1, min(2, max))
	case 4, 5, 6:
		return r.In(1, min(4, max))
	case 7, 8:
		return r.In(1, min(9, max))
	default:
		return r.In(1, max)
	}
}

func (g *Gen) pts() *uint64 {
	if g.R.One(4) {
		return nil
	}
	v := g.Val(33)
	return &v
}

func (g *Gen) brk() *Break {
	if g.R.Bool() {
		return nil
	}
	return &Break{Auto: g.R.Bool(), Dur: g.Val(33)}
}

// Section draws a valid signal.
func (g *Gen) Section() *Section {
	r := g.R
	s := &Section{SAP: uint32(r.N(4)), Proto: g.V32(8), PTSAdj: g.Val(33), CW: g.V32(8), Tier: g.V32(12)}
	if r.One(2) {
		s.Proto = 0
	}
	if r.One(3) {
		s.PTSAdj = 0
	}
	if r.One(3) {
		s.Tier = 0xFFF
	}
	s.Cmd = g.Cmd()
	n := g.R.N(4)
	switch {
	case r.One(6):
		n = r.In(4, 12)
	case g.D.Big && r.One(3):
		n = r.In(8, 40)
	}
	for i := 0; i < n; i++ {
		s.Descs = append(s.Descs, g.Desc())
	}
	if g.D.Stuff && r.One(3) {
		k := r.In(1, 8)
		if r.One(4) {
			k = r.In(1, 60)
		}
		s.Stuff = r.Bytes(k)
		if r.Bool() {
			for i := range s.Stuff {
				s.Stuff[i] = 0xFF
			}
		}
	}
	if g.D.Enc && r.One(8) {
		s.Alg = uint32(r.In(1, 63))
		s.ECRC = uint32(r.U64())
	}
	if g.D.Legacy && r.One(6) && s.Cmd.Type != CmdPrivate {
		s.Legacy = true
	}
	s.Fit()
	if r.One(16) {
		v := rng.Pick(r, 0, 0xFFFFFFFF, 1, 0x7FFFFFFF, 0x80000000, 0xFF, 0xFFFF0000)
		m := rng.Pick(r, 0xFFFFFFFF, 0xFFFFFF, 0xFFFF, 0xFF, 0xFFFF0000, 0xFF000000)
		s.Aim(uint32(v), uint32(m))
	}
	return s
}

// Aim gives PTSAdj a value that makes the bits m of the checksum equal to
// those of v, if there is one.
func (s *Section) Aim(v, m uint32) {
	at := func(a uint64) uint32 {
		t := *s
		t.PTSAdj = a
		e, err := t.Encode()
		if err != nil {
			return 0
		}
		b := e.B
		return CRC(b[:len(b)-4])
	}
	base := at(s.PTSAdj)
	// rows: the checksum bits a combination of adjustment bits changes
	var rows [33]struct {
		c uint32
		a uint64
	}
	for i := range rows {
		rows[i].a = 1 << uint(i)
		rows[i].c = (at(s.PTSAdj^rows[i].a) ^ base) & m
	}
	want, x, k := (base^v)&m, uint64(0), 0
	for bit := 31; bit >= 0; bit-- {
		p := -1
		for i := k; i < 33; i++ {
			if rows[i].c>>uint(bit)&1 == 1 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[k], rows[p] = rows[p], rows[k]
		for i := k + 1; i < 33; i++ {
			if rows[i].c>>uint(bit)&1 == 1 {
				rows[i].c ^= rows[k].c
				rows[i].a ^= rows[k].a
			}
		}
		if want>>uint(bit)&1 == 1 {
			want ^= rows[k].c
			x ^= rows[k].a
		}
		k++
	}
	if want == 0 {
		s.PTSAdj ^= x
	}
}

// Fit drops content until the section keeps the standard's limits.
func (s *Section) Fit() {
	for {
		e, err := s.Encode()
		if err == nil && e.SectionLength <= 4093 {
			return
		}
		switch {
		case len(s.Descs) > 0:
			// drop what is too long on its own first
			for i := range s.Descs {
				one := Section{Cmd: Cmd{Type: CmdNull}, Descs: s.Descs[i : i+1]}
				if _, err := one.Encode(); err != nil {
					d := &s.Descs[i]
					switch {
					case len(d.UPIDs) > 0:
						d.UPIDs = d.UPIDs[:len(d.UPIDs)-1]
					case len(d.Comps) > 0:
						d.Comps = d.Comps[:len(d.Comps)/2]
					case len(d.Chars) > 7:
						d.Chars = d.Chars[:7]
					case len(d.Audio) > 15:
						d.Audio = d.Audio[:15]
					case len(d.Priv) == 0:
						s.Descs = append(s.Descs[:i], s.Descs[i+1:]...)
					default:
						d.Priv = d.Priv[:len(d.Priv)/2]
					}
					goto again
				}
			}
			s.Descs = s.Descs[:len(s.Descs)-1]
		case len(s.Stuff) > 0:
			s.Stuff = nil
		case len(s.Cmd.Events) > 0:
			s.Cmd.Events = s.Cmd.Events[:len(s.Cmd.Events)-1]
		case len(s.Cmd.Comps) > 0:
			s.Cmd.Comps = s.Cmd.Comps[:len(s.Cmd.Comps)/2]
		default:
			s.Cmd.Priv = s.Cmd.Priv[:len(s.Cmd.Priv)/2]
		}
	again:
	}
}

// Cmd draws a splice command.
func (g *Gen) Cmd() Cmd {
	r := g.R
	var c Cmd
	switch r.N(12) {
	case 0, 1:
		c.Type = CmdNull
	case 2, 3, 4:
		c.Type = CmdTime
		c.Time = g.pts()
	case 5:
		c.Type = CmdBW
	case 6:
		c.Type = CmdPrivate
		c.Ident = g.V32(32)
		n := r.N(20)
		if r.One(5) {
			n = r.N(400)
		}
		if g.D.Big && r.One(3) {
			n = r.N(4000)
		}
		c.Priv = g.data(n)
	case 7, 8:
		c.Type = CmdSchedule
		n := g.count(8)
		if g.D.Big || r.One(12) {
			n = g.count(255)
		}
		for i := 0; i < n; i++ {
			c.Events = append(c.Events, g.Event())
		}
	default:
		c.Type = CmdInsert
		c.ID = g.V32(32)
		c.Cancel = r.One(5)
		if c.Cancel {
			return c
		}
		c.OON = r.Bool()
		c.Program = !r.One(3)
		c.Imm = r.One(3)
		c.Dur = g.brk()
		if c.Program && !c.Imm {
			c.Time = g.pts()
		}
		if !c.Program {
			n := g.count(255)
			for i := 0; i < n; i++ {
				k := Comp{Tag: g.V32(8)}
				if !c.Imm {
					k.Time = g.pts()
				}
				c.Comps = append(c.Comps, k)
			}
		}
		c.Prog = g.V32(16)
		c.Avail = g.V32(8)
		c.Avails = g.V32(8)
	}
	return c
}

// Event draws a splice_schedule event.
func (g *Gen) Event() Event {
	r := g.R
	e := Event{ID: g.V32(32), Cancel: r.One(4), Compl: r.Bool()}
	if e.Cancel {
		return e
	}
	e.OON = r.Bool()
	e.Program = !r.One(3)
	if e.Program {
		e.UTC = g.utc()
	} else {
		n := g.count(12)
		if g.D.Big && r.One(4) {
			n = g.count(255)
		}
		for i := 0; i < n; i++ {
			e.Comps = append(e.Comps, EvComp{Tag: g.V32(8), UTC: g.utc()})
		}
	}
	e.Dur = g.brk()
	e.Prog = g.V32(16)
	e.Avail = g.V32(8)
	e.Avails = g.V32(8)
	return e
}

func (g *Gen) utc() uint32 {
	if g.R.Bool() {
		// 2020 .. 2030, around daylight saving changes too
		return uint32(1261872000 + g.R.N(315360000))
	}
	return g.V32(32)
}

var upidLen = map[uint32]int{0x02: 8, 0x03: 12, 0x04: 32, 0x05: 8, 0x06: 12, 0x07: 12, 0x08: 8, 0x0A: 12, 0x10: 16}

// upidTypes lists the types drawn; text ones more often.
var upidTypes = []uint32{1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 9, 10, 10, 11, 12, 12, 14, 15, 15, 16, 17, 0x12, 0x40, 0xFF}

// UPID draws a segmentation UPID of at most max bytes.
func (g *Gen) UPID(max int) UPID {
	r := g.R
	for {
		k := UPID{Type: upidTypes[r.N(len(upidTypes))]}
		n, fixed := upidLen[k.Type]
		if !fixed || (r.One(6) && k.Type != 0x08 && k.Type != 0x0A) {
			n = r.In(1, 20)
			if r.One(6) {
				n = r.In(1, 200)
			}
			if r.One(20) {
				n = max - r.N(16)
				if n < 1 {
					n = 1
				}
			}
			if k.Type == 0x0C && n < 4 {
				n = r.In(4, 12)
			}
		}
		if n > max {
			if max < 12 {
				k.Type, n = 0x01, r.In(1, max)
			} else {
				continue
			}
		}
		k.Raw = g.upidBytes(k.Type, n)
		return k
	}
}

// data draws free bytes, some with long runs of one value.
func (g *Gen) data(n int) []byte {
	r := g.R
	b := r.Bytes(n)
	if n == 0 || !r.One(3) {
		return b
	}
	lo, hi := 0, n
	switch r.N(4) {
	case 0:
		lo = r.N(n)
	case 1:
		hi = r.In(1, n)
	case 2:
		lo = r.N(n)
		hi = r.In(lo, n)
	}
	v := rng.Pick(r, 0, 0, 0, 0xFF, 0xFF, 0x20, 0x30, 0x47, byte(r.N(256)))
	for i := lo; i < hi; i++ {
		b[i] = v
	}
	return b
}

// tokens mean something in one of the formats that carry texts.
var tokens = []string{`\u0026`, `\u003c`, `\u0000`, `\n`, `\\`, `\"`, `\/`, `"`, `",`, `":`, `{}`, `[]`, `null`, `true`, "&", "&amp;", "&lt;", "&#38;", "&#x26;", "&#10;",
	"<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "%s", "%d", "%41", "%%", "%!", "+", "=", "==", "0x", "-", "--", "..", "./", "''", " ", "  "}

func (g *Gen) upidBytes(typ uint32, n int) []byte {
	r := g.R
	binary := typ == 4 || typ == 5 || typ == 6 || typ == 8 || typ == 10 || typ == 12 || typ == 16
	b := r.Bytes(n)
	if typ == 0x0A || typ == 0x08 {
		if typ == 0x0A && r.Bool() {
			b[0], b[1] = 0x14, byte(0x75+r.N(4)) // 10.5237 .. 10.5240
		}
		switch r.N(6) {
		case 0:
			for i := range b {
				b[i] = 0
			}
		case 1:
			for i := range b {
				b[i] = 0xFF
			}
		case 2:
			b[r.N(n)] = r.Bytes(1)[0]&0xF | 0x20
		}
		return b
	}
	if typ == 12 && r.One(4) {
		b = g.data(n)
	}
	text := typ != 5 && typ != 6 && typ != 12 // carried as text in XML
	if binary && r.One(8) {
		for i := range b {
			b[i] = byte(r.N(2) * 255)
		}
	}
	if !binary {
		switch r.N(9) {
		case 8: // what some format reads otherwise
			for i := 0; i < n; {
				t := rng.Pick(r, tokens...)
				if r.Bool() {
					t = string(rune('a' + r.N(26)))
				}
				i += copy(b[i:], t)
			}
		case 0: // any Latin 1
		case 1: // padded
			for i := range b {
				b[i] = " ABC0"[r.N(5)]
			}
			b[n-1] = ' '
		case 2: // markup
			for i := range b {
				b[i] = `<>&"'\/]-;=%`[r.N(12)]
			}
		case 3: // a constant of the code
			if len(Dict.Strings) > 0 {
				s := Dict.Strings[r.N(len(Dict.Strings))]
				ok := len(s) > 0
				for i := 0; i < len(s); i++ {
					if s[i] >= 0x80 {
						ok = false
					}
				}
				if ok {
					for i := range b {
						b[i] = s[i%len(s)]
					}
					break
				}
			}
			fallthrough
		default:
			const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/:.-_ abcdefxyz"
			for i := range b {
				b[i] = al[r.N(len(al))]
			}
		}
	}
	if text && g.D.XML {
		for i := range b {
			if b[i] < 0x20 || b[i] >= 0x7F && b[i] < 0xA0 {
				b[i] = 0x21 + b[i]&0x3F
			}
		}
		for _, i := range []int{0, n - 1} {
			if b[i] == ' ' || b[i] == 0xA0 {
				b[i] = 'x'
			}
		}
	}
	return b
}

// Desc draws a splice descriptor.
func (g *Gen) Desc() Desc {
	r := g.R
	switch r.N(11) {
	case 0:
		return Desc{Kind: DAvail, Avail: g.V32(32)}
	case 1:
		n := r.N(8)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte("0123456789*#ABCD"[r.N(16)])
		}
		return Desc{Kind: DDTMF, Preroll: g.V32(8), Chars: b.String()}
	case 2:
		return Desc{Kind: DTime, TAI: g.Val(48), NS: g.V32(32), Off: g.V32(16)}
	case 3:
		d := Desc{Kind: DAudio}
		n := g.count(15)
		for i := 0; i < n; i++ {
			d.Audio = append(d.Audio, g.Audio())
		}
		return d
	case 4, 5:
		d := Desc{Kind: DPriv, Tag: g.V32(8), Ident: g.V32(32)}
		if r.One(5) {
			d.Ident, d.Tag = CUEI, uint32(r.In(5, 255))
		}
		if d.Ident == CUEI && d.Tag <= 4 {
			d.Tag += 5
		}
		n := r.N(16)
		if r.One(5) || g.D.Big && r.Bool() {
			n = r.N(252)
		}
		d.Priv = g.data(n)
		return d
	}
	return g.Seg()
}

// Audio draws an audio channel.
func (g *Gen) Audio() Audio {
	r := g.R
	iso := make([]byte, 3)
	for i := range iso {
		iso[i] = byte('a' + r.N(26))
	}
	return Audio{Tag: g.V32(8), ISO: string(iso), Mode: uint32(r.N(8)), Num: uint32(r.N(16)), Full: r.Bool()}
}

var segTypes = []uint32{0, 1, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27,
	0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x50, 0x51}

var subTypes = []uint32{0x30, 0x32, 0x34, 0x36, 0x38, 0x3a, 0x44, 0x46}

// Seg draws a segmentation descriptor that fits.
func (g *Gen) Seg() Desc {
	r := g.R
	d := Desc{Kind: DSeg, ID: g.V32(32), Cancel: r.One(7), Compl: r.Bool()}
	if d.Cancel {
		return d
	}
	if r.Bool() {
		d.Restr = &Restr{Web: r.Bool(), NoReg: r.Bool(), Arch: r.Bool(), Device: uint32(r.N(4))}
	}
	room := 255 - 22
	if r.One(4) {
		n := r.In(1, 4)
		if r.One(4) {
			n = r.In(1, 36)
		}
		for i := 0; i < n && room >= 6+1; i++ {
			d.Comps = append(d.Comps, SegComp{g.V32(8), g.Val(33)})
			if len(d.Comps) == 1 {
				room--
			}
			room -= 6
		}
	}
	if r.Bool() && room >= 5 {
		v := g.Val(40)
		d.Dur = &v
		room -= 5
	}
	switch {
	case r.One(5):
		d.TypeID = g.V32(8)
	case r.One(3):
		d.TypeID = subTypes[r.N(len(subTypes))]
	default:
		d.TypeID = segTypes[r.N(len(segTypes))]
	}
	if SubTypes[d.TypeID] && r.Bool() && room >= 2 {
		d.Sub = &[2]uint32{g.V32(8), g.V32(8)}
		room -= 2
	}
	d.Num, d.Exp = g.V32(8), g.V32(8)
	switch r.N(4) {
	case 0: // none
	case 1, 2:
		if room >= 1 {
			d.UPIDs = []UPID{g.UPID(room)}
		}
	default: // MID
		n := r.In(2, 4)
		if r.One(4) {
			n = r.In(2, 30)
		}
		for i := 0; i < n && room >= 3; i++ {
			k := g.UPID(min(room-2, 255))
			d.UPIDs = append(d.UPIDs, k)
			room -= 2 + len(k.Raw)
		}
		if len(d.UPIDs) == 1 {
			d.UPIDs = nil
		}
	}
	return d
}
