package model

import (
	"errors"
	"fmt"
)

// Kind classifies the bits of a section.
type Kind int

// Span kinds.
const (
	KConst    Kind = iota // fixed by the standard
	KReserved             // reserved, sent as ones
	KValue                // a plain value; changing it changes nothing else
	KStruct               // a flag, count or type that decides what follows
	KLen                  // a length
	KCRC                  // CRC_32
)

// Span is a field of an encoded section.
type Span struct {
	Path       string
	Start, End int // bits
	Kind       Kind
	Desc       int // index of the descriptor it belongs to, -1 outside
}

// ErrTooLarge is returned for content the format cannot express.
var ErrTooLarge = errors.New("model: content exceeds the format")

// CRC is CRC-32/MPEG-2, bit by bit.
func CRC(b []byte) uint32 {
	crc := uint32(0xFFFFFFFF)
	if len(b) > 16 {
		for _, x := range b {
			crc = crc<<8 ^ crcTable[byte(crc>>24)^x]
		}
		return crc
	}
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bit := uint32(x>>uint(i)) & 1
			top := crc >> 31
			crc <<= 1
			if top^bit == 1 {
				crc ^= 0x04C11DB7
			}
		}
	}
	return crc
}

// crcTable is the effect of a byte, made with the definition above.
var crcTable = func() (t [256]uint32) {
	for i := range t {
		crc := uint32(i) << 24
		for k := 0; k < 8; k++ {
			top := crc >> 31
			crc <<= 1
			if top == 1 {
				crc ^= 0x04C11DB7
			}
		}
		t[i] = crc
	}
	return
}()

type enc struct {
	buf   []byte
	nbits int
	spans []Span
	nomap bool // leave out the map
	desc  int
	err   error
}

func (e *enc) bit(b bool) {
	if e.nbits%8 == 0 {
		e.buf = append(e.buf, 0)
	}
	if b {
		e.buf[e.nbits/8] |= 0x80 >> uint(e.nbits%8)
	}
	e.nbits++
}

func (e *enc) span(path string, k Kind, start int) {
	if !e.nomap {
		e.spans = append(e.spans, Span{path, start, e.nbits, k, e.desc})
	}
}

func (e *enc) put(path string, k Kind, width int, v uint64) {
	if width < 64 && v>>uint(width) != 0 {
		if e.err == nil {
			e.err = fmt.Errorf("%w: %s=%d in %d bits", ErrTooLarge, path, v, width)
		}
	}
	start := e.nbits
	if start%8 == 0 && width%8 == 0 {
		for i := width - 8; i >= 0; i -= 8 {
			e.buf = append(e.buf, byte(v>>uint(i)))
		}
		e.nbits += width
	} else {
		for i := width - 1; i >= 0; i-- {
			e.bit(v>>uint(i)&1 == 1)
		}
	}
	e.span(path, k, start)
}

// index is a path with a number, if a map is made.
func (e *enc) index(format string, i int) string {
	if e.nomap {
		return ""
	}
	return fmt.Sprintf(format, i)
}

func (e *enc) flag(path string, k Kind, v bool) {
	var x uint64
	if v {
		x = 1
	}
	e.put(path, k, 1, x)
}

func (e *enc) res(width int) { e.put("", KReserved, width, 1<<uint(width)-1) }

func (e *enc) bytes(path string, k Kind, b []byte) {
	start := e.nbits
	if start%8 == 0 {
		e.buf = append(e.buf, b...)
		e.nbits += 8 * len(b)
	} else {
		for _, x := range b {
			for i := 7; i >= 0; i-- {
				e.bit(x>>uint(i)&1 == 1)
			}
		}
	}
	e.span(path, k, start)
}

// patch overwrites a field written before.
func (e *enc) patch(start, width int, v uint64) {
	for i := 0; i < width; i++ {
		p := start + i
		m := byte(0x80 >> uint(p%8))
		e.buf[p/8] &^= m
		if v>>uint(width-1-i)&1 == 1 {
			e.buf[p/8] |= m
		}
	}
}

// Encoded is an encoded section with the map of its fields.
type Encoded struct {
	B     []byte
	Spans []Span
	// Limit is the section_length.
	SectionLength int
}

// Encode encodes the section as the standard says. It fails with ErrTooLarge
// if a value, count or length does not fit its field; a section_length above
// 4093 is left to the caller.
func (s *Section) Encode() (*Encoded, error) { return s.encode(true) }

// Map is Encode with the map of the fields.
func (s *Section) Map() (*Encoded, error) { return s.encode(false) }

func (s *Section) encode(nomap bool) (*Encoded, error) {
	e := &enc{desc: -1, nomap: nomap, buf: make([]byte, 0, 256)}
	e.put("", KConst, 8, 0xFC)
	e.put("", KConst, 1, 0)
	e.put("", KConst, 1, 0)
	e.put("sap", KValue, 2, uint64(s.SAP))
	lenAt := e.nbits
	e.put("", KLen, 12, 0)
	after := e.nbits
	e.put("proto", KValue, 8, uint64(s.Proto))
	e.flag("", KStruct, s.Alg != 0)
	e.put("alg", KStruct, 6, uint64(s.Alg))
	e.put("adj", KValue, 33, s.PTSAdj)
	e.put("cw", KValue, 8, uint64(s.CW))
	e.put("tier", KValue, 12, uint64(s.Tier))
	clenAt := e.nbits
	e.put("", KLen, 12, 0)
	e.put("cmd.type", KStruct, 8, uint64(s.Cmd.Type))
	cstart := e.nbits
	s.Cmd.encode(e)
	clen := (e.nbits - cstart) / 8
	dlenAt := e.nbits
	e.put("", KLen, 16, 0)
	dstart := e.nbits
	for i := range s.Descs {
		e.desc = i
		s.Descs[i].encode(e, e.index("d[%d].", i))
	}
	e.desc = -1
	dlen := (e.nbits - dstart) / 8
	if len(s.Stuff) > 0 {
		e.bytes("stuff", KValue, s.Stuff)
	}
	if s.Alg != 0 {
		e.put("", KValue, 32, uint64(s.ECRC))
	}
	total := (e.nbits-after)/8 + 4
	if total > 0xFFF || clen >= 0xFFF || dlen > 0xFFFF {
		if e.err == nil {
			e.err = fmt.Errorf("%w: section_length %d", ErrTooLarge, total)
		}
	}
	e.patch(lenAt, 12, uint64(total&0xFFF))
	if s.Legacy {
		e.patch(clenAt, 12, 0xFFF)
	} else {
		e.patch(clenAt, 12, uint64(clen&0xFFF))
	}
	e.patch(dlenAt, 16, uint64(dlen&0xFFFF))
	crc := CRC(e.buf)
	e.put("", KCRC, 32, uint64(crc))
	return &Encoded{B: e.buf, Spans: e.spans, SectionLength: total}, e.err
}

// Bytes returns the encoding of a section known to fit.
func (s *Section) Bytes() []byte {
	e, err := s.Encode()
	if err != nil {
		panic(err)
	}
	return e.B
}

func (e *enc) spliceTime(p string, t *uint64) {
	e.flag(p+"time_flag", KStruct, t != nil)
	if t != nil {
		e.res(6)
		e.put(p+"time", KValue, 33, *t)
	} else {
		e.res(7)
	}
}

func (e *enc) breakDuration(p string, d *Break) {
	e.flag(p+"auto", KValue, d.Auto)
	e.res(6)
	e.put(p+"dur", KValue, 33, d.Dur)
}

func (c *Cmd) encode(e *enc) {
	switch c.Type {
	case CmdNull, CmdBW:
	case CmdTime:
		e.spliceTime("cmd.", c.Time)
	case CmdPrivate:
		e.put("cmd.ident", KValue, 32, uint64(c.Ident))
		e.bytes("cmd.priv", KValue, c.Priv)
	case CmdInsert:
		e.put("cmd.id", KValue, 32, uint64(c.ID))
		e.flag("cmd.cancel", KStruct, c.Cancel)
		e.res(7)
		if c.Cancel {
			return
		}
		e.flag("cmd.oon", KValue, c.OON)
		e.flag("cmd.program", KStruct, c.Program)
		e.flag("cmd.dur_flag", KStruct, c.Dur != nil)
		e.flag("cmd.imm", KStruct, c.Imm)
		e.res(4)
		if c.Program && !c.Imm {
			e.spliceTime("cmd.", c.Time)
		}
		if !c.Program {
			e.put("cmd.comps", KStruct, 8, uint64(len(c.Comps)))
			for i, k := range c.Comps {
				p := e.index("cmd.comp[%d].", i)
				e.put(p+"tag", KValue, 8, uint64(k.Tag))
				if !c.Imm {
					e.spliceTime(p, k.Time)
				}
			}
		}
		if c.Dur != nil {
			e.breakDuration("cmd.", c.Dur)
		}
		e.put("cmd.prog", KValue, 16, uint64(c.Prog))
		e.put("cmd.avail", KValue, 8, uint64(c.Avail))
		e.put("cmd.avails", KValue, 8, uint64(c.Avails))
	case CmdSchedule:
		e.put("cmd.events", KStruct, 8, uint64(len(c.Events)))
		for i := range c.Events {
			v := &c.Events[i]
			p := e.index("cmd.ev[%d].", i)
			e.put(p+"id", KValue, 32, uint64(v.ID))
			e.flag(p+"cancel", KStruct, v.Cancel)
			e.flag(p+"compl", KValue, !v.Compl) // 0: compliant
			e.res(6)
			if v.Cancel {
				continue
			}
			e.flag(p+"oon", KValue, v.OON)
			e.flag(p+"program", KStruct, v.Program)
			e.flag(p+"dur_flag", KStruct, v.Dur != nil)
			e.res(5)
			if v.Program {
				e.put(p+"utc", KValue, 32, uint64(int64(v.UTC)+int64(v.Far)<<32))
			} else {
				e.put(p+"comps", KStruct, 8, uint64(len(v.Comps)))
				for j, k := range v.Comps {
					q := p + e.index("comp[%d].", j)
					e.put(q+"tag", KValue, 8, uint64(k.Tag))
					e.put(q+"utc", KValue, 32, uint64(int64(k.UTC)+int64(k.Far)<<32))
				}
			}
			if v.Dur != nil {
				e.breakDuration(p, v.Dur)
			}
			e.put(p+"prog", KValue, 16, uint64(v.Prog))
			e.put(p+"avail", KValue, 8, uint64(v.Avail))
			e.put(p+"avails", KValue, 8, uint64(v.Avails))
		}
	default:
		if e.err == nil {
			e.err = fmt.Errorf("model: command type %d", c.Type)
		}
	}
}

func (d *Desc) encode(e *enc, p string) {
	tag, ident := uint64(d.Tag), uint64(d.Ident)
	switch d.Kind {
	case DAvail:
		tag, ident = 0, CUEI
	case DDTMF:
		tag, ident = 1, CUEI
	case DSeg:
		tag, ident = 2, CUEI
	case DTime:
		tag, ident = 3, CUEI
	case DAudio:
		tag, ident = 4, CUEI
	}
	e.put(p+"tag", KStruct, 8, tag)
	lenAt := e.nbits
	e.put("", KLen, 8, 0)
	start := e.nbits
	if d.Kind == DPriv {
		e.put(p+"ident", KValue, 32, ident)
	} else {
		e.put("", KStruct, 32, ident)
	}
	switch d.Kind {
	case DAvail:
		e.put(p+"avail", KValue, 32, uint64(d.Avail))
	case DDTMF:
		e.put(p+"preroll", KValue, 8, uint64(d.Preroll))
		e.put("", KStruct, 3, uint64(len(d.Chars)))
		e.res(5)
		e.bytes(p+"chars", KValue, []byte(d.Chars))
	case DTime:
		e.put(p+"tai", KValue, 48, d.TAI)
		e.put(p+"ns", KValue, 32, uint64(d.NS))
		e.put(p+"off", KValue, 16, uint64(d.Off))
	case DAudio:
		e.put(p+"audio", KStruct, 4, uint64(len(d.Audio)))
		e.res(4)
		for i, a := range d.Audio {
			q := p + e.index("a[%d].", i)
			e.put(q+"tag", KValue, 8, uint64(a.Tag))
			if len(a.ISO) != 3 && e.err == nil {
				e.err = fmt.Errorf("%w: ISO_code %q", ErrTooLarge, a.ISO)
			}
			e.bytes(q+"iso", KValue, []byte(a.ISO))
			e.put(q+"mode", KValue, 3, uint64(a.Mode))
			e.put(q+"num", KValue, 4, uint64(a.Num))
			e.flag(q+"full", KValue, a.Full)
		}
	case DPriv:
		e.bytes(p+"priv", KValue, d.Priv)
	case DSeg:
		e.put(p+"id", KValue, 32, uint64(d.ID))
		e.flag(p+"cancel", KStruct, d.Cancel)
		e.flag(p+"compl", KValue, !d.Compl) // 0: compliant
		e.res(6)
		if d.Cancel {
			break
		}
		e.flag("", KStruct, len(d.Comps) == 0)
		e.flag(p+"dur_flag", KStruct, d.Dur != nil)
		e.flag(p+"notrestr", KStruct, d.Restr == nil)
		if d.Restr != nil {
			e.flag(p+"web", KValue, d.Restr.Web)
			e.flag(p+"noreg", KValue, d.Restr.NoReg)
			e.flag(p+"arch", KValue, d.Restr.Arch)
			e.put(p+"device", KValue, 2, uint64(d.Restr.Device))
		} else {
			e.res(5)
		}
		if len(d.Comps) > 0 {
			e.put(p+"comps", KStruct, 8, uint64(len(d.Comps)))
			for i, k := range d.Comps {
				q := p + e.index("comp[%d].", i)
				e.put(q+"tag", KValue, 8, uint64(k.Tag))
				e.res(7)
				e.put(q+"off", KValue, 33, k.Off)
			}
		}
		if d.Dur != nil {
			e.put(p+"dur", KValue, 40, *d.Dur)
		}
		switch {
		case len(d.UPIDs) == 0:
			e.put("", KStruct, 8, 0)
			e.put("", KLen, 8, 0)
		case len(d.UPIDs) == 1:
			e.upid(p+"upid[0].", d.UPIDs[0])
		default:
			n := 0
			for _, k := range d.UPIDs {
				n += 2 + len(k.Raw)
			}
			e.put("", KStruct, 8, 0x0D)
			e.put("", KLen, 8, uint64(n))
			for i, k := range d.UPIDs {
				e.upid(p+e.index("upid[%d].", i), k)
			}
		}
		k := KValue
		if SubTypes[d.TypeID] {
			k = KStruct
		}
		e.put(p+"typeid", k, 8, uint64(d.TypeID))
		e.put(p+"num", KValue, 8, uint64(d.Num))
		e.put(p+"exp", KValue, 8, uint64(d.Exp))
		if d.Sub != nil {
			e.put(p+"subnum", KValue, 8, uint64(d.Sub[0]))
			e.put(p+"subexp", KValue, 8, uint64(d.Sub[1]))
		}
	}
	n := (e.nbits - start) / 8
	if n > 255 && e.err == nil {
		e.err = fmt.Errorf("%w: descriptor_length %d", ErrTooLarge, n)
	}
	e.patch(lenAt, 8, uint64(n&0xFF))
}

func (e *enc) upid(p string, k UPID) {
	if k.Bad != "" && e.err == nil {
		e.err = fmt.Errorf("%w: UPID %q", ErrTooLarge, k.Bad)
	}
	e.put(p+"type", KStruct, 8, uint64(k.Type))
	e.put("", KLen, 8, uint64(len(k.Raw)))
	if id, ok := k.FormatID(); ok {
		e.put(p+"format", KValue, 32, uint64(id))
		e.bytes(p+"value", KValue, k.Raw[4:])
	} else {
		e.bytes(p+"value", KValue, k.Raw)
	}
}

// ---------------------------------------------------------------- decoding

type dec struct {
	b   []byte
	pos int
	end int // bits
	err error
}

var errShort = errors.New("model: section too short")

func (d *dec) get(width int) uint64 {
	if d.pos+width > d.end {
		if d.err == nil {
			d.err = errShort
		}
		d.pos = d.end
		return 0
	}
	var v uint64
	for i := 0; i < width; i++ {
		v = v<<1 | uint64(d.b[d.pos/8]>>(7-uint(d.pos%8)))&1
		d.pos++
	}
	return v
}

func (d *dec) u32(w int) uint32 { return uint32(d.get(w)) }
func (d *dec) flag() bool       { return d.get(1) == 1 }
func (d *dec) bytes(n int) []byte {
	if n < 0 || d.pos+8*n > d.end {
		if d.err == nil {
			d.err = errShort
		}
		d.pos = d.end
		return nil
	}
	b := append([]byte(nil), d.b[d.pos/8:d.pos/8+n]...)
	d.pos += 8 * n
	return b
}
func (d *dec) left() int { return (d.end - d.pos) / 8 }
func (d *dec) time() *uint64 {
	if d.flag() {
		d.get(6)
		t := d.get(33)
		return &t
	}
	d.get(7)
	return nil
}
func (d *dec) brk() *Break {
	var k Break
	k.Auto = d.flag()
	d.get(6)
	k.Dur = d.get(33)
	return &k
}
func (d *dec) sub(n int) *dec {
	if n < 0 || d.pos+8*n > d.end {
		if d.err == nil {
			d.err = errShort
		}
		n = d.left()
	}
	c := &dec{b: d.b, pos: d.pos, end: d.pos + 8*n}
	d.pos += 8 * n
	return c
}
func (d *dec) fail(f string, a ...any) {
	if d.err == nil {
		d.err = fmt.Errorf("model: "+f, a...)
	}
}

// Decode decodes a section strictly: anything that does not follow the
// standard is an error. Reserved bits are ignored, as the standard asks.
func Decode(b []byte) (*Section, error) {
	if len(b) < 4 {
		return nil, errShort
	}
	want := uint32(b[len(b)-4])<<24 | uint32(b[len(b)-3])<<16 | uint32(b[len(b)-2])<<8 | uint32(b[len(b)-1])
	if CRC(b[:len(b)-4]) != want {
		return nil, errors.New("model: CRC_32")
	}
	d := &dec{b: b, end: 8*len(b) - 32}
	s := &Section{}
	if d.get(8) != 0xFC {
		d.fail("table_id")
	}
	if d.get(2) != 0 {
		d.fail("section_syntax_indicator or private_indicator")
	}
	s.SAP = d.u32(2)
	if n := int(d.get(12)); n != len(b)-3 {
		d.fail("section_length %d of %d", n, len(b)-3)
	}
	s.Proto = d.u32(8)
	encrypted := d.flag()
	s.Alg = d.u32(6)
	if !encrypted {
		if s.Alg != 0 {
			d.fail("encryption_algorithm %d without encryption", s.Alg)
		}
	} else if s.Alg == 0 {
		d.fail("encrypted without algorithm")
	}
	s.PTSAdj = d.get(33)
	s.CW = d.u32(8)
	s.Tier = d.u32(12)
	clen := int(d.get(12))
	s.Cmd.Type = d.u32(8)
	if clen == 0xFFF {
		// the length is not given; the command delimits itself
		if s.Cmd.Type == CmdPrivate {
			d.fail("private_command of unknown length")
			return nil, d.err
		}
		s.Legacy = true
		s.Cmd.decode(d)
	} else {
		c := d.sub(clen)
		s.Cmd.decode(c)
		if c.err == nil && c.left() != 0 {
			c.fail("%d bytes left in command", c.left())
		}
		if c.err != nil && d.err == nil {
			d.err = c.err
		}
	}
	dl := d.sub(int(d.get(16)))
	for dl.left() > 0 && dl.err == nil {
		x := decodeDesc(dl)
		s.Descs = append(s.Descs, x)
	}
	if dl.err != nil && d.err == nil {
		d.err = dl.err
	}
	if encrypted {
		s.Stuff = d.bytes(d.left() - 4)
		s.ECRC = d.u32(32)
	} else {
		s.Stuff = d.bytes(d.left())
	}
	if d.err != nil {
		return nil, d.err
	}
	return s, nil
}

func (c *Cmd) decode(d *dec) {
	switch c.Type {
	case CmdNull, CmdBW:
	case CmdTime:
		c.Time = d.time()
	case CmdPrivate:
		c.Ident = d.u32(32)
		c.Priv = d.bytes(d.left())
	case CmdInsert:
		c.ID = d.u32(32)
		c.Cancel = d.flag()
		d.get(7)
		if c.Cancel {
			return
		}
		c.OON = d.flag()
		c.Program = d.flag()
		dur := d.flag()
		c.Imm = d.flag()
		d.get(4)
		if c.Program && !c.Imm {
			c.Time = d.time()
		}
		if !c.Program {
			n := int(d.get(8))
			for i := 0; i < n; i++ {
				k := Comp{Tag: d.u32(8)}
				if !c.Imm {
					k.Time = d.time()
				}
				c.Comps = append(c.Comps, k)
			}
		}
		if dur {
			c.Dur = d.brk()
		}
		c.Prog = d.u32(16)
		c.Avail = d.u32(8)
		c.Avails = d.u32(8)
	case CmdSchedule:
		n := int(d.get(8))
		for i := 0; i < n; i++ {
			var e Event
			e.ID = d.u32(32)
			e.Cancel = d.flag()
			e.Compl = !d.flag()
			d.get(6)
			if !e.Cancel {
				e.OON = d.flag()
				e.Program = d.flag()
				dur := d.flag()
				d.get(5)
				if e.Program {
					e.UTC = d.u32(32)
				} else {
					m := int(d.get(8))
					for j := 0; j < m; j++ {
						e.Comps = append(e.Comps, EvComp{Tag: d.u32(8), UTC: d.u32(32)})
					}
				}
				if dur {
					e.Dur = d.brk()
				}
				e.Prog = d.u32(16)
				e.Avail = d.u32(8)
				e.Avails = d.u32(8)
			}
			c.Events = append(c.Events, e)
		}
	default:
		d.fail("command type %#x", c.Type)
	}
}

// BodyBroken tells whether a descriptor, given with its tag and length, ends
// before what it announces or goes on after it. What lies inside a MID is not
// judged.
func BodyBroken(b []byte) bool {
	l := &dec{b: b, end: 8 * len(b)}
	decodeDesc(l)
	return l.err != nil && !errors.Is(l.err, errMID)
}

// CmdBroken tells whether a splice command, given with its type, ends before
// the length it was given or goes on after it. Reserved types are not judged.
func CmdBroken(b []byte) bool {
	c := Cmd{Type: uint32(b[0])}
	switch c.Type {
	case CmdNull, CmdSchedule, CmdInsert, CmdTime, CmdBW, CmdPrivate:
	default:
		return false
	}
	d := &dec{b: b, pos: 8, end: 8 * len(b)}
	c.decode(d)
	return d.err != nil || d.left() != 0
}

// Broken tells whether a section whose CRC_32 is right ends inside something
// it announces, or a command or descriptor in it does not fill the length it
// has. Only that is judged. Commands of reserved types, private commands of
// unknown length and what lies inside a MID are not judged.
func Broken(b []byte) bool {
	if len(b) < 14 {
		return true
	}
	n := int(b[11]&15)<<8 | int(b[12])
	d := &dec{b: b, pos: 13 * 8, end: 8*len(b) - 32}
	c := Cmd{Type: d.u32(8)}
	switch c.Type {
	case CmdNull, CmdSchedule, CmdInsert, CmdTime, CmdBW:
	case CmdPrivate:
		if n == 0xFFF {
			return false
		}
	default:
		return false
	}
	if n == 0xFFF {
		c.decode(d)
	} else {
		s := d.sub(n)
		c.decode(s)
		if s.err != nil || s.left() != 0 {
			return true
		}
	}
	l := d.sub(int(d.get(16)))
	for d.err == nil && l.err == nil && l.left() > 0 {
		decodeDesc(l)
		if errors.Is(l.err, errMID) {
			l.err = nil
		}
	}
	if l.err != nil {
		return true
	}
	if b[4]&0x80 != 0 {
		d.bytes(d.left() - 4)
		d.u32(32)
	}
	return d.err != nil
}

var errMID = errors.New("model: MID")

func decodeDesc(l *dec) Desc {
	var x Desc
	tag := l.u32(8)
	d := l.sub(int(l.get(8)))
	ident := d.u32(32)
	if ident != CUEI || tag > 4 {
		x.Kind, x.Tag, x.Ident = DPriv, tag, ident
		x.Priv = d.bytes(d.left())
	} else {
		switch tag {
		case 0:
			x.Kind = DAvail
			x.Avail = d.u32(32)
		case 1:
			x.Kind = DDTMF
			x.Preroll = d.u32(8)
			n := int(d.get(3))
			d.get(5)
			x.Chars = string(d.bytes(n))
		case 2:
			x.Kind = DSeg
			x.decodeSeg(d)
		case 3:
			x.Kind = DTime
			x.TAI = d.get(48)
			x.NS = d.u32(32)
			x.Off = d.u32(16)
		case 4:
			x.Kind = DAudio
			n := int(d.get(4))
			d.get(4)
			for i := 0; i < n; i++ {
				x.Audio = append(x.Audio, Audio{Tag: d.u32(8), ISO: string(d.bytes(3)), Mode: d.u32(3), Num: d.u32(4), Full: d.flag()})
			}
		}
		if d.err == nil && d.left() != 0 {
			d.fail("%d bytes left in descriptor", d.left())
		}
	}
	if d.err != nil && l.err == nil {
		l.err = d.err
	}
	return x
}

func (x *Desc) decodeSeg(d *dec) {
	x.ID = d.u32(32)
	x.Cancel = d.flag()
	x.Compl = !d.flag()
	d.get(6)
	if x.Cancel {
		return
	}
	prog := d.flag()
	dur := d.flag()
	if !d.flag() {
		x.Restr = &Restr{Web: d.flag(), NoReg: d.flag(), Arch: d.flag(), Device: d.u32(2)}
	} else {
		d.get(5)
	}
	if !prog {
		n := int(d.get(8))
		for i := 0; i < n; i++ {
			k := SegComp{Tag: d.u32(8)}
			d.get(7)
			k.Off = d.get(33)
			x.Comps = append(x.Comps, k)
		}
	}
	if dur {
		v := d.get(40)
		x.Dur = &v
	}
	typ := d.u32(8)
	n := int(d.get(8))
	if typ == 0x0D {
		m := d.sub(n)
		for m.left() > 0 && m.err == nil {
			t := m.u32(8)
			x.UPIDs = append(x.UPIDs, UPID{Type: t, Raw: m.bytes(int(m.get(8)))})
		}
		if m.err != nil && d.err == nil {
			d.err = fmt.Errorf("%w: %w", errMID, m.err)
		}
	} else if n > 0 {
		x.UPIDs = []UPID{{Type: typ, Raw: d.bytes(n)}}
	}
	x.TypeID = d.u32(8)
	x.Num = d.u32(8)
	x.Exp = d.u32(8)
	if SubTypes[x.TypeID] && d.left() == 2 {
		x.Sub = &[2]uint32{d.u32(8), d.u32(8)}
	}
}
