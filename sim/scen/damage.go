package scen

import (
	"bytes"
	"hash/crc32"
	"math/bits"
	"regexp"
	"strings"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/rng"
)

// BMut is damage done to a binary frame.
type BMut struct {
	K string `json:"k"` // flip, burst, set, cut, head, del, dup, swap, ins, pad, len, crc, crcalt
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	N int    `json:"n,omitempty"`
	X []byte `json:"x,omitempty"`
}

func mod(a, n int) int {
	if n <= 0 {
		return 0
	}
	a %= n
	if a < 0 {
		a += n
	}
	return a
}

// damage applies the mutations; s may give the layout of the original frame.
func damage(b []byte, ms []BMut, spans []model.Span) []byte {
	b = append([]byte(nil), b...)
	for _, m := range ms {
		switch m.K {
		case "flip":
			if len(b) > 0 {
				i := mod(m.A, 8*len(b))
				b[i/8] ^= 0x80 >> uint(i%8)
			}
		case "burst": // at most 32 bits from bit A, pattern X
			if len(b) > 0 {
				i := mod(m.A, 8*len(b))
				for k := 0; k < 32 && k < 8*len(m.X); k++ {
					if m.X[k/8]>>uint(7-k%8)&1 == 1 && i+k < 8*len(b) {
						b[(i+k)/8] ^= 0x80 >> uint((i+k)%8)
					}
				}
			}
		case "set":
			if len(b) > 0 {
				i := mod(m.A, len(b))
				for k := 0; k < len(m.X) && i+k < len(b); k++ {
					b[i+k] = m.X[k]
				}
			}
		case "cut":
			b = b[:mod(m.A, len(b)+1)]
		case "head":
			b = b[mod(m.A, len(b)+1):]
		case "del":
			i := mod(m.A, len(b)+1)
			j := min(len(b), i+max(0, m.N))
			b = append(append([]byte(nil), b[:i]...), b[j:]...)
		case "dup":
			i := mod(m.A, len(b)+1)
			j := min(len(b), i+max(0, m.N))
			if len(b) < 70000 {
				b = append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
			}
		case "swap":
			n := max(1, m.N)
			i, j := mod(m.A, len(b)+1), mod(m.B, len(b)+1)
			if i > j {
				i, j = j, i
			}
			if i+n <= j && j+n <= len(b) {
				t := append([]byte(nil), b[i:i+n]...)
				copy(b[i:], b[j:j+n])
				copy(b[j:], t)
			}
		case "ins":
			i := mod(m.A, len(b)+1)
			b = append(append(append([]byte(nil), b[:i]...), m.X...), b[i:]...)
		case "pad":
			if n := mod(m.N, 400); len(b)+n < 70000 {
				b = append(b, bytes.Repeat([]byte{byte(m.B)}, n)...)
			}
		case "len": // give the A-th length, count or flag another value
			var at []model.Span
			for _, sp := range spans {
				if (sp.Kind == model.KLen || sp.Kind == model.KStruct) && sp.End <= 8*len(b) {
					at = append(at, sp)
				}
			}
			if len(at) > 0 {
				sp := at[mod(m.A, len(at))]
				setBits(b, sp.Start, sp.End-sp.Start, uint64(m.N))
			}
		case "end": // the last N bytes before the CRC_32 are missing
			if n := max(0, min(m.N, len(b)-4)); len(b) >= 4 {
				b = append(b[:len(b)-4-n], b[len(b)-4:]...)
			}
		case "loopend": // the last N bytes of the descriptors are missing; their length says so
			lo, hi, at := -1, -1, -1
			for _, sp := range spans {
				if sp.Desc >= 0 {
					if lo < 0 {
						lo = sp.Start / 8
					}
					hi = sp.End / 8
				}
				if sp.Desc < 0 && sp.Kind == model.KLen && sp.End-sp.Start == 16 {
					at = sp.Start
				}
			}
			if lo >= 0 && at >= 0 && hi <= len(b) {
				n := max(0, min(m.N, hi-lo))
				b = append(b[:hi-n], b[hi:]...)
				setBits(b, at, 16, uint64(hi-lo-n))
			}
		case "fit": // section_length follows
			if len(b) >= 3 {
				setBits(b, 12, 12, uint64(len(b)-3)&0xFFF)
			}
		case "crcalt": // another value where the CRC_32 is
			if n := len(b) - 4; n >= 4 {
				c := altCRC(b[:n], m.A)
				b[n], b[n+1], b[n+2], b[n+3] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
			}
		case "crc":
			if len(b) >= 4 {
				c := model.CRC(b[:len(b)-4])
				b[len(b)-4], b[len(b)-3], b[len(b)-2], b[len(b)-1] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
			}
		}
	}
	return b
}

// altCRC is a value that is not the CRC_32 of b (or only by accident), as
// some other sender, or another algorithm, might have put it.
func altCRC(b []byte, k int) uint32 {
	c := model.CRC(b)
	switch mod(k, altCRCs) {
	case 0:
		return 0
	case 1:
		return 0xFFFFFFFF
	case 2:
		return ^c
	case 3:
		return bits.ReverseBytes32(c)
	case 4:
		return bits.Reverse32(c)
	case 5:
		return bits.RotateLeft32(c, 16)
	case 6: // preset to zero
		x := append([]byte(nil), b...)
		for i := 0; i < 4; i++ {
			x[i] ^= 0xFF
		}
		return model.CRC(x)
	case 7:
		return crc32.ChecksumIEEE(b)
	case 8:
		return model.CRC(b[1:])
	case 9:
		return model.CRC(append([]byte{0x47}, b...))
	case 10:
		return model.CRC(b[:len(b)-1])
	case 11: // over the CRC_32 itself, taken as zero
		return model.CRC(append(append([]byte(nil), b...), 0, 0, 0, 0))
	case 12:
		return model.CRC(append(append([]byte(nil), b...), 0xFF, 0xFF, 0xFF, 0xFF))
	case 13:
		return c & 0xFFFF
	case 14:
		return c &^ 0xFFFF
	case 15:
		return crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli))
	}
	return model.CRC(nil)
}

const altCRCs = 17

func getBits(b []byte, start, width int) (v uint64) {
	for i := start; i < start+width && i < 8*len(b); i++ {
		v = v<<1 | uint64(b[i/8]>>uint(7-i%8)&1)
	}
	return
}

func setBits(b []byte, start, width int, v uint64) {
	for i := 0; i < width; i++ {
		p := start + i
		if p >= 8*len(b) {
			return
		}
		m := byte(0x80 >> uint(p%8))
		b[p/8] &^= m
		if v>>uint(width-1-i)&1 == 1 {
			b[p/8] |= m
		}
	}
}

func drawBMut(r *rng.R, n int) BMut {
	switch r.N(14) {
	case 0, 1, 2:
		return BMut{K: "flip", A: r.N(8*n + 1)}
	case 3:
		return BMut{K: "burst", A: r.N(8*n + 1), X: r.Bytes(4)}
	case 4:
		return BMut{K: "set", A: r.N(n + 1), X: rng.Pick(r, []byte{0}, []byte{0xFF}, []byte{0xFF, 0xFF, 0xFF, 0xFF}, r.Bytes(r.In(1, 6)))}
	case 5:
		return BMut{K: "cut", A: r.N(n + 1)}
	case 6:
		return BMut{K: "del", A: r.N(n + 1), N: r.In(1, rng.Pick(r, 1, 4, 40))}
	case 7:
		return BMut{K: "dup", A: r.N(n + 1), N: r.In(1, rng.Pick(r, 1, 8, 200))}
	case 8:
		return BMut{K: "swap", A: r.N(n + 1), B: r.N(n + 1), N: r.In(1, 20)}
	case 9:
		return BMut{K: "ins", A: r.N(n + 1), X: r.Bytes(r.In(1, 20))}
	case 10:
		return BMut{K: "pad", N: r.In(1, 200), B: rng.Pick(r, 0, 0xFF, 0x47)}
	case 11:
		return BMut{K: "head", A: r.N(n + 1)}
	}
	return BMut{K: "len", A: r.N(200), N: rng.Pick(r, 0, 1, 2, 0xFF, 0xFFF, 0xFFFF, r.N(256), r.N(20))}
}

// TMut is damage done to a text: JSON, XML, base-64 or hexadecimal.
type TMut struct {
	K string `json:"k"` // cut, del, dup, ins, set, tok-del, tok-dup, tok-swap, tok-rep, tok-copy, tok-in, tree, num
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	N int    `json:"n,omitempty"`
	S string `json:"s,omitempty"`
}

type tspan struct{ lo, hi int }

// jsonSpans returns members, elements and values of a JSON text, roughly.
func jsonSpans(s string) []tspan {
	var out []tspan
	type open struct{ at int }
	var st []open
	start := -1 // of the current member or element
	inStr := false
	strAt := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr {
			if c == '\\' {
				i++
			} else if c == '"' {
				inStr = false
				out = append(out, tspan{strAt, i + 1})
			}
			continue
		}
		switch c {
		case '"':
			inStr, strAt = true, i
			if start < 0 {
				start = i
			}
		case '{', '[':
			st = append(st, open{i})
			start = -1
		case '}', ']':
			if start >= 0 {
				out = append(out, tspan{start, i})
			}
			if len(st) > 0 {
				o := st[len(st)-1]
				st = st[:len(st)-1]
				out = append(out, tspan{o.at, i + 1})
				start = o.at
			}
		case ',':
			if start >= 0 {
				out = append(out, tspan{start, i + 1})
			}
			start = -1
		case ':':
			// the value
			j := i + 1
			for j < len(s) && s[j] != ',' && s[j] != '}' && s[j] != ']' && s[j] != '{' && s[j] != '[' && s[j] != '"' {
				j++
			}
			if j > i+1 {
				out = append(out, tspan{i + 1, j})
			}
		case ' ', '\n', '\t', '\r':
		default:
			if start < 0 {
				start = i
			}
		}
	}
	return out
}

// xmlSpans returns tags, attributes, attribute values, texts and elements.
func xmlSpans(s string) []tspan {
	var out []tspan
	type el struct {
		name string
		at   int
	}
	var st []el
	for i := 0; i < len(s); {
		if s[i] != '<' {
			j := strings.IndexByte(s[i:], '<')
			if j < 0 {
				j = len(s) - i
			}
			out = append(out, tspan{i, i + j})
			i += j
			continue
		}
		j := strings.IndexByte(s[i:], '>')
		if j < 0 {
			break
		}
		end := i + j + 1
		tag := s[i:end]
		out = append(out, tspan{i, end})
		if strings.HasPrefix(tag, "</") {
			name := strings.Trim(tag, "</> ")
			for k := len(st) - 1; k >= 0; k-- {
				if st[k].name == name {
					out = append(out, tspan{st[k].at, end})
					st = st[:k]
					break
				}
			}
		} else {
			f := strings.FieldsFunc(tag, func(r rune) bool { return r == ' ' || r == '<' || r == '>' || r == '/' })
			if len(f) > 0 {
				st = append(st, el{f[0], i})
			}
			// attributes
			for k := 0; k < len(tag); {
				q := strings.Index(tag[k:], `="`)
				if q < 0 {
					break
				}
				q += k
				a := strings.LastIndexByte(tag[:q], ' ')
				e := strings.IndexByte(tag[q+2:], '"')
				if a < 0 || e < 0 {
					break
				}
				out = append(out, tspan{i + a, i + q + 2 + e + 1}, tspan{i + q + 2, i + q + 2 + e}, tspan{i + a + 1, i + q})
				k = q + 2 + e + 1
			}
		}
		i = end
	}
	return out
}

// inner returns what is between the quotes of values, and texts.
func inner(form, s string, sp []tspan) []tspan {
	var out []tspan
	for _, a := range sp {
		if form == adapt.JSON {
			if a.hi-a.lo < 3 || s[a.lo] != '"' || s[a.hi-1] != '"' || strings.ContainsAny(s[a.lo+1:a.hi-1], "\"\\") {
				continue
			}
			if t := strings.TrimLeft(s[a.hi:], " \n\t"); t == "" || t[0] == ':' {
				continue // a name
			}
			a.lo++
			a.hi--
		} else if a.hi <= a.lo || strings.ContainsAny(s[a.lo:a.hi], "<>\"") || a.hi < len(s) && s[a.hi] == '=' || strings.TrimSpace(s[a.lo:a.hi]) == "" {
			continue
		}
		out = append(out, a)
	}
	return out
}

// byLen chooses one span, longer ones more often.
func byLen(sp []tspan, n int) tspan {
	sum := 0
	for _, a := range sp {
		sum += a.hi - a.lo
	}
	n = mod(n, sum)
	for _, a := range sp {
		if n -= a.hi - a.lo; n < 0 {
			return a
		}
	}
	return sp[0]
}

// tdamage applies text mutations.
func tdamage(form string, doc string, ms []TMut) string {
	s := doc
	for _, m := range ms {
		if len(s) > 400_000 {
			break
		}
		switch m.K {
		case "cut":
			s = s[:mod(m.A, len(s)+1)]
		case "head":
			s = s[mod(m.A, len(s)+1):]
		case "del":
			i := mod(m.A, len(s)+1)
			s = s[:i] + s[min(len(s), i+max(1, m.N)):]
		case "dup":
			i := mod(m.A, len(s)+1)
			j := min(len(s), i+max(1, m.N))
			s = s[:j] + s[i:j] + s[j:]
		case "ins":
			i := mod(m.A, len(s)+1)
			s = s[:i] + m.S + s[i:]
		case "set":
			i := mod(m.A, len(s)+1)
			s = s[:i] + m.S + s[min(len(s), i+len(m.S)):]
		case "tree":
			if form == adapt.JSON || form == adapt.XML {
				s = treeMut(form, s, m)
			}
		case "num": // another number for the A-th one
			if at := docNumber.FindAllStringSubmatchIndex(s, -1); len(at) > 0 {
				a := at[mod(m.A, len(at))]
				s = s[:a[2]] + m.S + s[a[3]:]
			}
		case "rep": // repeat a string many times
			i := mod(m.A, len(s)+1)
			s = s[:i] + strings.Repeat(m.S, min(max(0, m.N), 20000)) + s[i:]
		default:
			var sp []tspan
			if form == adapt.XML {
				sp = xmlSpans(s)
			} else {
				sp = jsonSpans(s)
			}
			if m.K == "tok-in" {
				sp = inner(form, s, sp)
			}
			if len(sp) == 0 {
				continue
			}
			a := sp[mod(m.A, len(sp))]
			if m.K == "tok-in" {
				a = byLen(sp, m.A)
			}
			switch m.K {
			case "tok-del":
				s = s[:a.lo] + s[a.hi:]
			case "tok-dup":
				s = s[:a.hi] + s[a.lo:a.hi] + s[a.hi:]
			case "tok-rep":
				s = s[:a.lo] + m.S + s[a.hi:]
			case "tok-in": // a piece of a value repeated or replaced
				i := a.lo + mod(m.B, a.hi-a.lo)
				j := min(i+max(0, m.N), a.hi)
				if m.S == "" {
					s = s[:j] + s[i:j] + s[j:]
				} else {
					s = s[:i] + m.S + s[j:]
				}
			case "tok-copy": // the B-th over the A-th
				b := sp[mod(m.B, len(sp))]
				s = s[:a.lo] + s[b.lo:b.hi] + s[a.hi:]
			case "tok-swap":
				b := sp[mod(m.B, len(sp))]
				if a.lo > b.lo {
					a, b = b, a
				}
				if a.hi <= b.lo {
					s = s[:a.lo] + s[b.lo:b.hi] + s[a.hi:b.lo] + s[a.lo:a.hi] + s[b.hi:]
				}
			}
		}
	}
	return s
}

// docNumber finds the numbers in JSON and in the attributes of XML.
var docNumber = regexp.MustCompile(`(?:":\s*|=")([0-9]+)`)

var docNumbers = []string{"64", "256", "300", "4096", "65536", "70000", "1000000", "16777217", "100000000", "2147483647", "2147483648", "4294967295", "4294967295", "8589934592", "1099511627776", "9007199254740993", "9223372036854775807", "18446744073709551615"}

var jsonVals = []string{"null", "0", "1", "-1", "255", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "1e3", "1e400", "0.5", `""`, `"x"`, "true", "false", "{}", "[]", "[null]", "[{}]", `[[]]`, `{"type":null}`, `{"type":5}`, `[{"type":2}]`, `"\ud800"`, `" "`}

var xmlVals = []string{"", " ", "0", "-1", "4294967296", "18446744073709551616", "true", "false", "x", "1e3", "<x/>", "&lt;", "<SegmentationUpid/>", "<SpliceInsert/>", "<TimeSignal/>", "<Program/>", "<SegmentationDescriptor/>", "&#0;", "<!-- -->", "<![CDATA[x]]>", ` a="b"`, ` segmentationUpidType="10"`, ` segmentationUpidType="12"`, ` segmentationUpidFormat="base-64"`, ` segmentationUpidFormat="hexbinary"`}

func drawTMut(r *rng.R, form string, n int) TMut {
	if form == adapt.JSON || form == adapt.XML {
		val := func() string {
			if r.One(4) && len(model.Dict.Strings) > 0 {
				s := model.Dict.Strings[r.N(len(model.Dict.Strings))]
				if form == adapt.JSON {
					return `"` + strings.Map(func(c rune) rune {
						if c == '"' || c == '\\' || c < ' ' {
							return -1
						}
						return c
					}, s) + `"`
				}
				return s
			}
			if form == adapt.JSON {
				return jsonVals[r.N(len(jsonVals))]
			}
			return xmlVals[r.N(len(xmlVals))]
		}
		switch r.N(20) {
		case 18, 19:
			return TMut{K: "num", A: r.N(1000), S: rng.Pick(r, docNumbers...)}
		case 12, 13, 14, 15, 16, 17:
			return TMut{K: "tree", A: r.N(1000), B: r.N(1000), N: r.N(treeOps), S: val()}
		case 10, 11:
			m := TMut{K: "tok-in", A: r.N(1000), B: r.N(100), N: rng.Pick(r, 1, 1, 2, 3, 4, 5, 8, 20)}
			if r.Bool() {
				m.S = rng.Pick(r, "0", "00", "1", "9", "-", "a", "F", "/", ".", "=", "é", "ß", " ", "AAAA", "99999", "-1", "x", ":", "Z")
				m.N = rng.Pick(r, 0, 0, 1, 2, 4)
			}
			return m
		case 0, 1:
			return TMut{K: "tok-del", A: r.N(1000)}
		case 2:
			return TMut{K: "tok-dup", A: r.N(1000)}
		case 3:
			return TMut{K: "tok-swap", A: r.N(1000), B: r.N(1000)}
		case 4:
			return TMut{K: "tok-copy", A: r.N(1000), B: r.N(1000)}
		case 5, 6, 7:
			return TMut{K: "tok-rep", A: r.N(1000), S: val()}
		}
	}
	switch r.N(9) {
	case 0, 1:
		return TMut{K: "cut", A: r.N(n + 1)}
	case 2:
		return TMut{K: "del", A: r.N(n + 1), N: r.In(1, 8)}
	case 3:
		return TMut{K: "dup", A: r.N(n + 1), N: r.In(1, 40)}
	case 4:
		return TMut{K: "ins", A: r.N(n + 1), S: rng.Pick(r, " ", "\n", "\x00", "\xff", "=", "/", "-", "0x", "10.", "\"", "<", "}", "é")}
	case 5:
		return TMut{K: "head", A: r.N(n + 1)}
	case 6:
		return TMut{K: "rep", A: r.N(n + 1), N: rng.Pick(r, 2, 100, 3000), S: rng.Pick(r, "[", "{\"a\":", "<a>", "A", "0", " ", "{\"spliceDescriptors\":[", "f")}
	}
	return TMut{K: "set", A: r.N(n + 1), S: rng.Pick(r, "0", "9", "F", "g", "=", " ", "\"", ">", "\x00", "\xc3")}
}

// countB counts binary faults.
func countB(o *core.Out, ms []BMut) {
	names := map[string]string{"flip": "bit flipped", "burst": "burst", "set": "bytes overwritten", "cut": "end lost", "head": "beginning lost", "del": "piece lost", "dup": "piece repeated", "swap": "pieces swapped", "ins": "surplus bytes", "pad": "padding added", "len": "length or flag altered", "crc": "checksum made right", "end": "end of the section lost", "loopend": "end of the descriptors lost", "fit": "section length made right", "crcalt": "another value for the checksum"}
	for _, m := range ms {
		o.Fault(names[m.K])
	}
}

func countT(o *core.Out, ms []TMut) {
	for _, m := range ms {
		o.Fault("text " + m.K)
	}
}
