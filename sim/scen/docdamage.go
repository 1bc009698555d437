package scen

import (
	"bytes"
	"strings"

	"verif.local/sim/adapt"
)

// wrongKind replaces one value of a JSON or XML document with something its
// field cannot hold: text for a number, a number for an object, a negative or
// fractional number for a count, and so on. It returns nil if the document has
// no such value.
func wrongKind(form string, doc []byte, which, how int) []byte {
	var vs []span
	if form == adapt.JSON {
		s := &jscan{b: doc}
		s.value()
		if s.bad {
			return nil
		}
		vs = s.out
	} else {
		if how%8 == 0 {
			return unknownElement(doc, which, how/8)
		}
		vs = attrs(doc)
		if how%5 == 1 {
			if h := hexTexts(doc); len(h) > 0 {
				vs = h
			}
		}
	}
	if len(vs) == 0 {
		return nil
	}
	v := vs[mod(which, len(vs))]
	alt := instead[v.kind]
	if len(alt) == 0 {
		return nil
	}
	var out []byte
	out = append(out, doc[:v.a]...)
	out = append(out, alt[mod(how, len(alt))]...)
	return append(out, doc[v.b:]...)
}

// unknownElement renames a splice command or descriptor of an XML document to
// something the standard does not know.
func unknownElement(doc []byte, which, how int) []byte {
	n := parseXML(doc)
	for n != nil && n.Local != "SpliceInfoSection" {
		k := n.Kids
		n = nil
		for _, x := range k {
			if len(x.Kids) > 0 {
				n = x
			}
		}
	}
	if n == nil || len(n.Kids) == 0 {
		return nil
	}
	old := n.Kids[mod(which, len(n.Kids))].Local
	alt := []string{old + "s", "x" + old, strings.ToUpper(old), "Splice", "descriptor", "segmentationdescriptor"}
	alias := alt[mod(how, len(alt))]
	out := doc
	for _, c := range []string{">", " ", "/"} {
		out = bytes.ReplaceAll(out, []byte("<"+old+c), []byte("<"+alias+c))
		out = bytes.ReplaceAll(out, []byte("</"+old+c), []byte("</"+alias+c))
	}
	if bytes.Equal(out, doc) || parseXML(out) == nil {
		return nil
	}
	return out
}

type span struct {
	a, b int
	kind byte // n number, b bool, s string, h hexadecimal, t time, o object, l list; N, B, H and T: in XML
}

var instead = map[byte][]string{
	'n': {`"1"`, `true`, `{}`, `[]`, `-1`, `0.5`, `123456789012345678901234567890`, `"x"`, `[1]`},
	'b': {`1`, `"true"`, `{}`, `[]`, `0`},
	's': {`1`, `true`, `[]`, `{}`},
	'o': {`1`, `"x"`, `[]`, `true`},
	'l': {`1`, `"x"`, `{}`, `false`},
	'h': {`"x"`, `"abc"`, `"0g"`, `"0102030"`, `"01 02"`, `1`, `{}`, `"0x01"`},
	't': {`"x"`, `"2024-13-01T00:00:00Z"`, `"2024-02-03"`, `""`, `1`, `{}`, `"12:00:00Z"`, `"2024-02-30T00:00:00Z"`},
	'H': {`x`, `abc`, `0g`, `0102030`, `01 02`, `0x01`},
	'T': {`x`, `2024-13-01T00:00:00Z`, `2024-02-03`, ``, `1`, `12:00:00Z`, `2024-02-30T00:00:00Z`},
	'N': {`x`, `-1`, `0.5`, `1x`, `123456789012345678901234567890`},
	'B': {`maybe`, `2`, `-`},
}

// jscan collects the values of a JSON document.
type jscan struct {
	b   []byte
	i   int
	out []span
	bad bool
}

func (s *jscan) space() {
	for s.i < len(s.b) && bytes.IndexByte([]byte(" \t\r\n"), s.b[s.i]) >= 0 {
		s.i++
	}
}

func (s *jscan) str() {
	s.i++
	for s.i < len(s.b) && s.b[s.i] != '"' {
		if s.b[s.i] == '\\' {
			s.i++
		}
		s.i++
	}
	s.i++
	if s.i > len(s.b) {
		s.bad = true
	}
}

func (s *jscan) value() {
	s.space()
	if s.bad || s.i >= len(s.b) {
		s.bad = true
		return
	}
	a := s.i
	kind := byte(0)
	switch c := s.b[s.i]; {
	case c == '"':
		s.str()
		kind = 's'
	case c == '{', c == '[':
		kind = 'o'
		end := byte('}')
		if c == '[' {
			kind, end = 'l', ']'
		}
		s.i++
		for {
			s.space()
			if s.i >= len(s.b) {
				s.bad = true
				return
			}
			if s.b[s.i] == end {
				s.i++
				break
			}
			if s.b[s.i] == ',' {
				s.i++
				continue
			}
			name := ""
			if kind == 'o' {
				j := s.i
				s.str()
				if !s.bad {
					name = string(s.b[j:s.i])
				}
				s.space()
				s.i++ // the colon
			}
			k := len(s.out)
			s.value()
			if s.bad {
				return
			}
			if len(s.out) == k+1 && s.out[k].kind == 's' {
				switch name {
				case `"privateBytes"`:
					s.out[k].kind = 'h'
				case `"utcSpliceTime"`:
					s.out[k].kind = 't'
				}
			}
		}
	case c == 't', c == 'f':
		kind = 'b'
		s.word()
	case c == 'n':
		s.word()
	default:
		kind = 'n'
		s.word()
	}
	if kind != 0 {
		s.out = append(s.out, span{a, s.i, kind})
	}
}

func (s *jscan) word() {
	for s.i < len(s.b) && bytes.IndexByte([]byte(" \t\r\n,]}"), s.b[s.i]) < 0 {
		s.i++
	}
}

// hexTexts collects the private bytes of an XML document.
func hexTexts(doc []byte) (out []span) {
	for _, name := range []string{"PrivateCommand", "PrivateDescriptor"} {
		end := []byte("</" + name + ">")
		for i := 0; ; {
			j := bytes.Index(doc[i:], end)
			if j < 0 {
				break
			}
			j += i
			a := bytes.LastIndexByte(doc[:j], '>') + 1
			out = append(out, span{a, j, 'H'})
			i = j + len(end)
		}
	}
	return
}

// attrs collects the numeric and boolean attributes of an XML document.
func attrs(doc []byte) (out []span) {
	for i := 0; i < len(doc); i++ {
		if doc[i] != '<' {
			continue
		}
		for i < len(doc) && doc[i] != '>' {
			if doc[i] != '"' {
				i++
				continue
			}
			name := doc[:i]
			a := i + 1
			for i++; i < len(doc) && doc[i] != '"'; i++ {
			}
			if i >= len(doc) {
				return
			}
			v := string(doc[a:i])
			i++
			kind := byte('N')
			switch {
			case bytes.HasSuffix(name, []byte("hars=")), bytes.HasSuffix(name, []byte("ode=")):
				continue // text
			case bytes.HasSuffix(name, []byte(" utcSpliceTime=")):
				kind = 'T'
			case v == "true" || v == "false":
				kind = 'B'
			case v == "":
				continue
			default:
				for _, c := range v {
					if c < '0' || c > '9' {
						kind = 0
					}
				}
			}
			if kind != 0 {
				out = append(out, span{a, i - 1, kind})
			}
		}
	}
	return
}
