package scen

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"slices"
	"strings"
	"time"
	"unicode/utf8"

	"verif.local/sim/adapt"
	"verif.local/sim/rng"
)

// restyle writes a document the way another tool would that means the same:
// other white space, another order of members and attributes, other escapes,
// quotes, name space prefixes, comments and spellings of a value. It returns
// nil if it cannot tell that the result means the same. Times keep their zone
// unless zones is set. Values that say nothing are left out or written out only
// if defaults is set.
func restyle(seed uint64, form string, doc []byte, zones, defaults bool) []byte {
	r := rng.New(seed)
	r.U64()
	if form == adapt.JSON {
		return restyleJSON(r, doc, zones, defaults)
	}
	return restyleXML(r, doc, zones, defaults)
}

// respellTime writes an RFC 3339 time differently.
func respellTime(r *rng.R, s string, zones bool) string {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		return s
	}
	if zones && r.Bool() {
		t = t.In(time.FixedZone("", 60*rng.Pick(r, 0, 60, -300, 330, 840, -720, 15*r.In(-48, 56))))
	}
	if y := t.Year(); y < 1 || y > 9999 {
		return s
	}
	out := t.Format("2006-01-02T15:04:05") + rng.Pick(r, "", "", ".0", ".000")
	if _, off := t.Zone(); off == 0 {
		return out + rng.Pick(r, "Z", "+00:00")
	}
	return out + t.Format("-07:00")
}

func isHex(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
			return false
		}
	}
	return true
}

// jnode is a JSON value.
type jnode struct {
	Kind byte // {, [, s, or w for words and numbers
	Text string
	Keys []string
	Vals []*jnode
}

func readJSON(d *json.Decoder) (*jnode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch v := t.(type) {
	case json.Delim:
		n := &jnode{Kind: byte(v)}
		for d.More() {
			if v == '{' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				s, ok := k.(string)
				if !ok {
					return nil, io.ErrUnexpectedEOF
				}
				n.Keys = append(n.Keys, s)
			}
			x, err := readJSON(d)
			if err != nil {
				return nil, err
			}
			n.Vals = append(n.Vals, x)
		}
		_, err := d.Token()
		return n, err
	case string:
		return &jnode{Kind: 's', Text: v}, nil
	case json.Number:
		return &jnode{Kind: 'w', Text: string(v)}, nil
	case bool:
		return &jnode{Kind: 'w', Text: fmt.Sprint(v)}, nil
	case nil:
		return &jnode{Kind: 'w', Text: "null"}, nil
	}
	return nil, fmt.Errorf("token %v", t)
}

func parseJSON(doc []byte) *jnode {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	n, err := readJSON(d)
	if err != nil {
		return nil
	}
	if _, err := d.Token(); err != io.EOF {
		return nil
	}
	return n
}

// sortKeys makes the order of members irrelevant.
func (n *jnode) sortKeys() *jnode {
	m := &jnode{Kind: n.Kind, Text: n.Text}
	ix := make([]int, len(n.Vals))
	for i := range ix {
		ix[i] = i
	}
	if len(n.Keys) > 0 {
		slices.SortStableFunc(ix, func(a, b int) int { return strings.Compare(n.Keys[a], n.Keys[b]) })
	}
	for _, i := range ix {
		if len(n.Keys) > 0 {
			m.Keys = append(m.Keys, n.Keys[i])
		}
		m.Vals = append(m.Vals, n.Vals[i].sortKeys())
	}
	return m
}

func (n *jnode) respell(r *rng.R, key string, zones bool) {
	if n.Kind == 's' {
		switch {
		case key == "utcSpliceTime":
			n.Text = respellTime(r, n.Text, zones)
		case key == "privateBytes" && isHex(n.Text) && r.Bool():
			n.Text = strings.ToUpper(n.Text)
		}
	}
	for i, v := range n.Vals {
		k := ""
		if i < len(n.Keys) {
			k = n.Keys[i]
		}
		v.respell(r, k, zones)
	}
}

// An absent value is zero or none, other than that of sapType and identifier;
// where a value is optional, zero is a value of its own.
func mayLack(key string) bool {
	switch strings.ToLower(key) {
	case "saptype", "identifier", "ptstime", "segmentationduration", "subsegmentnum", "subsegmentsexpected", "formatidentifier":
		return false
	}
	return true
}

// omit leaves out some members that are zero.
func (n *jnode) omit(r *rng.R, odds int) {
	if n.Kind == '{' {
		m := &jnode{}
		for i, v := range n.Vals {
			zero := v.Kind == 's' && v.Text == "" || v.Kind == '[' && len(v.Vals) == 0 || v.Kind == 'w' && (v.Text == "0" || v.Text == "false" || v.Text == "null")
			if zero && mayLack(n.Keys[i]) && r.One(odds) {
				continue
			}
			m.Keys, m.Vals = append(m.Keys, n.Keys[i]), append(m.Vals, v)
		}
		n.Keys, n.Vals = m.Keys, m.Vals
	}
	for _, v := range n.Vals {
		v.omit(r, odds)
	}
}

// members that are absent if there is nothing to say, by one that tells where
// they belong.
var absent = []struct{ by, members string }{
	{"spliceCommand", "spliceDescriptors=[] spliceDescriptors=null ptsAdjustment=0 protocolVersion=0 protocolVersion=null"},
	{"segmentationTypeId", "components=[] components=null segmentationUpids=[] segmentationUpids=null deliveryRestrictions=null segmentationDuration=null subSegmentNum=null subSegmentsExpected=null segmentNum=0"},
	{"spliceImmediateFlag", "components=[] components=null breakDuration=null program=null availNum=0 availNum=null"},
	{"segmentationUpidType", "formatIdentifier=null"},
	{"spliceTime", "utc=null"},
}

// spell writes out some absent members.
func (n *jnode) spell(r *rng.R) {
	if n.Kind == '{' {
		for _, a := range absent {
			if !slices.Contains(n.Keys, a.by) {
				continue
			}
			for _, kv := range strings.Fields(a.members) {
				k, v, _ := strings.Cut(kv, "=")
				if r.Bool() || slices.Contains(n.Keys, k) {
					continue
				}
				x := &jnode{Kind: 'w', Text: v}
				if v == "[]" {
					x = &jnode{Kind: '['}
				}
				n.Keys, n.Vals = append(n.Keys, k), append(n.Vals, x)
			}
		}
	}
	for _, v := range n.Vals {
		v.spell(r)
	}
}

type jstyle struct {
	r       *rng.R
	b       bytes.Buffer
	space   string // characters white space is made of, if any
	escape  int    // one in so many characters is escaped; 0: none that need not be
	shuffle bool
	last    bool // the members whose names start with "type" come last
}

func (s *jstyle) ws() {
	if s.space == "" {
		return
	}
	for k := s.r.N(4); k > 0; k-- {
		s.b.WriteByte(s.space[s.r.N(len(s.space))])
	}
}

func (s *jstyle) str(t string) {
	s.b.WriteByte('"')
	for _, c := range t {
		switch {
		case s.escape > 0 && s.r.One(s.escape):
			if c == '/' && s.r.Bool() {
				s.b.WriteString(`\/`)
				break
			}
			if c >= 1<<16 {
				c -= 1 << 16
				fmt.Fprintf(&s.b, `\u%04x\u%04X`, 0xD800+c>>10, 0xDC00+c&0x3FF)
			} else {
				fmt.Fprintf(&s.b, rng.Pick(s.r, `\u%04x`, `\u%04X`), c)
			}
		case c == '"' || c == '\\':
			s.b.WriteByte('\\')
			s.b.WriteRune(c)
		case c < ' ':
			fmt.Fprintf(&s.b, `\u%04x`, c)
		default:
			s.b.WriteRune(c)
		}
	}
	s.b.WriteByte('"')
}

func (s *jstyle) value(n *jnode) {
	switch n.Kind {
	case 's':
		s.str(n.Text)
	case 'w':
		s.b.WriteString(n.Text)
	default:
		s.b.WriteByte(n.Kind)
		ix := make([]int, len(n.Vals))
		for i := range ix {
			ix[i] = i
		}
		if s.shuffle && n.Kind == '{' {
			for i := len(ix) - 1; i > 0; i-- {
				j := s.r.N(i + 1)
				ix[i], ix[j] = ix[j], ix[i]
			}
		}
		if s.last && n.Kind == '{' {
			slices.SortStableFunc(ix, func(a, b int) int {
				f := func(i int) int {
					if strings.HasPrefix(n.Keys[i], "type") {
						return 1
					}
					return 0
				}
				return f(a) - f(b)
			})
		}
		for k, i := range ix {
			if k > 0 {
				s.ws()
				s.b.WriteByte(',')
			}
			s.ws()
			if n.Kind == '{' {
				s.str(n.Keys[i])
				s.ws()
				s.b.WriteByte(':')
				s.ws()
			}
			s.value(n.Vals[i])
		}
		s.ws()
		s.b.WriteByte(n.Kind + 2) // the closing one
	}
}

func restyleJSON(r *rng.R, doc []byte, zones, defaults bool) []byte {
	n := parseJSON(doc)
	if n == nil || n.Kind != '{' && n.Kind != '[' || !utf8.Valid(doc) {
		return nil
	}
	n.respell(r, "", zones)
	switch k := r.N(4); {
	case !defaults:
	case k == 0:
		n.omit(r, rng.Pick(r, 1, 2))
	case k == 1:
		n.spell(r)
	}
	s := &jstyle{r: r, space: rng.Pick(r, "", " ", " \n", " \t\r\n"), escape: rng.Pick(r, 0, 0, 1, 3, 20), shuffle: r.Bool(), last: r.One(4)}
	s.ws()
	s.value(n)
	out := s.b.Bytes()
	m := parseJSON(out)
	if m == nil || !reflect.DeepEqual(m.sortKeys(), n.sortKeys()) {
		return nil
	}
	return out
}

// xnode is an XML element.
type xnode struct {
	Space, Local string
	Attrs        []xattr
	Text         string // all its character data
	Kids         []*xnode
}

type xattr struct{ Name, Value string }

func parseXML(doc []byte) *xnode {
	d := xml.NewDecoder(bytes.NewReader(doc))
	var root *xnode
	var open []*xnode
	for {
		t, err := d.Token()
		if err == io.EOF && len(open) == 0 && root != nil {
			root.tidy()
			return root
		}
		if err != nil {
			return nil
		}
		switch t := t.(type) {
		case xml.StartElement:
			n := &xnode{Space: t.Name.Space, Local: t.Name.Local}
			for _, a := range t.Attr {
				switch {
				case a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" || a.Name.Local == "schemaLocation":
				case a.Name.Space != "":
					return nil
				default:
					n.Attrs = append(n.Attrs, xattr{a.Name.Local, a.Value})
				}
			}
			if len(open) > 0 {
				p := open[len(open)-1]
				p.Kids = append(p.Kids, n)
			} else if root == nil {
				root = n
			} else {
				return nil
			}
			open = append(open, n)
		case xml.EndElement:
			open = open[:len(open)-1]
		case xml.CharData:
			if len(open) > 0 {
				open[len(open)-1].Text += string(t)
			}
		}
	}
}

// tidy removes white space that is only there for the reader.
func (n *xnode) tidy() {
	n.Text = strings.Trim(n.Text, " \t\r\n")
	for _, k := range n.Kids {
		k.tidy()
	}
}

func (n *xnode) sortAttrs() *xnode {
	m := *n
	m.Attrs = slices.Clone(n.Attrs)
	slices.SortStableFunc(m.Attrs, func(a, b xattr) int { return strings.Compare(a.Name, b.Name) })
	m.Kids = nil
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, k.sortAttrs())
	}
	return &m
}

func (n *xnode) respell(r *rng.R, odds int, zones bool) {
	for i := range n.Attrs {
		a := &n.Attrs[i]
		switch l := strings.ToLower(a.Name); {
		case strings.HasSuffix(l, "chars"), strings.HasSuffix(l, "code"):
		case l == "utcsplicetime":
			a.Value = respellTime(r, a.Value, zones)
		case odds == 0 || !r.One(odds):
		case a.Value == "true":
			a.Value = "1"
		case a.Value == "false":
			a.Value = "0"
		case a.Value != "" && strings.Trim(a.Value, "0123456789") == "":
			a.Value = rng.Pick(r, "0", "00", " ", "\n") + a.Value
		}
	}
	if strings.HasPrefix(n.Local, "Private") && isHex(n.Text) && r.Bool() {
		n.Text = strings.ToUpper(n.Text)
	}
	for _, k := range n.Kids {
		k.respell(r, odds, zones)
	}
}

// omit leaves out some attributes that are zero.
func (n *xnode) omit(r *rng.R, odds int) {
	at := n.Attrs[:0]
	for _, a := range n.Attrs {
		// "0" is a character where characters belong
		l := strings.ToLower(a.Name)
		zero := a.Value == "" || (a.Value == "0" || a.Value == "false") && !strings.HasSuffix(l, "chars") && !strings.HasSuffix(l, "code")
		if zero && (mayLack(a.Name) || a.Name == "identifier") && r.One(odds) {
			continue
		}
		at = append(at, a)
	}
	n.Attrs = at
	for _, k := range n.Kids {
		k.omit(r, odds)
	}
}

type xstyle struct {
	r       *rng.R
	b       bytes.Buffer
	quote   string
	prefix  string // of the document's name space; "": it is the default
	repeat  bool   // the name space is declared on every element
	space   string
	escape  int
	comment int
	cdata   bool
	short   bool // <a/> instead of <a></a>
	shuffle bool
}

func (s *xstyle) ws(least int) {
	k := least
	if s.space != "" {
		k += s.r.N(4)
	}
	for ; k > 0; k-- {
		s.b.WriteByte((s.space + " ")[s.r.N(len(s.space)+1)])
	}
}

func (s *xstyle) between() {
	if s.space != "" {
		s.ws(0)
	}
	if s.comment > 0 && s.r.One(s.comment) {
		s.b.WriteString(rng.Pick(s.r, "<!-- <SpliceNull/> -->", "<!---->", "<?pi x?>", "<!-- & -->"))
	}
}

func (s *xstyle) text(t string) {
	for _, c := range t {
		switch {
		case s.escape > 0 && s.r.One(s.escape):
			fmt.Fprintf(&s.b, rng.Pick(s.r, "&#%d;", "&#x%x;", "&#x%X;", "&#%04d;"), c)
		case c == '&':
			s.b.WriteString("&amp;")
		case c == '<':
			s.b.WriteString("&lt;")
		case c == '>':
			s.b.WriteString("&gt;")
		case c == '"':
			s.b.WriteString("&quot;")
		case c == '\'':
			s.b.WriteString("&apos;")
		case c < ' ':
			fmt.Fprintf(&s.b, "&#%d;", c)
		default:
			s.b.WriteRune(c)
		}
	}
}

func (s *xstyle) attr(name, value string) {
	s.ws(1)
	s.b.WriteString(name)
	s.ws(0)
	s.b.WriteByte('=')
	s.ws(0)
	s.b.WriteString(s.quote)
	s.text(value)
	s.b.WriteString(s.quote)
}

func (s *xstyle) elem(n *xnode, def, main string, root bool) bool {
	name := n.Local
	own := main != "" && n.Space == main && s.prefix != ""
	if own {
		name = s.prefix + ":" + name
	}
	s.b.WriteString("<" + name)
	if root && s.prefix != "" {
		s.attr("xmlns:"+s.prefix, main)
		if s.r.Bool() {
			s.attr("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance")
			s.attr("xsi:schemaLocation", main+" scte_35_20230713.xsd")
		}
	}
	if !own && (n.Space != def || s.repeat && n.Space != "") {
		s.attr("xmlns", n.Space)
		def = n.Space
	}
	at := slices.Clone(n.Attrs)
	if s.shuffle {
		for i := len(at) - 1; i > 0; i-- {
			j := s.r.N(i + 1)
			at[i], at[j] = at[j], at[i]
		}
	}
	for _, a := range at {
		s.attr(a.Name, a.Value)
	}
	if len(n.Kids) == 0 && n.Text == "" && s.short {
		s.ws(0)
		s.b.WriteString("/>")
		return true
	}
	s.b.WriteByte('>')
	if n.Text != "" {
		if len(n.Kids) > 0 {
			return false
		}
		s.between()
		// in one piece or several
		rest := []rune(n.Text)
		for len(rest) > 0 {
			k := len(rest)
			if s.comment > 0 && s.r.One(s.comment+1) {
				k = s.r.In(1, k)
			}
			part := string(rest[:k])
			if rest = rest[k:]; s.cdata && !strings.Contains(part, "]]>") && !strings.ContainsAny(part, "\r") {
				s.b.WriteString("<![CDATA[" + part + "]]>")
			} else {
				s.text(part)
			}
			if len(rest) > 0 && s.r.Bool() {
				s.b.WriteString("<!-- x -->")
			}
		}
		s.between()
	}
	for _, k := range n.Kids {
		s.between()
		if !s.elem(k, def, main, false) {
			return false
		}
	}
	if len(n.Kids) > 0 {
		s.between()
	}
	s.b.WriteString("</" + name)
	s.ws(0)
	s.b.WriteByte('>')
	return true
}

func restyleXML(r *rng.R, doc []byte, zones, defaults bool) []byte {
	n := parseXML(doc)
	if n == nil || !utf8.Valid(doc) {
		return nil
	}
	n.respell(r, rng.Pick(r, 0, 0, 1, 5), zones)
	if defaults && r.One(4) {
		n.omit(r, rng.Pick(r, 1, 2))
	}
	s := &xstyle{r: r, quote: rng.Pick(r, `"`, `'`), prefix: rng.Pick(r, "", "", "scte35", "s", "ns0"), repeat: r.One(3),
		space: rng.Pick(r, "", "", " \n", " \t\n", " \t\r\n"), escape: rng.Pick(r, 0, 0, 1, 3, 20), comment: rng.Pick(r, 0, 0, 1, 4),
		cdata: r.One(5), short: r.Bool(), shuffle: r.Bool()}
	if r.One(3) {
		s.b.WriteString(rng.Pick(r, `<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version='1.0' encoding='utf-8' standalone="yes"?>`+"\n"))
	}
	s.between()
	main := n.Space
	if main == "" || r.Bool() {
		main = "http://www.scte.org/schemas/35"
	}
	if !s.elem(n, "", main, true) {
		return nil
	}
	out := s.b.Bytes()
	m := parseXML(out)
	if m == nil || !reflect.DeepEqual(m.sortAttrs(), n.sortAttrs()) {
		return nil
	}
	return out
}
