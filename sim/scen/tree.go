package scen

import (
	"encoding/xml"
	"strings"

	"verif.local/sim/adapt"
	"verif.local/sim/rng"
)

// The structure of a document is altered and the document stays well-formed:
// what another program with other ideas about the format would send.

// treeMut is applied to the document's tree. A and B choose nodes, N says what
// happens, S is a value.
func treeMut(form, doc string, m TMut) string {
	if len(doc) > 100_000 {
		return doc
	}
	if form == adapt.JSON {
		n := parseJSON([]byte(doc))
		if n == nil {
			return doc
		}
		jmut(n, m)
		s := &jstyle{r: rng.New(1)}
		s.value(n)
		return s.b.String()
	}
	n := parseXML([]byte(doc))
	if n == nil {
		return doc
	}
	xmut(n, m)
	var b strings.Builder
	xwrite(&b, n, "")
	return b.String()
}

const treeOps = 12

// jslot is a value and where it is.
type jslot struct {
	p *jnode
	i int
}

func jslots(n *jnode, deep bool, out []jslot) []jslot {
	for i, v := range n.Vals {
		if deep || v.Kind == '{' || v.Kind == '[' || n.Kind == '[' {
			out = append(out, jslot{n, i})
		}
		out = jslots(v, deep, out)
	}
	return out
}

func (n *jnode) clone() *jnode {
	m := &jnode{Kind: n.Kind, Text: n.Text, Keys: append([]string(nil), n.Keys...)}
	for _, v := range n.Vals {
		m.Vals = append(m.Vals, v.clone())
	}
	return m
}

// insert puts copies of v after the i-th.
func (n *jnode) insert(i int, key string, v *jnode, times int) {
	for ; times > 0; times-- {
		n.Vals = append(n.Vals[:i+1], append([]*jnode{v.clone()}, n.Vals[i+1:]...)...)
		if n.Kind == '{' {
			n.Keys = append(n.Keys[:i+1], append([]string{key}, n.Keys[i+1:]...)...)
		}
	}
}

func jmut(root *jnode, m TMut) {
	sl := jslots(root, m.B%3 == 0, nil)
	if len(sl) == 0 {
		return
	}
	a := sl[mod(m.A, len(sl))]
	b := sl[mod(m.B, len(sl))]
	v := a.p.Vals[a.i]
	key := func(s jslot) string {
		if s.p.Kind == '{' {
			return s.p.Keys[s.i]
		}
		return ""
	}
	switch mod(m.N, treeOps) {
	case 0, 1:
		if x := parseJSON([]byte(m.S)); x != nil {
			a.p.Vals[a.i] = x
		}
	case 2:
		a.p.Vals[a.i] = &jnode{Kind: 'w', Text: "null"}
	case 3:
		a.p.Vals = append(a.p.Vals[:a.i], a.p.Vals[a.i+1:]...)
		if a.p.Kind == '{' {
			a.p.Keys = append(a.p.Keys[:a.i], a.p.Keys[a.i+1:]...)
		}
	case 4:
		a.p.insert(a.i, key(a), v, 1)
	case 5:
		a.p.insert(a.i, key(a), v, 1+m.B%300)
	case 6:
		a.p.Vals[a.i] = &jnode{Kind: '[', Vals: []*jnode{v}}
	case 7:
		a.p.Vals[a.i] = b.p.Vals[b.i].clone()
	case 8: // the other notation of a number or string
		switch v.Kind {
		case 's':
			if x := parseJSON([]byte(v.Text)); x != nil && x.Kind == 'w' {
				a.p.Vals[a.i] = x
			}
		case 'w':
			a.p.Vals[a.i] = &jnode{Kind: 's', Text: v.Text}
		}
	case 9: // one more member or element, from elsewhere
		b.p.insert(b.i, key(a), v.clone(), 1)
	case 10: // another name
		if a.p.Kind == '{' {
			a.p.Keys[a.i] = rngCase(a.p.Keys[a.i], m.B)
		}
	case 11: // one more element
		if x := parseJSON([]byte(m.S)); x != nil && a.p.Kind == '[' {
			a.p.insert(a.i, "", x, 1)
		} else if v.Kind == '[' {
			v.Vals = append(v.Vals, &jnode{Kind: 'w', Text: "null"})
		}
	}
}

// rngCase gives a name that is nearly the same.
func rngCase(s string, k int) string {
	switch k % 5 {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return s + "s"
	case 3:
		return "@" + s
	}
	if len(s) > 1 {
		return s[1:]
	}
	return "x"
}

type xslot struct {
	p *xnode
	i int
}

func xslots(n *xnode, out []xslot) []xslot {
	for i, k := range n.Kids {
		out = append(out, xslot{n, i})
		out = xslots(k, out)
	}
	return out
}

func (n *xnode) clone() *xnode {
	m := *n
	m.Attrs = append([]xattr(nil), n.Attrs...)
	m.Kids = nil
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, k.clone())
	}
	return &m
}

func (n *xnode) insert(i int, v *xnode, times int) {
	for ; times > 0; times-- {
		n.Kids = append(n.Kids[:i+1], append([]*xnode{v.clone()}, n.Kids[i+1:]...)...)
	}
}

func xmut(root *xnode, m TMut) {
	sl := xslots(root, nil)
	if len(sl) == 0 {
		return
	}
	a := sl[mod(m.A, len(sl))]
	b := sl[mod(m.B, len(sl))]
	v, w := a.p.Kids[a.i], b.p.Kids[b.i]
	switch mod(m.N, treeOps) {
	case 0:
		v.Text = m.S
	case 1:
		if len(v.Attrs) > 0 {
			v.Attrs[m.B%len(v.Attrs)].Value = m.S
		}
	case 2:
		a.p.Kids[a.i] = &xnode{Space: v.Space, Local: v.Local}
	case 3:
		a.p.Kids = append(a.p.Kids[:a.i], a.p.Kids[a.i+1:]...)
	case 4:
		a.p.insert(a.i, v, 1)
	case 5:
		a.p.insert(a.i, v, 1+m.B%300)
	case 6:
		a.p.Kids[a.i] = &xnode{Space: v.Space, Local: v.Local, Kids: []*xnode{v}}
	case 7:
		a.p.Kids[a.i] = w.clone()
	case 8:
		if len(v.Attrs) > 0 {
			i := m.B % len(v.Attrs)
			if m.B%2 == 0 {
				v.Attrs = append(v.Attrs[:i], v.Attrs[i+1:]...)
			} else {
				v.Attrs[i].Name = rngCase(v.Attrs[i].Name, m.B/2)
			}
		}
	case 9:
		w.Kids = append(w.Kids, v.clone())
	case 10:
		if m.B%2 == 0 {
			v.Local = w.Local
		} else {
			v.Local = rngCase(v.Local, m.B/2)
		}
	case 11:
		if m.B%2 == 0 {
			v.Space = ""
		} else {
			v.Attrs = append(v.Attrs, w.Attrs...)
			for i := range v.Attrs {
				for _, u := range v.Attrs[:i] {
					if u.Name == v.Attrs[i].Name {
						v.Attrs = v.Attrs[:i]
						return
					}
				}
			}
		}
	}
}

func xwrite(b *strings.Builder, n *xnode, space string) {
	name := func(s string) string {
		s = strings.TrimLeft(s, "@0123456789-.:")
		if s == "" {
			return "x"
		}
		return s
	}
	b.WriteString("<" + name(n.Local))
	if n.Space != space {
		b.WriteString(` xmlns="`)
		_ = xml.EscapeText(b, []byte(n.Space))
		b.WriteString(`"`)
	}
	for _, a := range n.Attrs {
		b.WriteString(" " + name(a.Name) + `="`)
		_ = xml.EscapeText(b, []byte(a.Value))
		b.WriteString(`"`)
	}
	b.WriteString(">")
	_ = xml.EscapeText(b, []byte(n.Text))
	for _, k := range n.Kids {
		xwrite(b, k, n.Space)
	}
	b.WriteString("</" + name(n.Local) + ">")
}
