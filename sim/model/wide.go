package model

// field is a number of a section that has a width of its own.
type field struct {
	w   int
	p32 *uint32
	p64 *uint64
	far *int8
}

// Widen gives a transmitted number of the section's header, of its command or
// of one of its descriptors a value that its field cannot hold; part is -2 for
// the header, -1 for the command. The value agrees with the old one in the bits
// of the field if keep is set. False if there is no such number.
func (s *Section) Widen(part, i, bit int, keep bool) bool {
	var fs []field
	u := func(w int, p *uint32) { fs = append(fs, field{w: w, p32: p}) }
	l := func(w int, p *uint64) {
		if p != nil {
			fs = append(fs, field{w: w, p64: p})
		}
	}
	brk := func(b *Break) {
		if b != nil {
			l(33, &b.Dur)
		}
	}
	switch {
	case part == -2:
		u(2, &s.SAP)
		u(8, &s.Proto)
		u(6, &s.Alg)
		l(33, &s.PTSAdj)
		u(8, &s.CW)
		u(12, &s.Tier)
	case part == -1:
		c := &s.Cmd
		switch c.Type {
		case CmdTime:
			l(33, c.Time)
		case CmdInsert:
			if c.Cancel {
				return false
			}
			l(33, c.Time)
			for k := range c.Comps {
				u(8, &c.Comps[k].Tag)
				l(33, c.Comps[k].Time)
			}
			brk(c.Dur)
			u(16, &c.Prog)
			u(8, &c.Avail)
			u(8, &c.Avails)
		case CmdSchedule:
			for k := range c.Events {
				e := &c.Events[k]
				if e.Cancel {
					continue
				}
				if e.Program {
					fs = append(fs, field{far: &e.Far})
				}
				for j := range e.Comps {
					u(8, &e.Comps[j].Tag)
					fs = append(fs, field{far: &e.Comps[j].Far})
				}
				brk(e.Dur)
				u(16, &e.Prog)
				u(8, &e.Avail)
				u(8, &e.Avails)
			}
		}
	case part >= 0 && part < len(s.Descs):
		d := &s.Descs[part]
		switch d.Kind {
		case DDTMF:
			u(8, &d.Preroll)
		case DTime:
			l(48, &d.TAI)
			u(16, &d.Off)
		case DAudio:
			for k := range d.Audio {
				u(8, &d.Audio[k].Tag)
				u(3, &d.Audio[k].Mode)
				u(4, &d.Audio[k].Num)
			}
		case DPriv:
			u(8, &d.Tag)
		case DSeg:
			if d.Cancel {
				return false
			}
			if d.Restr != nil {
				u(2, &d.Restr.Device)
			}
			for k := range d.Comps {
				u(8, &d.Comps[k].Tag)
				l(33, &d.Comps[k].Off)
			}
			l(40, d.Dur)
			for k := range d.UPIDs {
				// another type must not mean another notation
				if p := &d.UPIDs[k]; p.Bad == "" && p.Format() == "text" && p.Type != 0x08 && p.Type != 0x0A {
					u(8, &p.Type)
				}
			}
			u(8, &d.TypeID)
			u(8, &d.Num)
			u(8, &d.Exp)
			if d.Sub != nil {
				u(8, &d.Sub[0])
				u(8, &d.Sub[1])
			}
		}
	}
	if len(fs) == 0 || i < 0 || bit < 0 {
		return false
	}
	f := fs[i%len(fs)]
	switch {
	case f.far != nil:
		*f.far = 1
		if bit&1 == 1 {
			*f.far = -1
		}
	case f.p32 != nil:
		if !keep {
			*f.p32 = 0
		}
		*f.p32 |= 1 << uint(f.w+bit%(32-f.w))
	default:
		if !keep {
			*f.p64 = 0
		}
		*f.p64 |= 1 << uint(f.w+bit%(64-f.w))
	}
	return true
}
