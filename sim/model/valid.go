package model

import (
	"errors"
	"fmt"
)

// Check tells whether the section is inside the domain the properties speak
// of; size asks for the standard's limits too. Shrinking relies on it.
func (s *Section) Check(d Domain, size bool) error {
	if s.SAP > 3 || s.Proto > 255 || s.Alg > 63 || s.PTSAdj >= 1<<33 || s.CW > 255 || s.Tier > 0xFFF {
		return errors.New("header")
	}
	if s.Alg != 0 && !d.Enc {
		return errors.New("alg")
	}
	if len(s.Stuff) > 0 && !d.Stuff {
		return errors.New("stuffing")
	}
	if s.Legacy && (!d.Legacy || s.Cmd.Type == CmdPrivate) {
		return errors.New("legacy")
	}
	c := &s.Cmd
	t33 := func(p *uint64) bool { return p == nil || *p < 1<<33 }
	brk := func(b *Break) bool { return b == nil || b.Dur < 1<<33 }
	switch c.Type {
	case CmdNull, CmdBW:
	case CmdTime:
		if !t33(c.Time) {
			return errors.New("time")
		}
	case CmdPrivate:
	case CmdInsert:
		if c.Cancel {
			if c.OON || c.Program || c.Imm || c.Time != nil || len(c.Comps) > 0 || c.Dur != nil || c.Prog != 0 || c.Avail != 0 || c.Avails != 0 {
				return errors.New("cancelled insert")
			}
			break
		}
		if c.Program && len(c.Comps) > 0 || !c.Program && c.Time != nil || c.Imm && c.Time != nil || !t33(c.Time) || !brk(c.Dur) {
			return errors.New("insert")
		}
		for _, k := range c.Comps {
			if k.Tag > 255 || c.Imm && k.Time != nil || !t33(k.Time) {
				return errors.New("component")
			}
		}
		if c.Prog > 0xFFFF || c.Avail > 255 || c.Avails > 255 {
			return errors.New("insert fields")
		}
	case CmdSchedule:
		for i := range c.Events {
			e := &c.Events[i]
			if e.Cancel {
				if e.Far != 0 || e.OON || e.Program || e.UTC != 0 || len(e.Comps) > 0 || e.Dur != nil || e.Prog != 0 || e.Avail != 0 || e.Avails != 0 {
					return errors.New("cancelled event")
				}
				continue
			}
			if e.Far != 0 || e.Program && len(e.Comps) > 0 || !e.Program && e.UTC != 0 || !brk(e.Dur) || e.Prog > 0xFFFF || e.Avail > 255 || e.Avails > 255 {
				return errors.New("event")
			}
			for _, k := range e.Comps {
				if k.Tag > 255 || k.Far != 0 {
					return errors.New("event component")
				}
			}
		}
	default:
		return errors.New("command type")
	}
	if c.Type != CmdSchedule && len(c.Events) > 0 || c.Type != CmdPrivate && (len(c.Priv) > 0 || c.Ident != 0) {
		return errors.New("foreign fields")
	}
	for i := range s.Descs {
		if err := s.Descs[i].Check(d); err != nil {
			return fmt.Errorf("descriptor %d: %w", i, err)
		}
	}
	if size {
		e, err := s.Encode()
		if err != nil {
			return err
		}
		if e.SectionLength > 4093 {
			return ErrTooLarge
		}
	}
	return nil
}

func xmlText(b string) bool {
	for _, r := range b {
		if r < 0x20 || r >= 0x7F && r < 0xA0 {
			return false
		}
	}
	return true
}

// Check is Section.Check for a descriptor.
func (x *Desc) Check(d Domain) error {
	switch x.Kind {
	case DAvail:
	case DDTMF:
		if x.Preroll > 255 {
			return errors.New("preroll")
		}
		for _, r := range x.Chars {
			if r < 0x20 || r > 0x7E || r == ' ' {
				return errors.New("chars")
			}
		}
	case DTime:
		if x.TAI >= 1<<48 || x.Off > 0xFFFF {
			return errors.New("time")
		}
	case DAudio:
		for _, a := range x.Audio {
			if a.Tag > 255 || len(a.ISO) != 3 || a.Mode > 7 || a.Num > 15 {
				return errors.New("audio")
			}
			for _, r := range a.ISO {
				if r < 'A' || r > 'z' {
					return errors.New("iso")
				}
			}
		}
	case DPriv:
		if x.Tag > 255 || x.Ident == CUEI && x.Tag <= 4 {
			return errors.New("private")
		}
	case DSeg:
		if x.Cancel {
			if x.Restr != nil || len(x.Comps) > 0 || x.Dur != nil || len(x.UPIDs) > 0 || x.TypeID != 0 || x.Num != 0 || x.Exp != 0 || x.Sub != nil {
				return errors.New("cancelled")
			}
			return nil
		}
		if x.Restr != nil && x.Restr.Device > 3 || x.Dur != nil && *x.Dur >= 1<<40 || x.TypeID > 255 || x.Num > 255 || x.Exp > 255 {
			return errors.New("segmentation")
		}
		for _, k := range x.Comps {
			if k.Tag > 255 || k.Off >= 1<<33 {
				return errors.New("component")
			}
		}
		if x.Sub != nil && (!SubTypes[x.TypeID] || x.Sub[0] > 255 || x.Sub[1] > 255) {
			return errors.New("sub-segments")
		}
		for _, k := range x.UPIDs {
			if k.Bad != "" {
				return errors.New("upid without a binary form")
			}
			if k.Type == 0 || k.Type == 0x0D || k.Type > 255 || len(k.Raw) == 0 ||
				k.Type == 0x08 && len(k.Raw) != 8 || k.Type == 0x0A && len(k.Raw) != 12 || k.Type == 0x0C && len(k.Raw) < 4 {
				return errors.New("upid")
			}
			if d.XML && k.Format() == "text" && k.Type != 0x08 && k.Type != 0x0A {
				t := k.Text()
				if !xmlText(t) || t[0] == ' ' || t[len(t)-1] == ' ' || k.Raw[0] == 0xA0 || k.Raw[len(k.Raw)-1] == 0xA0 {
					return errors.New("upid in XML")
				}
			}
		}
	default:
		return errors.New("kind")
	}
	return nil
}
