package scen

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"

	"verif.local/sim/adapt"
)

// Envelopes are the larger documents that gateways carry signals in: a list of
// signals, a member of a record, an element of a notification.
const envelopes = 6

type jsonRecord struct {
	ID     uint32      `json:"id"`
	Signal *adapt.SIS  `json:"signal"`
	Note   string      `json:"note"`
	Other  *adapt.SIS  `json:"other,omitempty"`
	More   []adapt.SIS `json:"more,omitempty"`
}

type jsonValue struct {
	ID     uint32    `json:"id"`
	Signal adapt.SIS `json:"signal"`
}

type xmlRecord struct {
	XMLName xml.Name   `xml:"urn:cablelabs:iptvservices:esam:xsd:signal:1 SignalProcessingNotification"`
	ID      uint32     `xml:"acquisitionSignalID,attr"`
	Signal  *adapt.SIS `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
}

type xmlList struct {
	XMLName xml.Name     `xml:"Signals"`
	Signals []*adapt.SIS `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
}

type xmlValues struct {
	XMLName xml.Name    `xml:"urn:example:batch Batch"`
	Count   uint32      `xml:"count"`
	Signals []adapt.SIS `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
}

type xmlDeep struct {
	XMLName xml.Name   `xml:"Event"`
	Note    string     `xml:"Note"`
	Signal  *adapt.SIS `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
}

// byValue tells that the signal itself is marshalled, not a pointer to it; the
// JSON then has members that say nothing.
func byValue(env int) bool { return env == 3 }

// enclose writes x, and y where there is room for another and y is not nil.
func enclose(form string, env int, indent bool, x, y *adapt.SIS) ([]byte, error) {
	var v any
	if form == adapt.JSON {
		switch env {
		case 1:
			v = []*adapt.SIS{x}
			if y != nil {
				v = []*adapt.SIS{x, y}
			}
		case 2:
			v = &jsonRecord{ID: 7, Signal: x, Note: "a note", Other: y}
		case 3:
			v = jsonValue{ID: 7, Signal: *x}
		case 4:
			m := map[string]any{"signal": x, "id": 9}
			if y != nil {
				m["other"] = y
			}
			v = m
		case 5:
			r := &jsonRecord{ID: 1, Signal: x}
			if y != nil {
				r.More = []adapt.SIS{*y, *x}
			}
			v = r
		default:
			b, err := json.Marshal(x)
			if err != nil {
				return nil, err
			}
			v = map[string]json.RawMessage{"signal": b}
		}
		if indent {
			return json.MarshalIndent(v, "", "\t")
		}
		return json.Marshal(v)
	}
	switch env {
	case 1:
		v = &xmlList{Signals: []*adapt.SIS{x}}
		if y != nil {
			v = &xmlList{Signals: []*adapt.SIS{x, y}}
		}
	case 2:
		v = &xmlRecord{ID: 7, Signal: x}
	case 3, 4:
		l := xmlValues{Count: 1, Signals: []adapt.SIS{*x}}
		if y != nil {
			l = xmlValues{Count: 2, Signals: []adapt.SIS{*x, *y}}
		}
		if v = l; env == 4 {
			v = &l
		}
	default:
		v = &xmlDeep{Note: "a < note", Signal: x}
	}
	var b bytes.Buffer
	e := xml.NewEncoder(&b)
	if indent {
		e.Indent("", "\t")
	}
	if err := e.Encode(v); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// disclose reads what enclose wrote; the first signal goes into x where the
// envelope allows it.
func disclose(form string, env int, data []byte, chunk int, x *adapt.SIS) (a, b *adapt.SIS, err error) {
	load := func(v any) error {
		switch {
		case chunk > 0 && form == adapt.JSON:
			return json.NewDecoder(&chunks{data, chunk}).Decode(v)
		case chunk > 0:
			return xml.NewDecoder(&chunks{data, chunk}).Decode(v)
		case form == adapt.JSON:
			return json.Unmarshal(data, v)
		}
		return xml.Unmarshal(data, v)
	}
	pick := func(l []*adapt.SIS) (a, b *adapt.SIS, err error) {
		switch len(l) {
		case 1:
			return l[0], nil, nil
		case 2:
			return l[0], l[1], nil
		}
		return x, nil, fmt.Errorf("a list of %d signals", len(l))
	}
	if form == adapt.JSON {
		switch env {
		case 1:
			// a list used before: its elements are loaded in place
			l := []*adapt.SIS{x}
			if err := load(&l); err != nil {
				return x, nil, err
			}
			return pick(l)
		case 3:
			var v jsonValue
			v.Signal = *x
			err := load(&v)
			return &v.Signal, nil, err
		case 4:
			// without a type for what else the document has
			m := map[string]json.RawMessage{}
			if err := load(&m); err != nil {
				return x, nil, err
			}
			var id uint32
			if err := json.Unmarshal(m["id"], &id); err != nil {
				return x, nil, err
			}
			if o := m["other"]; o != nil {
				b = &adapt.SIS{}
				if err := json.Unmarshal(o, b); err != nil {
					return x, nil, err
				}
			}
			return x, b, json.Unmarshal(m["signal"], x)
		case 5:
			v := jsonRecord{Signal: x, More: make([]adapt.SIS, 0, 4)}
			if err := load(&v); err != nil {
				return x, nil, err
			}
			if len(v.More) > 0 {
				b = &v.More[0]
			}
			return v.Signal, b, nil
		}
		v := jsonRecord{Signal: x}
		if err := load(&v); err != nil {
			return x, nil, err
		}
		return v.Signal, v.Other, nil
	}
	switch env {
	case 1:
		var l xmlList
		if err := load(&l); err != nil {
			return x, nil, err
		}
		return pick(l.Signals)
	case 2:
		v := xmlRecord{Signal: x}
		err := load(&v)
		return v.Signal, nil, err
	case 3, 4:
		var l xmlValues
		if err := load(&l); err != nil {
			return x, nil, err
		}
		if len(l.Signals) == 0 || len(l.Signals) > 2 || int(l.Count) != len(l.Signals) {
			return x, nil, errors.New("signals missing")
		}
		if len(l.Signals) == 2 {
			b = &l.Signals[1]
		}
		return &l.Signals[0], b, nil
	}
	v := xmlDeep{Signal: x}
	err = load(&v)
	return v.Signal, nil, err
}
