// Package adapt connects the reference model to the code under test through
// its exported interface.
package adapt

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"

	"verif.local/sim/model"
)

// SIS is the type under test.
type SIS = scte35.SpliceInfoSection

// Errs are the exported error values.
var Errs = []error{scte35.ErrCRC32Invalid, scte35.ErrBufferUnderflow, scte35.ErrBufferOverflow, scte35.ErrUnsupportedEncoding}

// Exported tells whether the error matches an exported error value.
func Exported(err error) bool {
	for _, e := range Errs {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

func p32(v uint32) *uint32 { return &v }
func p64(v *uint64) *uint64 {
	if v == nil {
		return nil
	}
	x := *v
	return &x
}

func brk(d *model.Break) *scte35.BreakDuration {
	if d == nil {
		return nil
	}
	return &scte35.BreakDuration{AutoReturn: d.Auto, Duration: d.Dur}
}

// Build makes the signal through the exported fields. Stuffing, E_CRC_32 and
// the legacy command length have no exported form and are left out.
func Build(s *model.Section) *SIS {
	x := &SIS{}
	x.SAPType = s.SAP
	x.ProtocolVersion = s.Proto
	x.EncryptedPacket = scte35.EncryptedPacket{EncryptionAlgorithm: s.Alg, CWIndex: s.CW}
	x.PTSAdjustment = s.PTSAdj
	x.Tier = s.Tier
	x.SpliceCommand = BuildCmd(&s.Cmd)
	for i := range s.Descs {
		x.SpliceDescriptors = append(x.SpliceDescriptors, BuildDesc(&s.Descs[i]))
	}
	return x
}

// BuildCmd makes a splice command.
func BuildCmd(c *model.Cmd) scte35.SpliceCommand {
	switch c.Type {
	case model.CmdNull:
		return &scte35.SpliceNull{}
	case model.CmdBW:
		return &scte35.BandwidthReservation{}
	case model.CmdTime:
		if c.Time != nil && *c.Time&2 == 0 {
			return scte35.NewTimeSignal(*c.Time)
		}
		return &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: p64(c.Time)}}
	case model.CmdPrivate:
		return &scte35.PrivateCommand{Identifier: c.Ident, PrivateBytes: append([]byte(nil), c.Priv...)}
	case model.CmdSchedule:
		k := &scte35.SpliceSchedule{}
		for i := range c.Events {
			k.Events = append(k.Events, BuildEvent(&c.Events[i]))
		}
		return k
	case model.CmdInsert:
		k := &scte35.SpliceInsert{SpliceEventID: c.ID, SpliceEventCancelIndicator: c.Cancel}
		if c.Cancel {
			return k
		}
		k.OutOfNetworkIndicator = c.OON
		k.SpliceImmediateFlag = c.Imm
		if c.Program {
			k.Program = &scte35.SpliceInsertProgram{}
			if c.Time != nil && !c.Imm {
				k.Program = scte35.NewSpliceInsertProgram(*c.Time)
			}
		} else {
			for _, m := range c.Comps {
				k.Components = append(k.Components, BuildComp(m))
			}
		}
		k.BreakDuration = brk(c.Dur)
		k.UniqueProgramID = c.Prog
		k.AvailNum = c.Avail
		k.AvailsExpected = c.Avails
		return k
	}
	panic("adapt: command type")
}

// BuildComp makes a splice_insert component.
func BuildComp(m model.Comp) scte35.SpliceInsertComponent {
	q := scte35.SpliceInsertComponent{Tag: m.Tag}
	if m.Time != nil {
		q.SpliceTime = &scte35.SpliceTime{PTSTime: p64(m.Time)}
	}
	return q
}

// BuildEvent makes a splice_schedule event.
func BuildEvent(e *model.Event) scte35.Event {
	k := scte35.Event{SpliceEventID: e.ID, SpliceEventCancelIndicator: e.Cancel, EventIDComplianceFlag: e.Compl}
	if e.Cancel {
		return k
	}
	k.OutOfNetworkIndicator = e.OON
	if e.Program {
		k.Program = &scte35.EventProgram{UTCSpliceTime: utc(e.UTC, e.Far)}
	} else {
		for _, m := range e.Comps {
			k.Components = append(k.Components, scte35.EventComponent{Tag: m.Tag, UTCSpliceTime: utc(m.UTC, m.Far)})
		}
	}
	k.BreakDuration = brk(e.Dur)
	k.UniqueProgramID = e.Prog
	k.AvailNum = e.Avail
	k.AvailsExpected = e.Avails
	return k
}

// BuildUPID makes a segmentation UPID the way a user writes it.
func BuildUPID(u *model.UPID) scte35.SegmentationUPID {
	k := scte35.SegmentationUPID{Type: u.Type, Format: u.Format(), Value: u.Text()}
	if id, ok := u.FormatID(); ok {
		k.FormatIdentifier = p32(id)
	}
	return k
}

// BuildAudio makes an audio channel.
func BuildAudio(a model.Audio) scte35.AudioChannel {
	return scte35.AudioChannel{ComponentTag: a.Tag, ISOCode: a.ISO, BitStreamMode: a.Mode, NumChannels: a.Num, FullSrvcAudio: a.Full}
}

// BuildDesc makes a splice descriptor.
func BuildDesc(d *model.Desc) scte35.SpliceDescriptor {
	switch d.Kind {
	case model.DAvail:
		return &scte35.AvailDescriptor{ProviderAvailID: d.Avail}
	case model.DDTMF:
		return &scte35.DTMFDescriptor{Preroll: d.Preroll, DTMFChars: d.Chars}
	case model.DTime:
		return &scte35.TimeDescriptor{TAISeconds: d.TAI, TAINS: d.NS, UTCOffset: d.Off}
	case model.DAudio:
		k := &scte35.AudioDescriptor{}
		for _, a := range d.Audio {
			k.AudioChannels = append(k.AudioChannels, BuildAudio(a))
		}
		return k
	case model.DPriv:
		return &scte35.PrivateDescriptor{PrivateTag: d.Tag, Identifier: d.Ident, PrivateBytes: append([]byte(nil), d.Priv...)}
	case model.DSeg:
		k := &scte35.SegmentationDescriptor{SegmentationEventID: d.ID, SegmentationEventCancelIndicator: d.Cancel, SegmentationEventIDComplianceIndicator: d.Compl}
		if d.Cancel {
			return k
		}
		if d.Restr != nil {
			k.DeliveryRestrictions = &scte35.DeliveryRestrictions{
				WebDeliveryAllowedFlag: d.Restr.Web, NoRegionalBlackoutFlag: d.Restr.NoReg,
				ArchiveAllowedFlag: d.Restr.Arch, DeviceRestrictions: d.Restr.Device}
		}
		for _, m := range d.Comps {
			k.Components = append(k.Components, scte35.SegmentationDescriptorComponent{Tag: m.Tag, PTSOffset: m.Off})
		}
		k.SegmentationDuration = p64(d.Dur)
		for i := range d.UPIDs {
			k.SegmentationUPIDs = append(k.SegmentationUPIDs, BuildUPID(&d.UPIDs[i]))
		}
		k.SegmentationTypeID = d.TypeID
		k.SegmentNum = d.Num
		k.SegmentsExpected = d.Exp
		if d.Sub != nil {
			k.SubSegmentNum = p32(d.Sub[0])
			k.SubSegmentsExpected = p32(d.Sub[1])
		}
		return k
	}
	panic("adapt: descriptor kind " + d.Kind)
}

// View returns the content of a signal as its exported fields show it.
func View(x *SIS) model.View {
	v := make(model.View, 24+28*len(x.SpliceDescriptors))
	v.U("sap", uint64(x.SAPType))
	v.U("proto", uint64(x.ProtocolVersion))
	v.U("alg", uint64(x.EncryptedPacket.EncryptionAlgorithm))
	v.U("adj", x.PTSAdjustment)
	v.U("cw", uint64(x.EncryptedPacket.CWIndex))
	v.U("tier", uint64(x.Tier))
	viewCmd(v, x.SpliceCommand)
	v.U("descs", uint64(len(x.SpliceDescriptors)))
	for i, d := range x.SpliceDescriptors {
		viewDesc(v, "d["+strconv.Itoa(i)+"].", d)
	}
	return v
}

func viewTime(v model.View, p string, t *uint64) {
	v.B(p+"time_flag", t != nil)
	if t != nil {
		v.U(p+"time", *t)
	}
}

func utc(sec uint32, far int8) scte35.UTCSpliceTime {
	t := scte35.NewUTCSpliceTime(sec)
	if far != 0 {
		t.Time = t.Add(time.Duration(far) * (1 << 32) * time.Second)
	}
	return t
}

func viewUTC(v model.View, p string, t scte35.UTCSpliceTime) {
	v[p+"utc"] = strconv.FormatInt(t.Time.Unix(), 10)
	if n := t.Time.Nanosecond(); n != 0 {
		v[p+"utc"] += fmt.Sprintf("+%dns", n)
	}
}

func viewBreak(v model.View, p string, d *scte35.BreakDuration) {
	v.B(p+"dur_flag", d != nil)
	if d != nil {
		v.B(p+"auto", d.AutoReturn)
		v.U(p+"dur", d.Duration)
	}
}

func viewCmd(v model.View, c scte35.SpliceCommand) {
	switch k := c.(type) {
	case nil:
	case *scte35.SpliceNull:
		v.U("cmd.type", model.CmdNull)
	case *scte35.BandwidthReservation:
		v.U("cmd.type", model.CmdBW)
	case *scte35.TimeSignal:
		v.U("cmd.type", model.CmdTime)
		viewTime(v, "cmd.", k.SpliceTime.PTSTime)
	case *scte35.PrivateCommand:
		v.U("cmd.type", model.CmdPrivate)
		v.U("cmd.ident", uint64(k.Identifier))
		v.X("cmd.priv", k.PrivateBytes)
	case *scte35.SpliceInsert:
		v.U("cmd.type", model.CmdInsert)
		v.U("cmd.id", uint64(k.SpliceEventID))
		v.B("cmd.cancel", k.SpliceEventCancelIndicator)
		if k.SpliceEventCancelIndicator {
			return
		}
		v.B("cmd.oon", k.OutOfNetworkIndicator)
		v.B("cmd.program", k.Program != nil)
		v.B("cmd.imm", k.SpliceImmediateFlag)
		if k.Program != nil && !k.SpliceImmediateFlag {
			viewTime(v, "cmd.", k.Program.SpliceTime.PTSTime)
		}
		if k.Program == nil || len(k.Components) > 0 {
			v.U("cmd.comps", uint64(len(k.Components)))
			for i, m := range k.Components {
				p := "cmd.comp[" + strconv.Itoa(i) + "]."
				v.U(p+"tag", uint64(m.Tag))
				if !k.SpliceImmediateFlag {
					var t *uint64
					if m.SpliceTime != nil {
						t = m.SpliceTime.PTSTime
					}
					viewTime(v, p, t)
				}
			}
		}
		viewBreak(v, "cmd.", k.BreakDuration)
		v.U("cmd.prog", uint64(k.UniqueProgramID))
		v.U("cmd.avail", uint64(k.AvailNum))
		v.U("cmd.avails", uint64(k.AvailsExpected))
	case *scte35.SpliceSchedule:
		v.U("cmd.type", model.CmdSchedule)
		v.U("cmd.events", uint64(len(k.Events)))
		for i := range k.Events {
			e := &k.Events[i]
			p := "cmd.ev[" + strconv.Itoa(i) + "]."
			v.U(p+"id", uint64(e.SpliceEventID))
			v.B(p+"cancel", e.SpliceEventCancelIndicator)
			v.B(p+"compl", e.EventIDComplianceFlag)
			if e.SpliceEventCancelIndicator {
				continue
			}
			v.B(p+"oon", e.OutOfNetworkIndicator)
			v.B(p+"program", e.Program != nil)
			if e.Program != nil {
				viewUTC(v, p, e.Program.UTCSpliceTime)
			}
			if e.Program == nil || len(e.Components) > 0 {
				v.U(p+"comps", uint64(len(e.Components)))
				for j, m := range e.Components {
					q := p + "comp[" + strconv.Itoa(j) + "]."
					v.U(q+"tag", uint64(m.Tag))
					viewUTC(v, q, m.UTCSpliceTime)
				}
			}
			viewBreak(v, p, e.BreakDuration)
			v.U(p+"prog", uint64(e.UniqueProgramID))
			v.U(p+"avail", uint64(e.AvailNum))
			v.U(p+"avails", uint64(e.AvailsExpected))
		}
	default:
		v["cmd.type"] = fmt.Sprintf("%T", c)
	}
}

func viewDesc(v model.View, p string, d scte35.SpliceDescriptor) {
	switch k := d.(type) {
	case *scte35.AvailDescriptor:
		v[p+"kind"] = model.DAvail
		v.U(p+"avail", uint64(k.ProviderAvailID))
	case *scte35.DTMFDescriptor:
		v[p+"kind"] = model.DDTMF
		v.U(p+"preroll", uint64(k.Preroll))
		v.S(p+"chars", k.DTMFChars)
	case *scte35.TimeDescriptor:
		v[p+"kind"] = model.DTime
		v.U(p+"tai", k.TAISeconds)
		v.U(p+"ns", uint64(k.TAINS))
		v.U(p+"off", uint64(k.UTCOffset))
	case *scte35.AudioDescriptor:
		v[p+"kind"] = model.DAudio
		v.U(p+"audio", uint64(len(k.AudioChannels)))
		for i, a := range k.AudioChannels {
			q := p + "a[" + strconv.Itoa(i) + "]."
			v.U(q+"tag", uint64(a.ComponentTag))
			v.S(q+"iso", a.ISOCode)
			v.U(q+"mode", uint64(a.BitStreamMode))
			v.U(q+"num", uint64(a.NumChannels))
			v.B(q+"full", a.FullSrvcAudio)
		}
	case *scte35.PrivateDescriptor:
		v[p+"kind"] = model.DPriv
		v.U(p+"tag", uint64(k.PrivateTag))
		v.U(p+"ident", uint64(k.Identifier))
		v.X(p+"priv", k.PrivateBytes)
	case *scte35.SegmentationDescriptor:
		v[p+"kind"] = model.DSeg
		v.U(p+"id", uint64(k.SegmentationEventID))
		v.B(p+"cancel", k.SegmentationEventCancelIndicator)
		v.B(p+"compl", k.SegmentationEventIDComplianceIndicator)
		if k.SegmentationEventCancelIndicator {
			return
		}
		v.B(p+"notrestr", k.DeliveryRestrictions == nil)
		if r := k.DeliveryRestrictions; r != nil {
			v.B(p+"web", r.WebDeliveryAllowedFlag)
			v.B(p+"noreg", r.NoRegionalBlackoutFlag)
			v.B(p+"arch", r.ArchiveAllowedFlag)
			v.U(p+"device", uint64(r.DeviceRestrictions))
		}
		v.U(p+"comps", uint64(len(k.Components)))
		for i, m := range k.Components {
			q := p + "comp[" + strconv.Itoa(i) + "]."
			v.U(q+"tag", uint64(m.Tag))
			v.U(q+"off", m.PTSOffset)
		}
		v.B(p+"dur_flag", k.SegmentationDuration != nil)
		if k.SegmentationDuration != nil {
			v.U(p+"dur", *k.SegmentationDuration)
		}
		v.U(p+"upids", uint64(len(k.SegmentationUPIDs)))
		for i := range k.SegmentationUPIDs {
			m := &k.SegmentationUPIDs[i]
			q := p + "upid[" + strconv.Itoa(i) + "]."
			v.U(q+"type", uint64(m.Type))
			v.S(q+"value", m.Value)
			v[q+"fmt"] = m.Format
			if m.FormatIdentifier != nil {
				v.U(q+"format", uint64(*m.FormatIdentifier))
			}
		}
		v.U(p+"typeid", uint64(k.SegmentationTypeID))
		v.U(p+"num", uint64(k.SegmentNum))
		v.U(p+"exp", uint64(k.SegmentsExpected))
		v.B(p+"sub_flag", k.SubSegmentNum != nil || k.SubSegmentsExpected != nil)
		if k.SubSegmentNum != nil {
			v.U(p+"subnum", uint64(*k.SubSegmentNum))
		}
		if k.SubSegmentsExpected != nil {
			v.U(p+"subexp", uint64(*k.SubSegmentsExpected))
		}
	default:
		v[p+"kind"] = fmt.Sprintf("%T", d)
	}
}

// Dump writes out every exported field of the signal, reached by reflection
// and without calling the code under test. Nil and empty lists look the same.
func Dump(x *SIS) string {
	if x == nil {
		return "nil"
	}
	var b strings.Builder
	dump(&b, reflect.ValueOf(x).Elem())
	return b.String()
}

var timeType = reflect.TypeOf(time.Time{})

func dump(b *strings.Builder, v reflect.Value) {
	if v.Type() == timeType {
		b.WriteString(v.Interface().(time.Time).Format(time.RFC3339Nano))
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dump(b, v.Elem())
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() || f.Name == "XMLName" || f.Name == "JSONType" {
				continue
			}
			b.WriteString(f.Name)
			b.WriteByte(':')
			dump(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString(hex.EncodeToString(v.Bytes()))
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.String:
		b.WriteString(strconv.QuoteToASCII(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	default:
		fmt.Fprintf(b, "<%s>", v.Type())
	}
}

// Forms a signal can travel in.
const (
	Bin   = "bin"
	B64   = "b64"
	Hex   = "hex"
	Hex0x = "0x"
	JSON  = "json"
	XML   = "xml"
)

// Wrap turns binary into its textual form.
func Wrap(form string, b []byte) []byte {
	switch form {
	case B64:
		return []byte(base64.StdEncoding.EncodeToString(b))
	case Hex:
		return []byte(hex.EncodeToString(b))
	case Hex0x:
		return []byte("0x" + hex.EncodeToString(b))
	}
	return b
}

// Unwrap is the inverse of Wrap by the reference; false if there is none.
func Unwrap(form string, b []byte) ([]byte, bool) {
	switch form {
	case B64:
		d, err := base64.StdEncoding.DecodeString(string(b))
		return d, err == nil
	case Hex, Hex0x:
		s := string(b)
		if len(s) >= 2 && s[:2] == "0x" {
			s = s[2:]
		}
		d, err := hex.DecodeString(s)
		return d, err == nil
	}
	return b, true
}

// Load loads a signal into a new object.
func Load(form string, data []byte) (*SIS, error) {
	switch form {
	case B64:
		return scte35.DecodeBase64(string(data))
	case Hex, Hex0x:
		return scte35.DecodeHex(string(data))
	}
	x := &SIS{}
	err := LoadInto(x, form, data)
	return x, err
}

// LoadInto loads a signal into an object (not from base-64 or hexadecimal).
func LoadInto(x *SIS, form string, data []byte) error {
	switch form {
	case Bin:
		return x.Decode(data)
	case JSON:
		return json.Unmarshal(data, x)
	case XML:
		return xml.Unmarshal(data, x)
	}
	panic("adapt: form " + form)
}

// Ops are the read-only operations.
var Ops = []string{"encode", "base64", "hex", "table", "json", "xml", "jsonindent", "xmlindent", "methods", "tablewide", "helpers"}

// Do performs a read-only operation and returns its result as text.
func Do(op string, x *SIS) string {
	switch op {
	case "encode":
		b, err := x.Encode()
		if err != nil {
			return "error: " + err.Error()
		}
		return hex.EncodeToString(b)
	case "base64":
		return x.Base64()
	case "hex":
		return x.Hex()
	case "table":
		return x.Table("", "\t")
	case "json":
		b, err := json.Marshal(x)
		return res(b, err)
	case "xml":
		b, err := xml.Marshal(x)
		return res(b, err)
	case "jsonindent":
		b, err := json.MarshalIndent(x, " ", "\t")
		return res(b, err)
	case "xmlindent":
		b, err := xml.MarshalIndent(x, " ", "\t")
		return res(b, err)
	case "methods":
		return Methods(x)
	case "tablewide":
		return x.Table("%d\t> ", "%s ")
	case "helpers":
		return helpers(x)
	}
	panic("adapt: op " + op)
}

// helpers calls the functions that come with the signals.
func helpers(x *SIS) string {
	var b strings.Builder
	ticks := func(n uint64) {
		d := scte35.TicksToDuration(n)
		fmt.Fprint(&b, n, d, scte35.DurationToTicks(d), ";")
	}
	ticks(x.PTSAdjustment)
	if t := scte35.NewTimeSignal(x.PTSAdjustment).SpliceTime.PTSTime; t != nil {
		fmt.Fprint(&b, *t, ";")
	}
	if x.SpliceCommand != nil {
		t := x.SpliceCommand.Type()
		fmt.Fprintf(&b, "%d %T;", t, scte35.NewSpliceCommand(t))
	}
	for _, d := range x.SpliceDescriptors {
		if d == nil {
			continue
		}
		fmt.Fprintf(&b, "%d %T;", d.Tag(), scte35.NewSpliceDescriptor(scte35.CUEIdentifier, d.Tag()))
		if d, ok := d.(*scte35.SegmentationDescriptor); ok && d != nil {
			if d.SegmentationDuration != nil {
				ticks(*d.SegmentationDuration)
			}
			for _, u := range d.SegmentationUPIDs {
				n := scte35.NewSegmentationUPID(u.Type, []byte("0123"+u.Value))
				fmt.Fprintf(&b, "%d %q %q;", n.Type, n.Format, n.Value)
			}
		}
	}
	return b.String()
}

func res(b []byte, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// Methods calls every exported method without parameters on every object of
// the signal and returns the results as text.
func Methods(x *SIS) string {
	var b strings.Builder
	methods(&b, reflect.ValueOf(x), "")
	return b.String()
}

var pkgPath = reflect.TypeOf(SIS{}).PkgPath()

func methods(b *strings.Builder, v reflect.Value, path string) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			methods(b, v.Elem(), path)
		}
		return
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Elem().Kind() != reflect.Struct {
			return
		}
		call(b, v, path)
		fields(b, v.Elem(), path)
	case reflect.Struct:
		if v.CanAddr() {
			call(b, v.Addr(), path)
		}
		fields(b, v, path)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			methods(b, v.Index(i), path+"["+strconv.Itoa(i)+"]")
		}
	}
}

func fields(b *strings.Builder, v reflect.Value, path string) {
	if v.Type().PkgPath() != pkgPath {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.IsExported() {
			methods(b, v.Field(i), path+"."+f.Name)
		}
	}
}

type method struct {
	i    int
	name string
}

// askable lists the methods that only answer.
func askable(t reflect.Type) (ms []method) {
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() == 0 {
			continue
		}
		if _, ok := timeType.MethodByName(m.Name); ok {
			continue
		}
		ms = append(ms, method{i, m.Name})
	}
	return ms
}

// asked has the methods of the package's types; it is not written to later, so
// that it puts no order between tasks.
var asked = map[reflect.Type][]method{}

func init() {
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice:
			walk(t.Elem())
		case reflect.Struct:
			p := reflect.PointerTo(t)
			if _, ok := asked[p]; ok || t.PkgPath() != pkgPath {
				return
			}
			asked[p] = askable(p)
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}
		}
	}
	for _, x := range []any{SIS{}, scte35.SpliceNull{}, scte35.SpliceInsert{}, scte35.SpliceSchedule{}, scte35.TimeSignal{}, scte35.PrivateCommand{}, scte35.BandwidthReservation{},
		scte35.AvailDescriptor{}, scte35.DTMFDescriptor{}, scte35.SegmentationDescriptor{}, scte35.TimeDescriptor{}, scte35.AudioDescriptor{}, scte35.PrivateDescriptor{}} {
		walk(reflect.TypeOf(x))
	}
}

func call(b *strings.Builder, v reflect.Value, path string) {
	t := v.Type()
	if t.Elem().PkgPath() != pkgPath {
		return
	}
	ms, ok := asked[t]
	if !ok {
		ms = askable(t)
	}
	for _, m := range ms {
		out := v.Method(m.i).Call(nil)
		b.WriteString(path)
		b.WriteByte('.')
		b.WriteString(m.name)
		b.WriteByte('=')
		for _, o := range out {
			switch {
			case o.Kind() == reflect.Slice && o.Type().Elem().Kind() == reflect.Uint8:
				b.WriteString(strconv.QuoteToASCII(string(o.Bytes())))
			case o.Kind() == reflect.String:
				b.WriteString(strconv.QuoteToASCII(o.String()))
			case o.Kind() == reflect.Interface && o.IsNil():
				b.WriteString("nil")
			case o.Kind() == reflect.Pointer:
				b.WriteString("ptr")
			default:
				fmt.Fprint(b, o.Interface())
			}
			b.WriteByte(';')
		}
		b.WriteByte('\n')
	}
}
