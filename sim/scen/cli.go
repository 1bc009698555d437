//go:build oshook

package scen

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/Comcast/scte35-go/cmd"
	"github.com/Comcast/scte35-go/pkg/scte35"

	"verif.local/sim/adapt"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/realmain"
	"verif.local/sim/rng"
	"verif.local/sim/vsim"
)

// CliPlan is a sequence of uses of the command line tool.
type CliPlan struct {
	Runs []CliRun `json:"runs"`
	Zone int      `json:"zone,omitempty"`
}

// CliRun is one use.
type CliRun struct {
	Cmd    string         `json:"cmd"`            // encode, decode, misuse
	Args   []string       `json:"args,omitempty"` // of a misuse
	Form   string         `json:"form"`           // of the input
	Sec    *model.Section `json:"sec,omitempty"`
	Text   string         `json:"text,omitempty"` // instead of a section
	Indent bool           `json:"indent,omitempty"`
	Pad    int            `json:"pad,omitempty"`   // white space before the document
	Fill   int            `json:"fill,omitempty"`  // white space inside it
	Style  uint64         `json:"style,omitempty"` // how another tool writes it
	BM     []BMut         `json:"bm,omitempty"`
	TM     []TMut         `json:"tm,omitempty"`
	// Reads are the sizes of the reads, repeated; 0 reads a line.
	Reads []int `json:"reads,omitempty"`
	// Cut ends the input after Cut-1 bytes.
	Cut int `json:"cut,omitempty"`
	// Fail lets reads fail from byte Fail-1 on.
	Fail  int    `json:"fail,omitempty"`
	Errno int    `json:"errno,omitempty"`
	Out   string `json:"out,omitempty"` // format asked for
	// WFail lets writes to standard output fail from the WFail-th on.
	WFail int `json:"wfail,omitempty"`
}

var errnos = []error{syscall.EIO, syscall.EBADF, syscall.EAGAIN, syscall.EISDIR, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, os.ErrClosed}

func genCli(prop string, r *rng.R) *CliPlan {
	p := &CliPlan{Zone: drawZone(r)}
	g := &model.Gen{R: r, D: model.Domain{Enc: true, Stuff: true, Legacy: true}}
	for k := r.In(1, 4); k > 0; k-- {
		g.D.Big = r.One(8)
		c := CliRun{Cmd: rng.Pick(r, "encode", "encode", "decode"), Sec: g.Section()}
		if r.One(50) {
			// the wrong number of arguments
			c = CliRun{Cmd: "misuse", Args: []string{rng.Pick(r, "decode", "encode")}}
			n := r.In(2, 4)
			if c.Args[0] == "decode" && r.Bool() {
				n = 0
			}
			for ; n > 0; n-- {
				c.Args = append(c.Args, rng.Pick(r, "", "{}", "x", `{"tier":1,"spliceCommand":{"type":0}}`, string(adapt.Wrap(adapt.B64, g.Section().Bytes()))))
			}
			p.Runs = append(p.Runs, c)
			continue
		}
		if c.Cmd == "decode" {
			c.Form = rng.Pick(r, adapt.B64, adapt.Hex0x, adapt.Hex0x, adapt.B64, adapt.Hex)
			c.Out = rng.Pick(r, "", "json", "xml", "text")
			n := len(c.Sec.Bytes())
			for m := rng.Pick(r, 0, 0, 1, 1, 2); m > 0; m-- {
				if r.One(4) {
					c.TM = append(c.TM, drawTMut(r, c.Form, 2*n))
				} else {
					c.BM = append(c.BM, drawBMut(r, n))
				}
			}
			if r.One(8) {
				c.WFail = r.In(1, 3)
			}
			p.Runs = append(p.Runs, c)
			continue
		}
		c.Form = rng.Pick(r, adapt.JSON, adapt.XML)
		c.Indent = r.Bool()
		if r.One(3) {
			c.Style = r.U64() | 1
		}
		switch {
		case r.One(12):
			c.Pad = r.In(1, 70000)
		case r.One(12):
			c.Fill = r.In(1, 140000)
		case r.One(40):
			c.Fill = rng.Pick(r, 1<<18, 1<<20, 1<<21) + r.N(3000)
		case r.One(4):
			c.Pad = r.In(1, 5)
		}
		switch {
		case r.One(16):
			c.Sec, c.Text = nil, rng.Pick(r, "", " ", "\n", "null", "{", "<", "{}", "<a/>", "[]", "x", "/DAvAAAAAAAA", "0xFC302F")
		case r.One(4):
			for m := r.In(1, 2); m > 0; m-- {
				c.TM = append(c.TM, drawTMut(r, c.Form, 900))
			}
		}
		for m := r.In(1, 5); m > 0; m-- {
			c.Reads = append(c.Reads, rng.Pick(r, 0, 0, 1, 2, 3, 7, 100, 512, 4096, 1<<20, r.In(1, 60)))
		}
		if c.Fill > 200000 {
			c.Reads = append(c.Reads, 1<<16)
		}
		switch {
		case r.One(4):
			c.Cut = 1 + r.N(rng.Pick(r, 60, 1500))
		case r.One(3):
			c.Fail, c.Errno = 1+r.N(rng.Pick(r, 60, 1500, 6000)), r.N(len(errnos))
		}
		if r.One(12) {
			c.WFail = r.In(1, 3)
		}
		p.Runs = append(p.Runs, c)
	}
	return p
}

func (p *CliPlan) check() string {
	for i := range p.Runs {
		c := &p.Runs[i]
		if c.Sec != nil {
			if err := c.Sec.Check(model.Domain{Enc: true, Stuff: true, Legacy: true}, true); err != nil {
				return err.Error()
			}
		}
		if c.Pad < 0 || c.Fill < 0 || c.Pad > 200000 || c.Fill > 1<<22 || c.Cut < 0 || c.Fail < 0 || c.Errno < 0 || c.WFail < 0 {
			return "negative"
		}
		for _, n := range c.Reads {
			if n < 0 {
				return "reads"
			}
		}
		switch c.Cmd {
		case "encode":
			if c.Form != adapt.JSON && c.Form != adapt.XML {
				return "form"
			}
		case "decode":
			if c.Form != adapt.B64 && c.Form != adapt.Hex && c.Form != adapt.Hex0x || c.Sec == nil {
				return "form"
			}
			switch c.Out {
			case "", "json", "xml", "text":
			default:
				return "format"
			}
		case "misuse":
			if len(c.Args) == 0 || c.Args[0] != "decode" && (c.Args[0] != "encode" || len(c.Args) < 3) || len(c.Args) == 2 {
				return "arguments"
			}
			for _, a := range c.Args[1:] {
				if strings.HasPrefix(a, "-") {
					return "arguments"
				}
			}
		default:
			return "command"
		}
	}
	return ""
}

// console is what the tool's standard streams are connected to.
type console struct {
	in     []byte
	pos    int
	reads  []int
	nread  int
	failAt int // -1: never
	err    error
	wfail  int
	wrote  int
	out    bytes.Buffer
	errs   bytes.Buffer
	exit   int
	short  int
}

type exitSignal struct{}

func (c *console) read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if c.failAt >= 0 && c.pos >= c.failAt {
		return 0, &fs.PathError{Op: "read", Path: "/dev/stdin", Err: c.err}
	}
	if c.pos >= len(c.in) {
		return 0, io.EOF
	}
	n := len(c.in) - c.pos
	if len(c.reads) > 0 {
		k := c.reads[c.nread%len(c.reads)]
		c.nread++
		if k == 0 {
			if j := bytes.IndexByte(c.in[c.pos:], '\n'); j >= 0 {
				k = j + 1
			} else {
				k = n
			}
		}
		n = min(n, k)
	}
	n = min(n, len(b))
	if c.failAt >= 0 {
		n = min(n, c.failAt-c.pos)
	}
	copy(b, c.in[c.pos:c.pos+n])
	if c.pos+n < len(c.in) {
		c.short++
	}
	c.pos += n
	return n, nil
}

func (c *console) write(fd int, b []byte) (int, error) {
	if fd == 2 {
		return c.errs.Write(b)
	}
	c.wrote++
	if c.wfail > 0 && c.wrote >= c.wfail {
		return 0, &fs.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.ENOSPC}
	}
	return c.out.Write(b)
}

// run runs the tool in this process.
func (c *console) run(args ...string) (problem string) {
	os.VerifRead, os.VerifWrite, os.VerifExit = c.read, c.write, func(code int) {
		c.exit = code
		panic(exitSignal{})
	}
	vsim.Printed = func(s string) { c.errs.WriteString(s) }
	oldArgs, oldLog := os.Args, scte35.Logger
	os.Args = append([]string{"scte35"}, args...)
	log.SetFlags(0)
	log.SetOutput(os.Stderr)
	scte35.Logger = log.Default()
	defer func() {
		os.VerifRead, os.VerifWrite, os.VerifExit, vsim.Printed = nil, nil, nil, nil
		os.Args, scte35.Logger = oldArgs, oldLog
	}()
	return core.Guard(core.Budget(40000+20*len(c.in)), func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(exitSignal); !ok {
					panic(r)
				}
			}
		}()
		if realmain.Real {
			realmain.Main()
			return
		}
		t := cmd.SCTE35()
		if err := t.Execute(); err != nil {
			fmt.Fprintf(os.Stderr, "Error: %s", err)
		}
	})
}

// encodings returns the words of a text that are an encoded section.
func encodings(s string) (out []string) {
	for _, w := range strings.Fields(s) {
		if b, err := base64.StdEncoding.DecodeString(w); err == nil && len(b) > 14 && b[0] == 0xFC {
			out = append(out, w)
		} else if b, err := hex.DecodeString(strings.TrimPrefix(w, "0x")); err == nil && len(b) > 14 && b[0] == 0xFC {
			out = append(out, w)
		}
	}
	return
}

func execCli(p *CliPlan, o *core.Out) {
	if m := p.check(); m != "" {
		o.Invalid = m
		return
	}
	for i := range p.Runs {
		time.Local = zone(p.Zone)
		c := &p.Runs[i]
		switch c.Cmd {
		case "decode":
			cliDecode(c, i, o)
		case "misuse":
			cliMisuse(c, i, o)
		default:
			cliEncode(c, i, o)
		}
		if len(o.Viol) > 0 {
			return
		}
	}
	o.Inter = o.Hash
}

// logTo collects the library's diagnostics until the returned function is called.
func logTo(w *bytes.Buffer) func() {
	old := scte35.Logger
	scte35.Logger = log.New(w, "", 0)
	return func() { scte35.Logger = old }
}

// falseError tells whether standard error has a line that reports an error,
// other than the library's diagnostics.
func falseError(errs, diag string) bool {
	known := map[string]bool{}
	for _, l := range strings.Split(diag, "\n") {
		known[l] = true
	}
	for _, l := range strings.Split(errs, "\n") {
		if strings.HasPrefix(l, "Error") && !known[l] {
			return true
		}
	}
	return false
}

// cliMisuse runs the tool with a wrong number of arguments.
func cliMisuse(c *CliRun, i int, o *core.Out) {
	const prop = "C11"
	t := &console{failAt: -1}
	if prob := t.run(c.Args...); prob != "" {
		o.Fail(prop, "crash: "+core.Cls(prob), "run %d, %q: %s", i, c.Args, prob)
		return
	}
	o.Fault("wrong arguments")
	out, errs := t.out.String(), t.errs.String()
	o.Log("run %d %q: %q %q", i, c.Args, clip(out, ""), clip(errs, ""))
	o.Result(out + errs)
	if e := encodings(out); c.Args[0] == "encode" && len(e) > 0 {
		o.Fail(prop, "encoding of broken input", "run %d, %q: %q is printed", i, c.Args, clip(e[0], ""))
	}
	if errs == "" {
		o.Fail(prop, "no error", "run %d, %q: nothing is printed to standard error", i, c.Args)
	}
}

func cliDecode(c *CliRun, i int, o *core.Out) {
	const prop = "C11"
	e, err := c.Sec.Map()
	if err != nil {
		o.Invalid = err.Error()
		return
	}
	b := damage(e.B, c.BM, e.Spans)
	countB(o, c.BM)
	arg := tdamage(c.Form, string(adapt.Wrap(c.Form, b)), c.TM)
	countT(o, c.TM)
	args := []string{"decode", arg}
	if c.Out != "" {
		args = []string{"decode", "--out", c.Out, arg}
		if len(arg)%2 == 0 {
			args = []string{"decode", arg, "--out=" + c.Out}
		}
	}
	where := fmt.Sprintf("run %d, decode %q as %s", i, clip(arg, ""), c.Out)
	t := &console{failAt: -1, wfail: c.WFail}
	if prob := t.run(args...); prob != "" {
		o.Fail(prop, "crash: "+core.Cls(prob), "%s: %s", where, prob)
		return
	}
	o.Log("run %d decode %s: %d bytes out, %q", i, c.Out, t.out.Len(), clip(t.errs.String(), ""))
	o.Result(t.out.String() + t.errs.String())
	if c.WFail > 0 {
		o.Fault("standard output fails")
		return
	}
	if strings.HasPrefix(arg, "-") {
		return // an option
	}
	// what the library gives
	form := c.Form
	if strings.HasPrefix(arg, "0x") {
		form = adapt.Hex
	} else {
		form = adapt.B64
	}
	var x *adapt.SIS
	var want string
	var diag bytes.Buffer
	if prob := core.Guard(core.Budget(40000), func() {
		defer logTo(&diag)()
		x, err = adapt.Load(form, []byte(arg))
		switch c.Out {
		case "json":
			b, _ := json.MarshalIndent(x, "", "\t")
			want = string(b)
		case "xml":
			b, _ := xml.MarshalIndent(x, "", "\t")
			want = string(b)
		default:
			want = x.Table("", "\t")
		}
	}); prob != "" {
		o.Fail(prop, "crash: "+core.Cls(prob), "%s: %s", where, prob)
		return
	}
	if got := t.out.String(); got != want+"\n" {
		o.Fail(prop, "wrong details", "%s: prints %q, the library gives %q", where, clip(got, want), clip(want, got))
	}
	if err != nil {
		o.Probe("damaged signal on the command line")
		if !strings.Contains(t.errs.String(), err.Error()) {
			o.Fail(prop, "error not printed", "%s: standard error is %q, the error is %v", where, clip(t.errs.String(), ""), err)
		}
	} else if s := t.errs.String(); falseError(s, diag.String()) {
		o.Fail(prop, "false error", "%s: prints %q", where, clip(s, ""))
	} else {
		differ(o, prop, "wrong content", where, c.Sec.View(), adapt.View(x))
	}
}

func cliEncode(c *CliRun, i int, o *core.Out) {
	const prop = "C11"
	text := c.Text
	if c.Sec != nil {
		x := &adapt.SIS{}
		if err := x.Decode(c.Sec.Bytes()); err != nil {
			o.Fail(prop, "signal refused", "run %d: %v", i, err)
			return
		}
		op := c.Form
		if c.Indent {
			op += "indent"
		}
		text = adapt.Do(op, x)
		if c.Style != 0 {
			if b := restyle(c.Style, c.Form, []byte(text), true, true); b != nil {
				text = string(b)
				o.Fault("document written by another tool")
			}
		}
		if c.Fill > 0 {
			// after the first tag or brace
			k := 1
			if c.Form == adapt.XML {
				k = strings.IndexByte(text, '>') + 1
			}
			text = text[:k] + strings.Repeat(" ", c.Fill) + text[k:]
		}
	}
	text = strings.Repeat(" ", c.Pad) + text
	text = tdamage(c.Form, text, c.TM)
	countT(o, c.TM)
	whole := text
	if c.Cut > 0 {
		text = text[:mod(c.Cut-1, len(text)+1)]
		o.Fault("input ends early")
	}
	t := &console{in: []byte(text), reads: c.Reads, failAt: -1, wfail: c.WFail}
	if c.Fail > 0 {
		t.failAt = mod(c.Fail-1, len(text)+1)
		t.err = errnos[c.Errno%len(errnos)]
		o.Fault("read error")
	}
	where := fmt.Sprintf("run %d, encode with %d bytes %q on standard input", i, len(text), clip(text, ""))
	if c.Fail > 0 {
		where += fmt.Sprintf(" of which a read fails after %d (%v)", t.failAt, t.err)
	}
	if prob := t.run("encode"); prob != "" {
		o.Fail(prop, "crash: "+core.Cls(prob), "%s: %s", where, prob)
		return
	}
	if t.short > 0 {
		o.Fault("short read")
	}
	out, errs := t.out.String(), t.errs.String()
	o.Log("run %d encode: %q %q", i, clip(out, ""), clip(errs, ""))
	o.Result(out + errs)
	if c.WFail > 0 {
		o.Fault("standard output fails")
		return
	}
	failed := func(why string) {
		if errs == "" {
			o.Fail(prop, "no error", "%s: %s, but nothing is printed to standard error", where, why)
		}
		if e := encodings(out); len(e) > 0 {
			o.Fail(prop, "encoding of broken input", "%s: %s, but %q is printed", where, why, clip(e[0], ""))
		}
	}
	if c.Fail > 0 {
		failed("a read fails")
		return
	}
	if c.Cut > 0 && c.Sec != nil && len(c.TM) == 0 && len(text) < len(strings.TrimRight(whole, " \t\r\n")) {
		failed("the input ends early")
	}
	// the library
	var x *adapt.SIS
	var err error
	var b64, hx string
	var diag bytes.Buffer
	if prob := core.Guard(core.Budget(40000+20*len(text)), func() {
		defer logTo(&diag)()
		switch s := strings.TrimSpace(text); {
		case strings.HasPrefix(s, "<"):
			err = xml.Unmarshal([]byte(text), &x)
		case strings.HasPrefix(s, "{"):
			err = json.Unmarshal([]byte(text), &x)
		default:
			err = fmt.Errorf("neither")
		}
		if err == nil {
			b64, hx = x.Base64(), x.Hex()
		}
	}); prob != "" {
		o.Fail(prop, "crash: "+core.Cls(prob), "%s: %s", where, prob)
		return
	}
	if err != nil || b64 == "" {
		failed(fmt.Sprintf("the library refuses it (%v)", err))
	} else {
		o.Probe("encoded by the tool")
		if e := encodings(out); len(e) != 2 || e[0] != b64 || e[1] != hx {
			o.Fail(prop, "wrong encoding", "%s: prints %q, the library gives %q and %q", where, clip(out, ""), clip(b64, ""), clip(hx, ""))
		}
		if falseError(errs, diag.String()) {
			o.Fail(prop, "false error", "%s: prints %q to standard error", where, clip(errs, ""))
		}
		if c.Sec != nil && len(c.TM) == 0 && c.Cut == 0 && c.Sec.Alg == 0 && (c.Form != adapt.XML || fitsXML(c.Sec)) {
			m := c.Sec.Clone()
			m.Legacy, m.Stuff = false, nil
			if w := fmt.Sprintf("%x", m.Bytes()); w != hx {
				o.Fail(prop, "wrong encoding", "%s: gives %s, should be %s", where, clip(hx, w), clip(w, hx))
			}
		}
	}
	// as an argument
	if strings.HasPrefix(text, "-") || strings.ContainsRune(text, 0) {
		return
	}
	a := &console{failAt: -1}
	if prob := a.run("encode", text); prob != "" {
		o.Fail(prop, "crash: "+core.Cls(prob), "%s, as an argument: %s", where, prob)
		return
	}
	if a.out.String() != out {
		o.Fail(prop, "argument and standard input differ", "%s: prints %q, as an argument %q", where, clip(out, a.out.String()), clip(a.out.String(), out))
	}
	if (a.errs.Len() == 0) != (errs == "") {
		o.Fail(prop, "argument and standard input differ", "%s: prints %q to standard error, as an argument %q", where, clip(errs, ""), clip(a.errs.String(), ""))
	}
}

func init() {
	core.Register(core.S[CliPlan]{ID: "cli", G: genCli, E: execCli}, map[string]int{"C11": 1})
}
