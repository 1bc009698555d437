// Command instr writes instrumented copies of the code under test and an
// overlay file that makes the go tool compile them instead of the originals.
//
//	instr -repo /repo -out DIR
//
// Every statement is preceded by a call of vsim.Y with the number of its
// place, package sync is replaced by the simulator's, go statements start
// simulated tasks and the wall clock is the simulator's. Line numbers stay as
// they are. The integer and string constants of the sources are collected in
// DIR/dict.json; the generators mix them into the values they draw.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off  int
	end  int // bytes replaced: [off,end)
	text string
	seq  int
}

type dict struct {
	Ints    []uint64          `json:"ints"`
	Strings []string          `json:"strings"`
	Sites   map[string]string `json:"sites,omitempty"`
	// Goroutines and Channels: the code starts goroutines, or may block in
	// something that is not simulated.
	Goroutines bool `json:"goroutines,omitempty"`
	Channels   bool `json:"channels,omitempty"`
}

var hasGo, hasChan bool

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		fatal("no -out")
	}
	files, mains, err := list(*repo)
	if err != nil {
		fatal(err)
	}
	ints := map[uint64]bool{}
	strs := map[string]bool{}
	overlay := map[string]string{}
	siteNames := map[string]string{}
	site := uint32(1)
	for i, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		res, next, err := instrument(f, src, site, ints, strs, siteNames)
		if err != nil {
			fatal(err)
		}
		site = next
		dst := filepath.Join(*out, fmt.Sprintf("%03d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			fatal(err)
		}
		overlay[f] = dst
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
	mainOverlay := map[string]string{}
	for i, f := range mains {
		src, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		res, next, err := instrument(f, src, site, ints, strs, siteNames)
		if err != nil {
			fatal(err)
		}
		site = next
		res = pkgMain.ReplaceAll(res, []byte("package realmain;"))
		res = funcMain.ReplaceAll(res, []byte("func Main("))
		name := fmt.Sprintf("main_%d.go", i)
		if i == 0 {
			name = "main.go"
			res = append(res, []byte("\n// Real tells whether the program's main package is here.\nvar Real = true\n")...)
		}
		dst := filepath.Join(*out, "realmain_"+name)
		if err := os.WriteFile(dst, res, 0o644); err != nil {
			fatal(err)
		}
		wd, err := os.Getwd()
		if err != nil {
			fatal(err)
		}
		mainOverlay[filepath.Join(wd, "realmain", name)] = dst
	}
	if err := osHooks(*out, "overlay_os_nomain.json", overlay); err != nil {
		fatal(err)
	}
	for k, v := range mainOverlay {
		overlay[k] = v
	}
	if err := osHooks(*out, "overlay_os.json", overlay); err != nil {
		fatal(err)
	}
	d := dict{Sites: siteNames, Goroutines: hasGo || hasChan, Channels: hasGo || hasChan}
	for v := range ints {
		d.Ints = append(d.Ints, v)
	}
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	for v := range strs {
		d.Strings = append(d.Strings, v)
	}
	sort.Strings(d.Strings)
	b, _ = json.Marshal(d)
	if err := os.WriteFile(filepath.Join(*out, "dict.json"), b, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("instr: %d files, %d sites, %d int and %d string constants\n", len(files), site-1, len(d.Ints), len(d.Strings))
}

var (
	pkgMain  = regexp.MustCompile(`(?m)^package main;`)
	funcMain = regexp.MustCompile(`(?m)^func main\(`)
)

// osHooks adds to the overlay copies of two files of package os in which
// reading and writing the standard streams and ending the process can be taken
// over by the simulator, and writes it to a file.
func osHooks(out, file string, overlay map[string]string) error {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	dir := filepath.Join(strings.TrimSpace(string(root)), "src", "os")
	all := map[string]string{}
	for k, v := range overlay {
		all[k] = v
	}
	put := func(name string, pairs ...string) error {
		b, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) != 1 {
				return fmt.Errorf("%s: no place for the hook %q", name, pairs[i])
			}
			s = strings.Replace(s, pairs[i], pairs[i]+pairs[i+1], 1)
		}
		dst := filepath.Join(out, "os_"+name)
		all[filepath.Join(dir, name)] = dst
		return os.WriteFile(dst, []byte(s), 0o644)
	}
	if err := put("file.go",
		"func (f *File) Read(b []byte) (n int, err error) {\n", "\tif h := VerifRead; h != nil && f != nil && f.file != nil && f.pfd.Sysfd == 0 {\n\t\treturn h(b)\n\t}\n",
		"func (f *File) Write(b []byte) (n int, err error) {\n", "\tif h := VerifWrite; h != nil && f != nil && f.file != nil && (f.pfd.Sysfd == 1 || f.pfd.Sysfd == 2) {\n\t\treturn h(f.pfd.Sysfd, b)\n\t}\n"); err != nil {
		return err
	}
	if err := put("proc.go", "func Exit(code int) {\n", "\tif h := VerifExit; h != nil {\n\t\th(code)\n\t}\n"); err != nil {
		return err
	}
	// the hooks themselves
	f := all[filepath.Join(dir, "proc.go")]
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	b = append(b, []byte("\n// VerifRead, VerifWrite and VerifExit are the simulator's hooks.\nvar (\n\tVerifRead  func(b []byte) (int, error)\n\tVerifWrite func(fd int, b []byte) (int, error)\n\tVerifExit  func(code int)\n)\n")...)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return err
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": all}, "", " ")
	return os.WriteFile(filepath.Join(out, file), j, 0o644)
}

func fatal(v any) {
	fmt.Fprintln(os.Stderr, "instr:", v)
	os.Exit(2)
}

// list returns the non-test Go files of the library and command packages and
// those of the main package.
func list(repo string) (files, mains []string, err error) {
	cmd := exec.Command("go", "list", "-json=Dir,GoFiles,Name,ImportPath", "./...")
	cmd.Dir = repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		return nil, nil, fmt.Errorf("go list: %v: %s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	for dec.More() {
		var p struct {
			Dir, Name, ImportPath string
			GoFiles               []string
		}
		if err := dec.Decode(&p); err != nil {
			return nil, nil, err
		}
		if p.Name == "main" {
			if p.Dir == filepath.Clean(repo) {
				for _, f := range p.GoFiles {
					mains = append(mains, filepath.Join(p.Dir, f))
				}
			}
			continue
		}
		for _, f := range p.GoFiles {
			files = append(files, filepath.Join(p.Dir, f))
		}
	}
	sort.Strings(files)
	return files, mains, nil
}

func instrument(name string, src []byte, site uint32, ints map[uint64]bool, strs map[string]bool, names map[string]string) ([]byte, uint32, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	add := func(o, e int, text string) { edits = append(edits, edit{o, e, text, len(edits)}) }
	y := func(pos token.Pos) string {
		s := fmt.Sprintf("vsim_.Y(%d);", site)
		p := fset.Position(pos)
		names[strconv.Itoa(int(site))] = fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
		site++
		return s
	}

	timeName, timeUsed := "", false
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		switch path {
		case "sync":
			if im.Name == nil {
				add(off(im.Path.Pos()), off(im.Path.End()), `sync "verif.local/sim/vsync"`)
			} else if im.Name.Name != "_" {
				add(off(im.Path.Pos()), off(im.Path.End()), `"verif.local/sim/vsync"`)
			}
		case "context", "os/signal":
			hasChan = true
		case "time":
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
		}
	}

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(s.Pos()), off(s.Pos()), y(s.Pos()))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, y(n.Body.Lbrace))
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, y(n.Body.Lbrace))
			}
		case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
			hasChan = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				hasChan = true
			}
		case *ast.GoStmt:
			hasGo = true
			call := n.Call
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				add(off(n.Go), off(fl.Pos()), "vsim_.Go(")
				add(off(fl.End()), off(call.End()), ")")
				return true
			}
			var tmp []string
			pre := "{ vsimF_"
			args := ""
			for i := range call.Args {
				tmp = append(tmp, fmt.Sprintf("vsimA%d_", i))
			}
			if len(tmp) > 0 {
				pre += ", " + strings.Join(tmp, ", ")
				args = strings.Join(tmp, ", ")
			}
			if call.Ellipsis.IsValid() {
				args += "..."
			}
			pre += " := "
			add(off(n.Go), off(call.Fun.Pos()), pre)
			if len(call.Args) > 0 {
				add(off(call.Fun.End()), off(call.Args[0].Pos()), ", ")
				add(off(call.Args[len(call.Args)-1].End()), off(call.End()), fmt.Sprintf("; vsim_.Go(func() { vsimF_(%s) }) }", args))
			} else {
				add(off(call.Fun.End()), off(call.End()), fmt.Sprintf("; vsim_.Go(func() { vsimF_(%s) }) }", args))
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Obj == nil && (id.Name == "println" || id.Name == "print") {
				add(off(id.Pos()), off(id.End()), "vsim_.Print")
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && timeName != "" && id.Name == timeName && id.Obj == nil {
				switch n.Sel.Name {
				case "After", "AfterFunc", "NewTimer", "NewTicker", "Tick":
					hasChan = true
				case "Now", "Since", "Until", "Sleep":
					add(off(n.Pos()), off(n.End()), "vsim_."+n.Sel.Name)
					timeUsed = true
				}
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				if v, err := strconv.ParseUint(strings.ReplaceAll(n.Value, "_", ""), 0, 64); err == nil {
					if !strings.Contains(name, "crc_32") || v < 1<<20 {
						ints[v] = true
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(n.Value); err == nil && len(s) > 0 && len(s) <= 24 && n.Value[0] == '"' {
					strs[s] = true
				}
			case token.CHAR:
				if s, err := strconv.Unquote(n.Value); err == nil {
					strs[s] = true
				}
			}
		}
		return true
	})
	add(off(f.Name.End()), off(f.Name.End()), `; import vsim_ "verif.local/sim/vsim"`)

	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// insertions go before a replacement that starts at the same place
		ii, jj := edits[i].end == edits[i].off, edits[j].end == edits[j].off
		if ii != jj {
			return ii
		}
		return edits[i].seq < edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString("\nvar _ = vsim_.Y\n")
	if timeUsed {
		fmt.Fprintf(&b, "var _ = %s.Now\n", timeName)
	}
	return b.Bytes(), site, nil
}
