// Command sim is a worker: it explores seeded runs of a property or executes
// the plans it is given.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/core"
	"verif.local/sim/proto"
	"verif.local/sim/runner"
	"verif.local/sim/scen"
	"verif.local/sim/vsim"
)

var (
	dict     = flag.String("dict", "", "dictionary")
	prop     = flag.String("prop", "", "property")
	seed     = flag.Uint64("seed", 1, "seed")
	from     = flag.Uint64("from", 0, "first run")
	stride   = flag.Uint64("stride", 1, "distance of runs")
	count    = flag.Uint64("count", 0, "number of runs, 0: until the time is over")
	dur      = flag.Duration("dur", 0, "time to explore")
	reverse  = flag.Bool("reverse", false, "last run first")
	list     = flag.String("list", "", "runs to execute, comma separated")
	progress = flag.String("progress", "", "file the number of the current run is kept in")
	out      = flag.String("out", "", "report file")
	hashes   = flag.String("hashes", "", "file for the hashes of the runs")
	reslog   = flag.String("reslog", "", "file for index, hash and result of every run")
	samples  = flag.Int("samples", 0, "runs to write out")
	serve    = flag.Bool("serve", false, "execute requests from standard input")
	gen      = flag.String("gen", "", "print the plan of a run")
	keep     = flag.Bool("keep", false, "go on after a violation")
)

func main() {
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	if err := scen.LoadDict(*dict); err != nil {
		die(err)
	}
	scen.SelfDir = os.TempDir()
	switch {
	case *gen != "":
		i, err := strconv.ParseUint(*gen, 10, 64)
		if err != nil {
			die(err)
		}
		s, p := core.Draw(*prop, *seed, i)
		b, _ := json.Marshal(proto.Item{Scenario: s.Name(), Plan: runner.Raw(p)})
		fmt.Println(string(b))
	case *serve:
		server()
	default:
		explore()
	}
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "sim:", err)
	os.Exit(2)
}

func server() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			var q proto.Request
			if err := json.Unmarshal(line, &q); err != nil {
				die(err)
			}
			b, err := json.Marshal(runner.Do(&q))
			if err != nil {
				die(err)
			}
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
		}
		if err == io.EOF {
			return
		}
		if err != nil {
			die(err)
		}
	}
}

// draw draws run i; a panic while it does is trouble of the simulator.
func draw(prop string, seed, i uint64) (s core.Scenario, p any, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("drawing: %v\n%s", r, debug.Stack())
		}
	}()
	s, p = core.Draw(prop, seed, i)
	return
}

func explore() {
	rep := proto.Report{Faults: map[string]int{}, Probes: map[string]int{}, Scenarios: map[string]uint64{}, Other: map[string]int{}}
	var prog *os.File
	if *progress != "" {
		f, err := os.Create(*progress)
		if err != nil {
			die(err)
		}
		prog = f
	}
	var todo []uint64
	if *list != "" {
		for _, t := range strings.Split(*list, ",") {
			i, err := strconv.ParseUint(t, 10, 64)
			if err != nil {
				die(err)
			}
			todo = append(todo, i)
		}
	} else if *count > 0 {
		for k := uint64(0); k < *count; k++ {
			todo = append(todo, *from+k**stride)
		}
		if *reverse {
			for a, b := 0, len(todo)-1; a < b; a, b = a+1, b-1 {
				todo[a], todo[b] = todo[b], todo[a]
			}
		}
	}
	var hs, rl []byte
	var prev []uint64
	end := time.Now().Add(*dur)
	i := *from
	var buf [8]byte
	for n := 0; ; n++ {
		if todo != nil {
			if n == len(todo) {
				break
			}
			i = todo[n]
		} else {
			if n > 0 {
				i += *stride
			}
			if time.Now().After(end) {
				break
			}
		}
		if prog != nil {
			binary.LittleEndian.PutUint64(buf[:], i+1)
			prog.WriteAt(buf[:], 0)
		}
		s, p, err := draw(*prop, *seed, i)
		if err != nil {
			rep.Harness = fmt.Sprintf("run %d: %v", i, err)
			break
		}
		var raw json.RawMessage
		sample := len(rep.Samples) < *samples && n%37 == 3
		if sample {
			raw = runner.Raw(p)
		}
		o, harness := runner.Exec(*prop, s, p, sample)
		if harness != "" {
			rep.Harness = fmt.Sprintf("run %d: %s", i, harness)
			break
		}
		rep.Runs++
		if n == 0 {
			rep.First = i
		}
		rep.Last = i
		rep.Scenarios[s.Name()]++
		if o.Invalid != "" {
			rep.Invalid++
			rep.Other["invalid plan: "+o.Invalid]++
		}
		rep.Events += uint64(o.Events)
		rep.Steps += o.Steps
		rep.Switches += uint64(o.Switches)
		rep.SimNS += o.SimNS
		for k, v := range o.Faults {
			rep.Faults[k] += v
		}
		for k, v := range o.Probes {
			rep.Probes[k] += v
		}
		if o.Nontrivial {
			rep.Nontrivial++
			hs = binary.LittleEndian.AppendUint64(hs, o.Hash)
			hs = binary.LittleEndian.AppendUint64(hs, o.Inter)
		}
		if *reslog != "" {
			rl = binary.LittleEndian.AppendUint64(rl, i)
			rl = binary.LittleEndian.AppendUint64(rl, o.Hash)
			rl = binary.LittleEndian.AppendUint64(rl, o.Res)
		}
		if sample {
			rep.Samples = append(rep.Samples, proto.Sample{Index: i, Scenario: s.Name(), Plan: raw, Trace: o.Trace})
		}
		own := false
		for _, v := range o.Viol {
			if v.Prop == *prop {
				own = true
			} else {
				rep.Other[v.Prop+": "+v.Class]++
			}
		}
		if own {
			if rep.Found == nil {
				// the plan as drawn: running it may have changed it
				_, q := core.Draw(*prop, *seed, i)
				rep.Found = &proto.Found{Index: i, Prev: prev, Item: proto.Item{Scenario: s.Name(), Plan: runner.Raw(q)}, Viol: o.Viol}
			}
			if !*keep {
				break
			}
			for _, v := range o.Viol {
				rep.Other["own "+v.Prop+": "+v.Class+" run "+strconv.FormatUint(i, 10)]++
			}
		}
		prev = append(prev, i)
	}
	rep.Sites, rep.Edges = vsim.Coverage()
	write := func(name string, b []byte) {
		if name != "" {
			if err := os.WriteFile(name, b, 0o644); err != nil {
				die(err)
			}
		}
	}
	write(*hashes, hs)
	write(*reslog, rl)
	b, err := json.Marshal(rep)
	if err != nil {
		die(err)
	}
	if *out == "" {
		os.Stdout.Write(append(b, '\n'))
	} else {
		write(*out, b)
	}
	if rep.Harness != "" {
		fmt.Fprintln(os.Stderr, "sim:", rep.Harness)
		os.Exit(2)
	}
}
