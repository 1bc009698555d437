// Command check decides one property: it builds the simulator from the code
// under test, explores seeded runs, reduces and confirms what it finds, writes
// the replay file and the evidence.
//
//	check -verif /verif -prop C01        explore
//	check -verif /verif -replay FILE     execute a replay file
//
// Exit status: 0 nothing found (or not reproduced), 1 violation, 2 trouble.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/sim/core"
	"verif.local/sim/proto"
)

var (
	verif   = flag.String("verif", "/verif", "this directory")
	prop    = flag.String("prop", "", "property")
	replay  = flag.String("replay", "", "replay file")
	tier    = flag.String("tier", "", "quick or thorough; default VERIF_TIER")
	workers = flag.Int("workers", 0, "worker processes")
	scale   = flag.Float64("scale", 0, "multiply the time to explore")
	noshr   = flag.Bool("noshrink", false, "do not reduce")
	only    = flag.Bool("build", false, "build every variant and stop")
)

// phase is a part of the exploration.
type phase struct {
	Name    string
	Variant string
	Cold    bool // a few runs per process
	Secs    float64
	Offset  uint64
}

const block = 1 << 40

func phases(p string) []phase {
	switch p {
	case "C01", "C02", "C03":
		return []phase{
			{"schedules", "normal", false, 13, 0},
			{"schedules under the race detector", "race", false, 13, block},
			{"fresh processes", "normal", true, 3, 2 * block},
			{"fresh processes under the race detector", "race", true, 6, 3 * block},
		}
	case "C11", "C12":
		return []phase{{"runs", "os", false, 26, 0}, {"fresh processes", "os", true, 4, 2 * block}}
	}
	return []phase{{"runs", "normal", false, 28, 0}, {"fresh processes", "normal", true, 3, 2 * block}}
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string           `json:"property"`
	Class     string           `json:"class"`
	Message   string           `json:"message"`
	Mode      string           `json:"mode"` // run, or history: the last item differs after the others
	Variant   string           `json:"variant"`
	Seed      uint64           `json:"seed"`
	Run       uint64           `json:"run"`
	Hash      uint64           `json:"hash"`
	Tries     int              `json:"tries"`
	Reduced   string           `json:"reduced"`
	Items     []proto.Item     `json:"items"`
	Trace     []string         `json:"trace,omitempty"`
	AllFailed []core.Violation `json:"violations,omitempty"`
}

type found struct {
	phase phase
	index uint64
	prev  []uint64
	viol  core.Violation
	mode  string
}

type stats struct {
	proto.Report
	wall    float64
	procs   int
	perPh   []map[string]any
	hashes  map[uint64]struct{}
	inters  map[uint64]struct{}
	compare int
	trouble []string // runs the simulator could not carry out
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var cleanup = func() {}

func main() {
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	if *scale == 0 {
		*scale = 1
		if *tier == "thorough" {
			*scale = 15
		}
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			i, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				fatal("VERIF_SEED: %v", err)
			}
			v = uint64(i)
		}
		seed = v
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	abs, err := filepath.Abs(*verif)
	if err != nil {
		fatal("%v", err)
	}
	*verif = abs
	if err := os.MkdirAll(filepath.Join(abs, ".build"), 0o755); err != nil {
		fatal("%v", err)
	}
	dir, err := os.MkdirTemp(filepath.Join(abs, ".build"), "run")
	if err != nil {
		fatal("%v", err)
	}
	cleanup = func() { os.RemoveAll(dir) }
	b := &builder{sim: filepath.Join(abs, "sim"), repo: repo, dir: dir}
	code := 0
	if *only {
		for _, v := range []string{"normal", "race", "os"} {
			if _, err := b.bin(v); err != nil {
				fatal("%v", err)
			}
		}
	} else if *replay != "" {
		code = doReplay(b)
	} else {
		if *prop == "" {
			fatal("no -prop")
		}
		code = doCheck(b, seed)
	}
	cleanup()
	os.Exit(code)
}

// ------------------------------------------------------------------ explore

// trouble is a run that the simulator itself could not carry out.
type trouble struct {
	run uint64
	msg string
}

func (t *trouble) Error() string { return fmt.Sprintf("at run %d: %s", t.run, t.msg) }

// troubles tells how many runs may fail that way before the check gives up.
const troubles = 8

// worker runs one exploring process.
func worker(b *builder, bin string, seed uint64, ph phase, args []string, stop *atomic.Bool, limit time.Duration) (*proto.Report, *found, []byte, []byte, error) {
	tmp, err := os.MkdirTemp(b.dir, "w")
	if err != nil {
		return nil, nil, nil, nil, err
	}
	defer os.RemoveAll(tmp)
	prog, out, hs, rl := filepath.Join(tmp, "prog"), filepath.Join(tmp, "out"), filepath.Join(tmp, "hashes"), filepath.Join(tmp, "res")
	args = append([]string{"-dict", b.dict(), "-prop", *prop, "-seed", strconv.FormatUint(seed, 10), "-progress", prog, "-out", out, "-hashes", hs, "-reslog", rl}, args...)
	c := exec.Command(bin, args...)
	c.Env = append(workerEnv(), "TMPDIR="+tmp)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var eb bytes.Buffer
	c.Stderr = &eb
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	if err := c.Start(); err != nil {
		return nil, nil, nil, nil, err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	killed, stuck := false, false
	t := time.NewTicker(20 * time.Millisecond)
	defer t.Stop()
	start := time.Now()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-t.C:
			if stop.Load() && !killed {
				killed = true
				c.Process.Kill()
			}
			if time.Since(start) > limit && !killed {
				killed, stuck = true, true
				c.Process.Kill()
			}
		}
	}
	at := uint64(math.MaxUint64)
	if pb, e := os.ReadFile(prog); e == nil && len(pb) == 8 {
		at = binary.LittleEndian.Uint64(pb) - 1
	}
	if stuck {
		return nil, nil, nil, nil, fmt.Errorf("run %d of %s does not end (watchdog)", at, *prop)
	}
	if killed {
		return nil, nil, nil, nil, nil
	}
	if err != nil {
		v, h := death(*prop, c.ProcessState.ExitCode(), eb.String())
		if v == nil {
			// what it did until then counts
			rep := &proto.Report{}
			if rb, err := os.ReadFile(out); err != nil || json.Unmarshal(rb, rep) != nil || rep.Harness == "" {
				rep = nil
			}
			hb, _ := os.ReadFile(hs)
			return rep, nil, hb, nil, &trouble{at, h}
		}
		return nil, &found{phase: ph, index: at, viol: *v}, nil, nil, nil
	}
	rb, err := os.ReadFile(out)
	if err != nil {
		return nil, nil, nil, nil, err
	}
	rep := &proto.Report{}
	if err := json.Unmarshal(rb, rep); err != nil {
		return nil, nil, nil, nil, err
	}
	hb, _ := os.ReadFile(hs)
	rlb, _ := os.ReadFile(rl)
	var f *found
	if rep.Found != nil {
		f = &found{phase: ph, index: rep.Found.Index, prev: rep.Found.Prev}
		for _, v := range rep.Found.Viol {
			if v.Prop == *prop {
				f.viol = v
				break
			}
		}
	}
	return rep, f, hb, rlb, nil
}

func (s *stats) add(r *proto.Report, hb []byte) {
	s.Runs += r.Runs
	s.Nontrivial += r.Nontrivial
	s.Invalid += r.Invalid
	s.Events += r.Events
	s.Steps += r.Steps
	s.Switches += r.Switches
	s.SimNS += r.SimNS
	for k, v := range r.Faults {
		s.Faults[k] += v
	}
	for k, v := range r.Probes {
		s.Probes[k] += v
	}
	for k, v := range r.Scenarios {
		s.Scenarios[k] += v
	}
	for k, v := range r.Other {
		s.Other[k] += v
	}
	s.Sites = max(s.Sites, r.Sites)
	s.Edges = max(s.Edges, r.Edges)
	for i := 0; i+16 <= len(hb); i += 16 {
		s.hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		s.inters[binary.LittleEndian.Uint64(hb[i+8:])] = struct{}{}
	}
	s.Samples = append(s.Samples, r.Samples...)
	s.procs++
}

// explore runs a phase on all workers.
func explore(b *builder, seed uint64, ph phase, st *stats) (*found, error) {
	bin, err := b.bin(ph.Variant)
	if err != nil {
		return nil, err
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var stop atomic.Bool
	var first *found
	var ferr error
	secs := ph.Secs * *scale
	t0 := time.Now()
	runs0 := st.Runs
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			stride := strconv.Itoa(*workers)
			next := ph.Offset + uint64(w)
			for n := 0; ; n++ {
				from := strconv.FormatUint(next, 10)
				args := []string{"-from", from, "-stride", stride}
				if ph.Cold {
					args = append(args, "-count", "2")
					next += 2 * uint64(*workers)
				} else {
					args = append(args, "-dur", fmt.Sprintf("%.3fs", max(0.2, secs-time.Since(t0).Seconds())))
				}
				if n == 0 && w == 0 {
					args = append(args, "-samples", "2")
				}
				rep, f, hb, _, err := worker(b, bin, seed, ph, args, &stop, time.Duration((secs+150)*float64(time.Second)))
				mu.Lock()
				if rep != nil {
					st.add(rep, hb)
				}
				if f != nil && first == nil {
					if f.prev == nil && f.index != ph.Offset {
						start, _ := strconv.ParseUint(from, 10, 64)
						for i := start; i < f.index; i += uint64(*workers) {
							f.prev = append(f.prev, i)
						}
					}
					first = f
					stop.Store(true)
				}
				again := false
				var tr *trouble
				if errors.As(err, &tr) && rep != nil && len(st.trouble) < troubles {
					// this run is not judged; the others are
					st.trouble = append(st.trouble, fmt.Sprintf("%s: %v", ph.Name, err))
					next, again, err = tr.run+uint64(*workers), true, nil
				}
				if err != nil && ferr == nil {
					ferr = err
					stop.Store(true)
				}
				mu.Unlock()
				if !ph.Cold && !again || stop.Load() || time.Since(t0).Seconds() > secs {
					return
				}
			}
		}()
	}
	wg.Wait()
	st.perPh = append(st.perPh, map[string]any{"phase": ph.Name, "build": ph.Variant, "runs": st.Runs - runs0, "seconds": math.Round(time.Since(t0).Seconds()*10) / 10, "runs_per_hour": int(float64(st.Runs-runs0) / time.Since(t0).Seconds() * 3600)})
	if first != nil {
		return first, nil
	}
	return nil, ferr
}

// compare runs the same runs in two processes, in opposite order, and compares
// what they did: this proves the simulator deterministic, and for C01 that
// results do not depend on the history of the process.
func compare(b *builder, seed uint64, st *stats) (*found, int, error) {
	variant := phases(*prop)[0].Variant
	bin, err := b.bin(variant)
	if err != nil {
		return nil, 0, err
	}
	per := 40
	if *prop == "C01" {
		per = 250
	}
	per = int(float64(per) * math.Min(*scale, 5))
	var mu sync.Mutex
	var wg sync.WaitGroup
	var stop atomic.Bool
	var f *found
	var ferr error
	mismatch := 0
	ph := phase{"same runs in opposite order", variant, false, 0, 4 * block}
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			from := ph.Offset + uint64(w*per)
			args := []string{"-keep", "-from", strconv.FormatUint(from, 10), "-count", strconv.Itoa(per)}
			ra, _, _, la, err1 := worker(b, bin, seed, ph, args, &stop, 300*time.Second)
			_, _, _, lb, err2 := worker(b, bin, seed, ph, append(args, "-reverse"), &stop, 300*time.Second)
			mu.Lock()
			defer mu.Unlock()
			for _, err := range []error{err1, err2} {
				var tr *trouble
				if errors.As(err, &tr) && len(st.trouble) < troubles {
					st.trouble = append(st.trouble, fmt.Sprintf("%s: %v", ph.Name, err))
					return
				}
			}
			if err1 != nil || err2 != nil {
				if ferr == nil {
					ferr = err1
					if err1 == nil {
						ferr = err2
					}
				}
				return
			}
			if ra != nil {
				st.compare += int(ra.Runs)
			}
			n := min(len(la), len(lb))
			for i := 0; i+24 <= n; i += 24 {
				j := n - 24 - i
				idx, ha, sa := u64(la[i:]), u64(la[i+8:]), u64(la[i+16:])
				hb, sb := u64(lb[j+8:]), u64(lb[j+16:])
				if u64(lb[j:]) != idx || len(la) != len(lb) {
					continue
				}
				if ha != hb {
					mismatch++
				}
				if sa != sb && *prop == "C01" && f == nil {
					f = &found{phase: ph, index: idx, mode: "history", viol: core.Violation{Prop: *prop, Class: "depends on history", Msg: "the results of a run depend on what the process did before"}}
					for k := from + uint64(per) - 1; k > idx; k-- {
						f.prev = append(f.prev, k)
					}
				}
			}
		}()
	}
	wg.Wait()
	return f, mismatch, ferr
}

func u64(b []byte) uint64 { return binary.LittleEndian.Uint64(b) }

func doCheck(b *builder, seed uint64) int {
	t0 := time.Now()
	st := &stats{hashes: map[uint64]struct{}{}, inters: map[uint64]struct{}{}}
	st.Faults, st.Probes, st.Scenarios, st.Other = map[string]int{}, map[string]int{}, map[string]uint64{}, map[string]int{}
	fmt.Printf("check: property=%s seed=%d tier=%s repo=%s workers=%d\n", *prop, seed, *tier, b.repo, *workers)
	var vs []*Replay
	var f *found
	mismatch := 0
	var lost error
	// settle confirms f; what does not fail again is set aside
	settle := func() bool {
		if f == nil {
			return false
		}
		fmt.Printf("check: found in %s, run %d: %s: %s\n", f.phase.Name, f.index, f.viol.Class, f.viol.Msg)
		r, err := confirm(b, seed, f)
		if errors.Is(err, errLost) {
			fmt.Printf("check: %v\n", err)
			lost = err
			return false
		}
		if err != nil {
			fatal("%v", err)
		}
		vs = append(vs, r)
		return true
	}
	todo := phases(*prop)
	for k := 0; k < len(todo) && len(vs) == 0; k++ {
		var err error
		if f, err = explore(b, seed, todo[k], st); err != nil {
			fatal("%s: %v", todo[k].Name, err)
		}
		if f != nil && !settle() && todo[k].Offset%block == 0 {
			// other runs may show it better
			ph := todo[k]
			ph.Offset += block / 2
			todo = append(todo, ph)
		}
	}
	if len(vs) == 0 {
		var err error
		if f, mismatch, err = compare(b, seed, st); err != nil {
			fatal("comparison: %v", err)
		}
		settle()
	}
	if lost != nil && len(vs) == 0 {
		fatal("%v", lost)
	}
	st.wall = time.Since(t0).Seconds()
	if err := evidence(b, seed, st, vs, mismatch); err != nil {
		fatal("%v", err)
	}
	for _, l := range known(*prop) {
		fmt.Println(l)
	}
	if len(vs) > 0 {
		for _, r := range vs {
			file, err := write(b, r)
			if err != nil {
				fatal("%v", err)
			}
			fmt.Printf("check: %s\n", r.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		}
		return 1
	}
	for _, m := range st.trouble {
		m, _, _ = strings.Cut(m, "\n")
		fmt.Printf("check: not judged: %s\n", m)
	}
	fmt.Printf("check: property=%s held on %d runs (%d distinct) in %.0f s\n", *prop, st.Runs, len(st.hashes), st.wall)
	return 0
}

// known lists the known findings of a property.
func known(p string) []string {
	b, err := os.ReadFile(filepath.Join(*verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+p+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "known: "))
		}
	}
	return out
}

func write(b *builder, r *Replay) (string, error) {
	dir := filepath.Join(*verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	j, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return "", err
	}
	file := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", r.Property, r.Hash))
	return file, os.WriteFile(file, j, 0o644)
}

// ------------------------------------------------------------------ confirm

func plans(b *builder, bin string, seed uint64, idx []uint64) ([]proto.Item, error) {
	var out []proto.Item
	for _, i := range idx {
		o, err := exec.Command(bin, "-dict", b.dict(), "-prop", *prop, "-seed", strconv.FormatUint(seed, 10), "-gen", strconv.FormatUint(i, 10)).Output()
		if err != nil {
			return nil, fmt.Errorf("plan of run %d: %v", i, err)
		}
		var it proto.Item
		if err := json.Unmarshal(o, &it); err != nil {
			return nil, err
		}
		out = append(out, it)
	}
	return out, nil
}

// differs tells whether the last item's results change with the items before.
func differs(c *client, items []proto.Item) (bool, error) {
	a, err := c.fresh(items, false, false)
	if err != nil {
		return false, err
	}
	z, err := c.fresh(items[len(items)-1:], false, false)
	if err != nil {
		return false, err
	}
	return a.Invalid == "" && z.Invalid == "" && a.Harness == "" && z.Harness == "" && a.Res != z.Res, nil
}

var errLost = errors.New("not reproduced")

// confirm reproduces a violation in fresh processes and reduces it.
func confirm(b *builder, seed uint64, f *found) (*Replay, error) {
	bin, err := b.bin(f.phase.Variant)
	if err != nil {
		return nil, err
	}
	c := &client{bin: bin, dict: b.dict(), prop: *prop}
	defer c.stop()
	last, err := plans(b, bin, seed, []uint64{f.index})
	if err != nil {
		return nil, err
	}
	r := &Replay{Property: *prop, Mode: "run", Variant: f.phase.Variant, Seed: seed, Run: f.index, Tries: 1, Class: f.viol.Class, Message: f.viol.Msg}
	limit := 40 * time.Second
	if *tier == "thorough" {
		limit = 300 * time.Second
	}
	deadline := time.Now().Add(limit)
	if f.mode == "history" {
		r.Mode = "history"
		return r, reduceHistory(b, bin, seed, c, f, last[0], r, deadline, func(items []proto.Item) (bool, error) { return differs(c, items) })
	}
	hit := func(items []proto.Item) (bool, error) {
		p, err := c.fresh(items, false, false)
		if err != nil {
			return false, err
		}
		if p.Harness != "" {
			return false, fmt.Errorf("%s", p.Harness)
		}
		v := c.has(p, f.viol.Class)
		if v == nil {
			v = c.has(p, "")
		}
		if v != nil {
			f.viol = *v
			return true, nil
		}
		return false, nil
	}
	n := 0
	const tries = 12
	for k := 1; k <= tries; k++ {
		ok, err := hit(last)
		if err != nil {
			return nil, err
		}
		if ok {
			n++
			if k == n && n == 2 { // at once and again
				break
			}
			if k == tries || n >= 2 {
				break
			}
		}
	}
	if n == 0 {
		if err := reduceHistory(b, bin, seed, c, f, last[0], r, deadline, hit); err != nil {
			return nil, err
		}
		return r, finish(c, r, f)
	}
	if n < 2 {
		r.Tries = 50
	}
	r.Items = last
	if !*noshr {
		reduce(c, r, f, deadline)
	}
	return r, finish(c, r, f)
}

// finish executes the reduced items once more and records the outcome.
func finish(c *client, r *Replay, f *found) error {
	r.Class = f.viol.Class
	for k := 0; k < max(r.Tries, 12); k++ {
		p, err := c.fresh(r.Items, true, false)
		if err != nil {
			return err
		}
		v := c.has(p, r.Class)
		if v == nil {
			v = c.has(p, "")
		}
		if v == nil {
			continue
		}
		if k > 0 {
			r.Tries = max(r.Tries, 50)
		}
		r.Class, r.Message, r.Hash, r.Trace, r.AllFailed = v.Class, v.Msg, p.Hash, p.Trace, p.Viol
		if p.Hash == 0 {
			var all []byte
			for _, it := range r.Items {
				all = append(all, it.Plan...)
			}
			r.Hash = fnv(all)
		}
		return nil
	}
	return fmt.Errorf("%w: the reduced run of %s does not fail again", errLost, r.Class)
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// reduceHistory finds the runs that must precede the failing one.
func reduceHistory(b *builder, bin string, seed uint64, c *client, f *found, last proto.Item, r *Replay, deadline time.Time, hit func([]proto.Item) (bool, error)) error {
	var items []proto.Item
	got := false
	for n := 1; ; n *= 4 {
		if n > len(f.prev) {
			n = len(f.prev)
		}
		hist, err := plans(b, bin, seed, f.prev[len(f.prev)-n:])
		if err != nil {
			return err
		}
		items = append(hist, last)
		if got, err = hit(items); err != nil {
			return err
		}
		if got || n == len(f.prev) || n > 6000 {
			break
		}
	}
	if !got {
		return fmt.Errorf("%w: run %d failed (%s: %s) but neither it nor the runs before it fail again", errLost, f.index, f.viol.Class, f.viol.Msg)
	}
	hist := items[:len(items)-1]
	for size := len(hist); size >= 1; {
		removed := false
		for at := 0; at < len(hist) && time.Now().Before(deadline); {
			end := min(len(hist), at+size)
			next := append(append([]proto.Item{}, hist[:at]...), hist[end:]...)
			ok, err := hit(append(append([]proto.Item{}, next...), last))
			if err != nil {
				return err
			}
			if ok {
				hist, removed = next, true
			} else {
				at += size
			}
		}
		if size == 1 && !removed || time.Now().After(deadline) {
			break
		}
		size = max(1, size/2)
	}
	r.Items = append(append([]proto.Item{}, hist...), last)
	r.Reduced = fmt.Sprintf("%d earlier runs of the process reduced to %d", len(f.prev), len(hist))
	// each plan on its own
	tried := 0
	for i := range r.Items {
		s := &shrinker{deadline: deadline}
		s.test = func(p json.RawMessage) bool {
			items := append([]proto.Item{}, r.Items...)
			items[i].Plan = p
			ok, err := hit(items)
			return ok && err == nil
		}
		r.Items[i].Plan = s.run(r.Items[i].Plan)
		tried += s.tried
	}
	r.Reduced += fmt.Sprintf("; plans reduced in %d trials", tried)
	r.Hash = fnv(encode(r.Items))
	return nil
}

// reduce makes the single failing plan smaller.
func reduce(c *client, r *Replay, f *found, deadline time.Time) {
	class := f.viol.Class
	orig := r.Items[0]
	test := func(p json.RawMessage) bool {
		q, err := c.one([]proto.Item{{Scenario: orig.Scenario, Plan: p}}, false, false)
		return err == nil && q.Harness == "" && c.has(q, class) != nil
	}
	verify := func(p json.RawMessage) bool {
		for k := 0; k < 3; k++ {
			q, err := c.fresh([]proto.Item{{Scenario: orig.Scenario, Plan: p}}, false, false)
			if err == nil && c.has(q, class) != nil {
				return true
			}
		}
		return false
	}
	cur := orig.Plan
	tried := 0
	step := func(from json.RawMessage, end time.Time) json.RawMessage {
		s := &shrinker{test: test, deadline: end}
		out := s.run(from)
		tried += s.tried
		if !bytes.Equal(out, from) && !verify(out) {
			// state of the shrinking process helped: fresh processes only
			s := &shrinker{test: func(p json.RawMessage) bool { return verify(p) }, deadline: end}
			out = s.run(from)
			tried += s.tried
		}
		return out
	}
	half := time.Now().Add(time.Until(deadline) / 2)
	m, _ := parse(cur).(map[string]any)
	if m != nil && m["strat"] != nil {
		// perhaps the schedule does not matter
		m["strat"] = map[string]any{"kind": "none"}
		if b := encode(m); test(b) && verify(b) {
			cur = b
		}
	}
	cur = step(cur, half)
	m, _ = parse(cur).(map[string]any)
	if m != nil && m["strat"] != nil {
		if s, _ := m["strat"].(map[string]any); s != nil && s["kind"] != "none" && s["kind"] != "trace" {
			q, err := c.fresh([]proto.Item{{Scenario: orig.Scenario, Plan: cur}}, false, true)
			if err == nil && len(q.Sched) > 0 {
				m["strat"] = map[string]any{"kind": "trace", "trace": q.Sched}
				if b := encode(m); verify(b) {
					cur = b
				}
			}
		}
	}
	cur = step(cur, deadline)
	r.Items = []proto.Item{{Scenario: orig.Scenario, Plan: cur}}
	r.Reduced = fmt.Sprintf("plan of %d bytes reduced to %d bytes in %d trials", len(orig.Plan), len(cur), tried)
}

func doReplay(b *builder) int {
	j, err := os.ReadFile(*replay)
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(j, &r); err != nil {
		fatal("%v", err)
	}
	*prop = r.Property
	bin, err := b.bin(r.Variant)
	if err != nil {
		fatal("%v", err)
	}
	c := &client{bin: bin, dict: b.dict(), prop: r.Property}
	defer c.stop()
	if r.Mode == "history" {
		d, err := differs(c, r.Items)
		if err != nil {
			fatal("%v", err)
		}
		if d {
			fmt.Printf("check: %s\nVIOLATION property=%s replay=%s\n", r.Message, r.Property, *replay)
			return 1
		}
		fmt.Println("check: not reproduced")
		return 0
	}
	for k := 0; k < max(1, r.Tries); k++ {
		p, err := c.fresh(r.Items, true, false)
		if err != nil {
			fatal("%v", err)
		}
		if p.Harness != "" {
			fatal("%s", p.Harness)
		}
		if v := c.has(p, ""); v != nil {
			for _, l := range p.Trace {
				fmt.Println("  " + l)
			}
			same := "same history"
			if p.Hash != r.Hash && p.Hash != 0 {
				same = "different history"
			}
			fmt.Printf("check: %s: %s (%s)\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, same, r.Property, *replay)
			return 1
		}
	}
	fmt.Println("check: not reproduced")
	return 0
}

func sorted[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
