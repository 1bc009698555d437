// Package core holds what all simulated scenarios share.
package core

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"verif.local/sim/rng"
	"verif.local/sim/vsim"
)

// Violation is a broken property.
type Violation struct {
	Prop string `json:"prop"`
	// Class names the kind of violation; shrinking keeps it.
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Out collects what one simulated run did.
type Out struct {
	Viol       []Violation
	Faults     map[string]int
	Probes     map[string]int
	SimNS      int64
	Steps      uint64
	Events     int
	Nontrivial bool
	Invalid    string // the plan is outside the domain
	Hash       uint64 // of everything that happened
	Res        uint64 // of the results only, whatever the interleaving
	Inter      uint64 // of the interleaving or fault sequence
	Switches   int
	Trace      []string // kept if Verbose
	Verbose    bool
	Sched      []vsim.Switch // the schedule, to be replayed
}

// NewOut returns an empty record.
func NewOut() *Out {
	return &Out{Faults: map[string]int{}, Probes: map[string]int{}, Hash: 14695981039346656037, Res: 14695981039346656037}
}

// Log records an event.
func (o *Out) Log(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	o.Events++
	o.Hash = (o.Hash ^ rng.HashString(s)) * 1099511628211
	if o.Verbose {
		if len(s) > 400 {
			s = s[:397] + "..."
		}
		o.Trace = append(o.Trace, s)
	}
}

// Result mixes a result into the interleaving-independent hash.
func (o *Out) Result(s string) { o.Res = (o.Res ^ rng.HashString(s)) * 1099511628211 }

// Fail records a violation.
func (o *Out) Fail(prop, class, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 1500 {
		msg = msg[:1497] + "..."
	}
	if len(o.Viol) < 20 {
		o.Viol = append(o.Viol, Violation{prop, class, msg})
	}
	o.Log("VIOLATION %s %s", prop, class)
}

// Fault counts an injected fault.
func (o *Out) Fault(kind string) {
	o.Faults[kind]++
	o.Nontrivial = true
}

// Probe counts a rare condition that was reached.
func (o *Out) Probe(kind string) { o.Probes[kind]++ }

// Scenario is a simulated world. A plan determines a run completely.
type Scenario interface {
	Name() string
	// Gen draws a plan for the property.
	Gen(prop string, r *rng.R) any
	// Parse reads a plan back.
	Parse(b []byte) (any, error)
	// Exec runs the plan.
	Exec(plan any, o *Out)
}

// S builds a Scenario from functions.
type S[P any] struct {
	ID string
	G  func(prop string, r *rng.R) *P
	E  func(p *P, o *Out)
}

// Name is the scenario's name.
func (s S[P]) Name() string { return s.ID }

// Gen draws a plan.
func (s S[P]) Gen(prop string, r *rng.R) any { return s.G(prop, r) }

// Parse reads a plan.
func (s S[P]) Parse(b []byte) (any, error) {
	p := new(P)
	err := json.Unmarshal(b, p)
	return p, err
}

// Exec runs a plan.
func (s S[P]) Exec(p any, o *Out) { s.E(p.(*P), o) }

// Registry maps names to scenarios.
var Registry = map[string]Scenario{}

// Mix lists the scenarios of a property with their weights.
type Mix struct {
	Name   string
	Weight int
}

// Mixes lists the scenarios of every property.
var Mixes = map[string][]Mix{}

// Register adds a scenario to properties.
func Register(s Scenario, props map[string]int) {
	Registry[s.Name()] = s
	for p, w := range props {
		Mixes[p] = append(Mixes[p], Mix{s.Name(), w})
		sort.Slice(Mixes[p], func(i, j int) bool { return Mixes[p][i].Name < Mixes[p][j].Name })
	}
}

// Draw generates run number i of a property.
func Draw(prop string, seed, i uint64) (Scenario, any) {
	r := rng.New(rng.Hash(seed, rng.HashString(prop), i))
	ms := Mixes[prop]
	total := 0
	for _, m := range ms {
		total += m.Weight
	}
	k := r.N(total)
	for _, m := range ms {
		k -= m.Weight
		if k < 0 {
			s := Registry[m.Name]
			return s, s.Gen(prop, r)
		}
	}
	panic("no scenario for " + prop)
}

// Budget is the default number of statements one operation may execute for an
// input of n bytes.
func Budget(n int) uint64 { return 3_000_000 + 3000*uint64(n) }

// Guard runs f with a step budget and returns a description of the panic that
// ended it, or "".
func Guard(budget uint64, f func()) (problem string) {
	old := vsim.Allow(budget)
	defer func() {
		vsim.Restore(old)
		if r := recover(); r != nil {
			if _, ok := r.(vsim.StepLimit); ok {
				problem = fmt.Sprintf("did not return within %d steps at\n%s", budget, stack())
				return
			}
			problem = fmt.Sprintf("panic: %v at\n%s", r, stack())
		} else if vsim.Exceeded() {
			problem = fmt.Sprintf("did not return within %d steps", budget)
		}
	}()
	f()
	return ""
}

func stack() string { return Frames(string(debug.Stack())) }

// Cls makes a violation class out of a problem text: the kind of panic without
// its numbers.
func Cls(problem string) string {
	l, _, _ := strings.Cut(problem, " at\n")
	if len(l) > 60 {
		l = l[:60]
	}
	b := []byte(l)
	for i := range b {
		if b[i] >= '0' && b[i] <= '9' {
			b[i] = '#'
		}
	}
	return string(b)
}

// Frames returns the frames of the code under test in a stack dump.
func Frames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "scte35-go/") && !strings.HasPrefix(l, "\t") {
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// Library tells whether a panic came out of the code under test: the first
// frame below the panic that is not the runtime's or the standard library's
// belongs to it.
func Library(stack string) bool {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "Comcast/scte35-go/") {
			return true
		}
		if strings.HasPrefix(l, "verif.local/sim/vsim") || strings.HasPrefix(l, "verif.local/sim/vsync") {
			continue
		}
		if strings.HasPrefix(l, "verif.local/sim") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}
