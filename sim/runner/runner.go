// Package runner executes simulated runs inside a worker process.
package runner

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"time"

	"verif.local/sim/core"
	"verif.local/sim/proto"
	"verif.local/sim/rng"
	"verif.local/sim/scen"
	"verif.local/sim/vsim"
)

// Exec runs one plan. harness is set if the simulator itself failed.
func Exec(prop string, s core.Scenario, plan any, verbose bool) (o *core.Out, harness string) {
	o = core.NewOut()
	o.Verbose = verbose
	defer func() {
		vsim.Budget(0)
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if core.Library(st) {
				o.Fail(prop, core.Cls(fmt.Sprintf("panic: %v", r)), "panic: %v\n%s", r, core.Frames(st))
				return
			}
			harness = fmt.Sprintf("%s: %v\n%s", s.Name(), r, st)
		}
	}()
	time.Local = time.UTC
	scen.Quiet()
	vsim.SetNow(1_700_000_000_000_000_000)
	vsim.Budget(500_000_000)
	s0 := vsim.Steps()
	if vsim.Goroutines {
		phase(prop, s, plan, o)
	} else {
		s.Exec(plan, o)
	}
	o.Steps = vsim.Steps() - s0
	return
}

// phase executes a run as a simulated task, for code under test that starts
// goroutines of its own anywhere.
func phase(prop string, s core.Scenario, plan any, o *core.Out) {
	seed := rng.HashString(string(Raw(plan)))
	strat := vsim.Strategy{Kind: "random", Seed: seed, P: []int{1, 2, 4, 16, 64, 1024}[seed%6]}
	res := vsim.Run([]func(){func() { s.Exec(plan, o) }}, strat)
	o.Switches += len(res.Switches)
	o.Probes["goroutines started by the library"] += max(0, res.Tasks-1)
	for _, p := range res.Panics {
		if !core.Library(p.Stack) {
			panic("task " + p.Value + "\n" + p.Stack)
		}
		o.Fail(prop, core.Cls("panic: "+p.Value), "panic: %s\n%s", p.Value, core.Frames(p.Stack))
	}
	if res.Deadlock {
		o.Fail(prop, "blocked forever", "an operation waits for something that never happens")
	}
}

// Do executes a request's items in order.
func Do(q *proto.Request) []proto.Reply {
	var out []proto.Reply
	for i := range q.Items {
		it := &q.Items[i]
		var r proto.Reply
		s := core.Registry[it.Scenario]
		if s == nil {
			r.Harness = "no scenario " + it.Scenario
			out = append(out, r)
			continue
		}
		p, err := s.Parse(it.Plan)
		if err != nil {
			r.Invalid = err.Error()
			out = append(out, r)
			continue
		}
		o, h := Exec(q.Prop, s, p, q.Verbose)
		r.Harness, r.Invalid, r.Hash, r.Res = h, o.Invalid, o.Hash, o.Res
		r.Viol, r.Trace = o.Viol, o.Trace
		if q.Sched {
			r.Sched = o.Sched
		}
		out = append(out, r)
	}
	return out
}

// Raw encodes a plan.
func Raw(p any) json.RawMessage {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return b
}
