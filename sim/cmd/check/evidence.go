package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"time"
)

var rules = map[string]string{
	"C01": "a run is 1 to 4 tasks, each with signals, texts and an operation list of its own, and a schedule (random, priority-based or serial); non-trivial: at least two tasks",
	"C02": "a run is one signal (built, decoded or left by a failed decode) that 1 to 4 tasks read through drawn operation lists under a drawn schedule; non-trivial: at least two tasks",
	"C03": "a run decodes signals from buffers the caller afterwards overwrites, reuses or extends, alone or while tasks use the signals; non-trivial: every run, since each decodes and then changes the buffer",
	"C04": "a run loads a drawn sequence of binary, text, JSON and XML messages (valid, damaged, cut) into one object and each into a fresh object; non-trivial: at least two loads into the same object",
	"C05": "a run sends 1 to 4 messages of drawn content and form through a link that flips, bursts, cuts, pads, swaps, repeats or inserts; non-trivial: at least one fault was injected (see faults_injected)",
	"C06": "a run sends 1 to 4 messages and gives fields or the checksum other values, so that only the checksum is wrong; non-trivial: at least one fault was injected (see faults_injected)",
	"C07": "a run sends 1 to 4 messages and damages or cuts them from a drawn place on, or damages the body of one descriptor; non-trivial: at least one fault was injected (see faults_injected)",
	"C08": "a run loads drawn or damaged messages, texts and documents and applies a drawn operation list to what results; non-trivial: at least one fault was injected (see faults_injected)",
	"C09": "a run is a chain of nodes (library and reference) that receive, edit, store and forward signals in binary, base-64, hexadecimal, JSON and XML while messages are lost, repeated, reordered and nodes crash; non-trivial: at least three nodes or at least one fault",
	"C10": "as C09 with more JSON and XML hops, among them documents written by other vendors' tools; non-trivial: at least three nodes or at least one fault",
	"C11": "a run executes 1 to 4 invocations of the real command line tool with drawn arguments and standard input delivered in drawn pieces, with errors, pauses and an early or late end; non-trivial: at least one fault was injected (see faults_injected)",
	"C12": "a run executes drawn operations under several log destinations (slow, failing, panicking, calling back, replaced during the run) and under none; non-trivial: at least one fault was injected (see faults_injected)",
	"C20": "as C09, and every node asks each signal drawn questions (encode, text forms, table, JSON, XML, every method) when it arrives, after restarts and after edits, and asks a new object of the same content the same; non-trivial: at least three nodes or at least one fault",
	"C21": "a long service: hundreds to thousands of seeded signals, one after the other, in drawn forms, with drawn damage, loaded into new objects or one, asked drawn questions, edited and let go; simulated time advances 40 ms per signal; live heap, goroutines and the statements a fixed set of calls takes are compared between stretches; non-trivial: every run",
	"C13": "as C09 with edits that make signals outgrow the format; non-trivial: at least three nodes or at least one fault",
}

func evidence(b *builder, seed uint64, st *stats, vs []*Replay, mismatch int) error {
	var samples []any
	for _, s := range st.Samples {
		plan := string(s.Plan)
		if len(plan) > 1500 {
			plan = plan[:1500] + "..."
		}
		tr := s.Trace
		if len(tr) > 40 {
			tr = tr[:40]
		}
		samples = append(samples, map[string]any{"run": s.Index, "scenario": s.Scenario, "plan": plan, "events": tr})
		if len(samples) == 4 {
			break
		}
	}
	hours := st.wall / 3600
	cov := map[string]any{
		"evaluations":                   st.Runs,
		"runs_not_judged":               len(st.trouble),
		"runs_not_judged_rule":          "runs the simulator itself could not carry out (set aside; more than 8 end the check with status 2)",
		"distinct_nontrivial":           len(st.hashes),
		"rule":                          rule(*prop),
		"samples":                       samples,
		"nontrivial":                    st.Nontrivial,
		"seeds":                         st.Runs,
		"runs_and_seeds_per_hour":       int(float64(st.Runs) / hours),
		"phases":                        st.perPh,
		"worker_processes":              st.procs,
		"events_recorded":               st.Events,
		"statements_of_real_code":       st.Steps,
		"scheduling_decisions":          st.Switches,
		"faults_injected":               st.Faults,
		"rare_conditions_reached":       st.Probes,
		"scenarios":                     st.Scenarios,
		"distinct_interleavings":        len(st.inters),
		"distinct_interleavings_rule":   "distinct sequences of (step, task) switches of the concurrent phases, or of (event, fault) decisions where a run has no concurrent phase",
		"places_reached":                st.Sites,
		"place_pairs_reached":           st.Edges,
		"place_pairs_reached_rule":      "distinct pairs of successively executed statements of the code under test, across task switches, in the process that reached most (hashed to 2^20)",
		"simulated_seconds":             math.Round(float64(st.SimNS)/1e9*1000) / 1000,
		"runs_repeated_in_other_order":  st.compare,
		"of_these_with_different_log":   mismatch,
		"discarded_plans":               st.Invalid,
		"violations_of_other_propertys": st.Other,
		"real_code":                     realCode,
		"stubs":                         stubs(*prop),
	}
	e := map[string]any{
		"property": *prop,
		"tier":     *tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": cov,
		"assumptions": []string{
			"the reference model in sim/model is right about ANSI/SCTE 35",
			"seeded sampling: what no run reached is not decided",
			"tasks are switched between statements of this library; calls into the Go standard library and bamiaux/iobit are atomic (the race-detector build sees conflicts inside them all the same)",
		},
		"wall_s":     math.Round(st.wall*10) / 10,
		"violations": len(vs),
	}
	if len(vs) > 0 {
		e["violation"] = vs[0].Message
	}
	j, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(*verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	_ = time.Now
	return os.WriteFile(filepath.Join(dir, *prop+".json"), j, 0o644)
}

var realCode = []string{"pkg/scte35 (all of it, instrumented at every statement)", "cmd and cobra (C11 only)", "github.com/bamiaux/iobit", "Go standard library (encoding/json, encoding/xml, log, fmt, ...)"}

func stubs(p string) []string {
	s := []string{"package sync as used by the library: simulated locks, Once, Pool, WaitGroup with scheduling decisions", "time.Now/Sleep as used by the library: simulated clock", "time.Local: set per node and run"}
	switch p {
	case "C09", "C10", "C13", "C20":
		s = append(s, "network, disks, journals, crashes and restarts of the chain", "peer nodes: reference model in sim/model")
	case "C05", "C06", "C07":
		s = append(s, "link: simulated", "other vendors' encoders: reference model in sim/model")
	case "C11":
		s = append(s, "standard input, output and error of the process: hooks in a compile-time overlay of package os")
	case "C12":
		s = append(s, "log destination: simulated writer", "standard output and error: hooks in a compile-time overlay of package os")
	}
	return s
}

func rule(p string) string {
	r := rules[p]
	if r == "" {
		r = "each run is a plan drawn from (seed, property, run number)"
	}
	return r + fmt.Sprintf("; distinct: different hash over the complete event log of the run")
}
