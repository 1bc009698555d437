// Package proto is what the coordinator and its worker processes exchange.
package proto

import (
	"encoding/json"

	"verif.local/sim/core"
	"verif.local/sim/vsim"
)

// Item is one simulated run.
type Item struct {
	Scenario string          `json:"scenario"`
	Plan     json.RawMessage `json:"plan"`
}

// Request asks a worker to execute items one after another.
type Request struct {
	Prop    string `json:"prop"`
	Items   []Item `json:"items"`
	Verbose bool   `json:"verbose,omitempty"`
	Sched   bool   `json:"sched,omitempty"`
}

// Reply is the outcome of one item.
type Reply struct {
	Viol    []core.Violation `json:"viol,omitempty"`
	Invalid string           `json:"invalid,omitempty"`
	Harness string           `json:"harness,omitempty"` // trouble of the simulator itself
	Hash    uint64           `json:"hash"`
	Res     uint64           `json:"res"`
	Sched   []vsim.Switch    `json:"sched,omitempty"`
	Trace   []string         `json:"trace,omitempty"`
}

// Found is a violation found while exploring.
type Found struct {
	Index uint64           `json:"index"`
	Prev  []uint64         `json:"prev"` // runs of the same process before it
	Item  Item             `json:"item"`
	Viol  []core.Violation `json:"viol"`
}

// Report is what an exploring worker did.
type Report struct {
	Runs       uint64            `json:"runs"`
	Nontrivial uint64            `json:"nontrivial"`
	Invalid    uint64            `json:"invalid"`
	Events     uint64            `json:"events"`
	Steps      uint64            `json:"steps"`
	Switches   uint64            `json:"switches"`
	SimNS      int64             `json:"sim_ns"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Scenarios  map[string]uint64 `json:"scenarios"`
	Other      map[string]int    `json:"other"` // violations of other properties
	Sites      int               `json:"sites"`
	Edges      int               `json:"edges"`
	First      uint64            `json:"first"`
	Last       uint64            `json:"last"`
	Found      *Found            `json:"found,omitempty"`
	Harness    string            `json:"harness,omitempty"`
	Samples    []Sample          `json:"samples,omitempty"`
}

// Sample is a run written out.
type Sample struct {
	Index    uint64          `json:"index"`
	Scenario string          `json:"scenario"`
	Plan     json.RawMessage `json:"plan"`
	Trace    []string        `json:"trace"`
}
