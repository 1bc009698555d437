#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
"C01":"deterministic simulation: seeded statement-level schedules of caller tasks, solo-run oracle, race-detector build",
"C02":"deterministic simulation: seeded schedules of readers of one signal, solo-run and snapshot oracle, race-detector build",
"C03":"deterministic simulation: buffer reuse and overwriting at seeded instants, byte-guard and snapshot oracle, race-detector build",
"C04":"deterministic simulation: seeded histories of faulted loads into one object against a new object",
"C05":"deterministic simulation: seeded transit faults on a simulated link, independent CRC and codec model as oracle",
"C06":"deterministic simulation: seeded structure-preserving transit damage, independent codec model as oracle",
"C07":"deterministic simulation: seeded cuts and damage at every position, prefix oracle from an independent codec model",
"C08":"deterministic simulation: seeded faulted deliveries in every format, operations on the remains, panic and step-count oracle",
"C09":"deterministic simulation: event-driven distribution tree with network, crash and storage faults against an independent model",
"C10":"deterministic simulation: event-driven gateway tree (JSON, XML, binary, time zones) with crash and link faults against an independent model",
"C11":"deterministic simulation: the program in process over simulated standard streams with seeded splits, ends and failures",
"C12":"deterministic simulation: seeded failing, short, re-entrant and redirected log destinations against discarded logging",
"C13":"deterministic simulation: growth histories across a distribution tree, independent model of the format's limits",
"C20":"deterministic simulation: histories of loads, questions, edits, crashes and restarts in a distribution tree, a new object of equal content as oracle",
"C21":"deterministic simulation: long services of thousands of seeded signals with transit faults, live heap, goroutines and statement counts compared between stretches",
}
ASSUME="Seeded search over schedules, faults and histories: a clean run is evidence for what it reached (see the evidence file), not proof."
N={
"C01":"Every library statement is a possible switch point; results of each task are compared with the same task alone and content with its own snapshot; a second build runs the same schedules under the Go race detector; fresh processes cover lazy initialisation and an opposite-order rerun covers dependence on history. "+ASSUME+" Calls into the standard library and iobit are atomic for the scheduler.",
"C02":"As C01 with one signal shared by readers; exported fields are compared before, during and after. "+ASSUME+" Calls into the standard library and iobit are atomic for the scheduler.",
"C03":"Guard bytes around every caller buffer, overwriting at every kind of instant, and returned encodings overwritten too. "+ASSUME,
"C04":"The oracle is the library itself on a new object, after any history. "+ASSUME,
"C05":"Trusts the CRC and encoder of the model in sim/model, written from the standard. "+ASSUME,
"C06":"Trusts the model's knowledge of which bits are field values. "+ASSUME,
"C07":"Trusts the model's map from fields to bytes. "+ASSUME,
"C08":"Panics, runaway recursion and step budgets are observed; allocation is bounded by the process limit. "+ASSUME,
"C09":"Trusts the model in sim/model for content and bit layout. "+ASSUME,
"C10":"Trusts the model in sim/model for content and bit layout; documents are only exchanged between nodes running this library. "+ASSUME,
"C11":"The program's real main, cobra and the library run in process; only the three standard streams are simulated. "+ASSUME,
"C12":"The oracle is the same operations with logging discarded. "+ASSUME,
"C13":"Trusts the model's sizes and limits. "+ASSUME,
"C20":"The oracle is the library itself on an object without a past; all nodes share a time zone (times are shown in the zone their document gave them), and an empty list may be null or [] in JSON. "+ASSUME,
"C21":"Live heap objects and bytes after collection are exact to a few objects; growth counts only if it goes on in proportion through more than 10,000 further signals. Leaks smaller than about one object in 60 signals, and steps inside the standard library, are not seen. "+ASSUME,
}
NA={
"C14":"A pure function of one integer: no schedule, clock, fault or history for a simulator to control. (Chains exercise conversions indirectly; nothing is claimed.)",
"C15":"A fixed table from codes to names: a pure function of its input, nothing to schedule or to fault.",
"C16":"A pure function from one signal to text; the part that depends on schedules and state is C01, C02 and C04.",
"C17":"A static relation between one document and a schema: no schedule, fault or history, and no schema validator in the simulation's scope.",
"C18":"A pure function of one signal's fields: nothing to schedule or to fault.",
"C19":"A pure function of one foreign document; the library documents no such support, and no fault or schedule takes part.",
}
m={"version":1,
"setup_cmd":"./setup.sh",
"hooks":{"guard":"none in /repo: instrumentation happens in a compile-time overlay (go build -overlay) made from /repo's current tree; the tag oshook guards the overlay of package os in /verif/sim","enable":"./check.sh builds sim/cmd/instr, which writes instrumented copies of /repo's sources and of package os into /verif/.build and compiles the simulator against them","source_commits":[]},
"checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in T:
        m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,"evidence_file":"evidence/%s.json"%i,"technique":T[i],"level":"exploration","level_note":N[i]})
    else: m["not_applicable"].append({"property":i,"reason":NA[i]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
