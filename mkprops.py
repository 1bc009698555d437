#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long strings stay readable)."""
import json
P=[]
S="pkg/scte35/"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

OVERLAY="none in /repo: the check compiles a copy of the sources with a scheduler call before every statement (go build -overlay)"

p("C01","Concurrent work on separate signals does not interfere",
 "Any number of callers may decode, encode, render, marshal, unmarshal and query different signals at the same time: under every interleaving each call returns exactly what it returns when it runs alone, every signal keeps its content afterwards, and there is no data race between such calls. In particular a result never depends on which other signals the process has handled before or is handling meanwhile.",
 ["schedules","histories"],
 "every interleaving of any mix of operations by any number of callers on different signals, from the first call in a fresh process on",
 "The tests are sequential and single-caller; none starts a second goroutine, so no interleaving is ever tried.",
 [S+"scte35.go",S+"splice_info_section.go",S+"splice_descriptor.go",S+"segmentation_upid.go",S+"crc_32.go",S+"table.go"],
 [("every operation works on its own receiver and on buffers it allocates; package-level state is limited to constant tables and the logger",S+"*.go"),
  ("the CRC table is never written",S+"crc_32.go:crc32Table")],
 state=[("package-level variables","must be constant or synchronised",S+"crc_32.go, scte35.go")],
 observe=["return values of every public operation","content of each signal after all callers finished","race detector reports"],hook=OVERLAY)

p("C02","A shared signal can be read concurrently and reading never changes it",
 "Encoding a signal (binary, base-64, hex), rendering it (table, JSON, XML) and querying it are read-only. Callers that share one signal and only read it each get, under every interleaving and without a data race, what a lone caller gets, and the signal's content is the same afterwards as before.",
 ["schedules","histories"],
 "every interleaving of any mix of read-only operations by any number of callers on one signal, however that signal was made (decoded, built by hand, loaded from JSON or XML)",
 "The tests call one operation once on a signal nobody else holds; a write hidden in a read operation, or a temporary one that is undone before returning, is invisible to them.",
 [S+"splice_info_section.go",S+"segmentation_upid.go",S+"splice_command.go",S+"splice_descriptor.go",S+"segmentation_descriptor.go"],
 [("encode/length/writeTo only read the receiver",S+"*.go"),
  ("UPID text is normalised on a local copy",S+"segmentation_upid.go:valueBytes"),
  ("the JSON type discriminator is produced while marshalling",S+"*.go:MarshalJSON")],
 observe=["return values","exported fields of the signal before and after","race detector reports"],hook=OVERLAY)

p("C03","A decoded signal is independent of the caller's buffers",
 "Loading a signal never writes to the caller's buffer and never depends on bytes outside the slice it was given; once it has returned, overwriting or reusing that buffer at any moment changes nothing the signal reports or encodes. Likewise the bytes an encoding returns belong to the caller: changing them affects no signal and no other encoding, earlier or later.",
 ["histories","schedules","inputs"],
 "every order of receiving into, decoding from and overwriting a receive buffer, including overwriting it while another caller renders or encodes a signal decoded from it",
 "The tests decode from strings, which nobody can overwrite afterwards, so no test holds a buffer that changes after the decode.",
 [S+"splice_info_section.go",S+"private_command.go",S+"private_descriptor.go",S+"segmentation_upid.go",S+"dtmf_descriptor.go",S+"audio_descriptor.go"],
 [("the section is decoded from a private copy of the caller's bytes",S+"splice_info_section.go:Decode"),
  ("every encoding is written into a newly allocated buffer",S+"splice_info_section.go:Encode")],
 state=[("private bytes, alignment stuffing, text fields","must not share memory with the input",S+"private_descriptor.go, private_command.go, splice_info_section.go")],
 observe=["content and encoding of the signal after its source buffer was overwritten","caller's buffer and its neighbourhood after a load"],hook=OVERLAY)

p("C04","A reused signal object carries nothing over",
 "Loading a signal (from binary, JSON or XML) into an object that has held other signals before, after any history of successful and failed loads and edits, gives the same error, content and re-encoding as loading it into a new object. A failed binary load leaves only what that load itself decoded; a failed JSON or XML load leaves the object as it was. What the caller kept of the earlier content (a copy of the object, its command or descriptors) is not changed by a load.",
 ["histories","fault_sequences"],
 "every history of loads (successful, damaged, cut short) and edits on one object, in any mix of formats",
 "Every test loads exactly once into a new object.",
 [S+"splice_info_section.go"],
 [("all state of the object is replaced at the start of a load",S+"splice_info_section.go:Decode, UnmarshalJSON, UnmarshalXML")],
 state=[("alignment stuffing, checksums, descriptors, command","per-signal state that must not survive into the next load",S+"splice_info_section.go:SpliceInfoSection")],
 observe=["error, exported fields, table, JSON, XML and encoding after each load"])

p("C05","Damage in transit is never accepted silently",
 "Decoding reports an error for every delivery whose CRC_32 does not verify over all the delivered bytes; that covers every damage of up to three flipped bits or one burst of up to 32 bits in any signal, and lost, repeated, swapped or surplus pieces of it. An undamaged signal from a conforming encoder, this library's or another's, decodes without error; and every decode error matches one of the package's exported error values.",
 ["fault_sequences","inputs"],
 "every signal and every transit fault on it: bit flips, bursts, cuts, losses, repeats, swaps and padding, in binary, base-64 and hexadecimal form",
 "One test has one signal with one bad checksum; the space of (signal, damage) pairs and the code paths that skip or shorten the verification are not sampled.",
 [S+"crc_32.go",S+"splice_info_section.go",S+"scte35.go"],
 [("CRC-32/MPEG-2 over the whole message, compared with the last four bytes, at the end of every otherwise successful decode",S+"crc_32.go:verifyCRC32, "+S+"splice_info_section.go:Decode"),
  ("reader over/underflow is turned into an error",S+"scte35.go:readerError")],
 observe=["error returned for each delivery"])

p("C06","Checksum-only damage is identifiable and loses no content",
 "When a delivered signal is well formed and only its checksum does not match, because the checksum itself or some field values were altered on the way, decoding returns the checksum error (recognisable with errors.Is) together with the complete content exactly as delivered. Re-encoding that result gives a signal with that content and a correct checksum.",
 ["fault_sequences","inputs"],
 "every signal and every alteration of its checksum or of field values that leaves its structure intact",
 "The tests check one such signal with a fixed payload, and not that the content is complete or that it re-encodes correctly.",
 [S+"splice_info_section.go",S+"crc_32.go"],
 [("the checksum is verified last, after everything else was decoded",S+"splice_info_section.go:Decode"),
  ("encoding recalculates the checksum",S+"splice_info_section.go:Encode")],
 observe=["error identity, decoded content, re-encoded bytes"])

p("C07","Best-effort decoding keeps everything before the damage",
 "Decoding a signal whose bytes were damaged or cut off always returns a signal object, in which every field that was completely transmitted before the first damaged byte has its original value (the optional sub_segment_num and sub_segments_expected count as one field, each character of a DTMF descriptor and each private byte is one; text that is not base-64 or hexadecimal at all carries no bytes). A descriptor damaged inside its own body disturbs no other descriptor, before or after it, nor their number and order, and the damage is still reported as an error, also when a matching CRC_32 was made after it, as long as what the descriptor holds no longer fits the length it announces (the UPIDs inside a MID excepted). Likewise a splice command that was damaged and no longer fills exactly the length given for it is reported as an error even if the CRC_32 matches, and so is a section or a descriptor loop that ends inside something it announces.",
 ["fault_sequences","inputs","crash_points"],
 "every signal, every cut position (the sender or link dies after any byte) and every damage position",
 "The tests contain four hand-picked bad signals and check the error only; no test cuts a signal at every position or compares what survived.",
 [S+"splice_info_section.go",S+"splice_descriptor.go",S+"splice_command.go",S+"scte35.go"],
 [("fields are stored as soon as they are read; errors are returned with what was decoded so far",S+"splice_info_section.go:Decode, "+S+"scte35.go:DecodeBase64, DecodeHex"),
  ("a descriptor's error is remembered while the loop goes on",S+"splice_descriptor.go:decodeSpliceDescriptors")],
 observe=["fields of the returned signal next to the error"])

p("C08","Nothing received can crash or hang the process",
 "For every byte sequence, base-64 or hexadecimal text, JSON document or XML document, however damaged, loading it returns a signal or an error, and every operation on whatever signal object results, including one left by a failed load, returns normally. No such call panics, and each ends within a number of steps, and with an amount of memory, bounded by the size of its input.",
 ["fault_sequences","inputs","histories"],
 "every damaged delivery in every format, followed by every sequence of operations on the result",
 "The tests feed about twenty well-formed signals; after an error they stop instead of using the returned object as the documentation invites users to.",
 [S+"splice_info_section.go",S+"splice_descriptor.go",S+"segmentation_descriptor.go",S+"segmentation_upid.go",S+"splice_schedule.go",S+"splice_insert.go"],
 [("bounded reads that report overflow instead of panicking",S+"*.go:decode"),
  ("nil checks on optional parts",S+"splice_info_section.go:MarshalJSON, Encode, Table")],
 observe=["panics, step count per operation"],hook=OVERLAY)

p("C09","Signals survive any distribution chain unchanged",
 "A signal sent through any chain of nodes that decode, optionally edit and re-encode it (binary, base-64 or hexadecimal), over links that lose, repeat, delay, reorder and damage messages and with nodes that crash and restart, is accepted by a receiver only with exactly the content its originator and the editing nodes gave it (damage that the CRC_32 cannot show aside); once the faults stop, a repeated signal is accepted. Nodes that implement the standard independently understand it the same way, and a node that does not edit re-emits a signal that followed the standard byte for byte.",
 ["histories","fault_sequences","schedules","inputs"],
 "every valid signal of the standard's commands and descriptors, every chain of hops and edits, and every fault sequence on links and nodes",
 "The tests round-trip about twenty signals once, through one process, without edits, and compare encoder and decoder only with each other.",
 [S+"splice_info_section.go",S+"splice_insert.go",S+"splice_schedule.go",S+"time_signal.go",S+"private_command.go",S+"segmentation_descriptor.go",S+"segmentation_upid.go",S+"avail_descriptor.go",S+"dtmf_descriptor.go",S+"time_descriptor.go",S+"audio_descriptor.go",S+"private_descriptor.go"],
 [("decode and encode mirror each other and the standard's bit layout; lengths are derived from content",S+"*.go:decode, encode, length"),
  ("UPID text forms are reversible",S+"segmentation_upid.go:NewSegmentationUPID, valueBytes")],
 observe=["content and bytes at every hop against an independent model of the standard"])

p("C10","JSON and XML gateways preserve signals",
 "A signal that travels through any sequence of nodes exchanging it as JSON, XML or binary, in any mix of time zones, alone or inside larger documents (a list of signals, a member of a record, an element of a notification), with documents that may be cut short by a crash or written anew by another tool without changing what they say (other white space, order of members or attributes, quotes, escapes, comments, name space prefixes, upper-case hexadecimal digits, another zone for the same time, values that are zero or none left out or written out or, in XML, leading zeros of a number and 1 or 0 for a truth value), arrives with the content it started with and re-encodes to the same binary signal; a document that was cut short, in which a value has become something its field cannot hold (such as text where a number belongs, or a negative number), or whose XML names a command or descriptor that does not exist, is refused. This covers every value the format can carry (XML cannot carry control characters, and surrounding white space of a UPID is not significant there; stuffing bytes have no JSON or XML form).",
 ["histories","configurations","crash_points","inputs"],
 "every valid signal, every sequence of JSON, XML and binary hops, every time zone of the nodes, every cut position of a document, every equivalent way of writing it, every place in it and kind of unfitting value",
 "The tests load two small documents per format with one command type and one descriptor type, and never marshal, load and re-encode in sequence.",
 [S+"splice_info_section.go",S+"splice_descriptor.go",S+"segmentation_upid.go",S+"splice_schedule.go",S+"scte35.go"],
 [("polymorphic commands and descriptors are selected by type when loading",S+"splice_info_section.go:iSIS, "+S+"splice_descriptor.go:UnmarshalJSON, UnmarshalXML"),
  ("splice times carry their UTC offset",S+"scte35.go:UTCSpliceTime")],
 observe=["documents and re-encoded bytes at each hop"])

p("C11","The command line tool handles any input delivery",
 "The encode command prints the same result however its standard input is split into reads and lines, the same as for the document given as an argument and the same as the library gives; when the input ends early or a read fails at any point it prints an error to standard error and no encoding. The decode command, for every signal argument, damaged or not, and every output format, prints the best-effort details to standard output and any error to standard error, and neither command crashes.",
 ["fault_sequences","crash_points","inputs"],
 "every split of the input into reads, every position at which it ends or fails, every document layout, every damaged argument, and failing output streams",
 "There are no tests of the command line tool at all.",
 ["cmd/encode.go","cmd/decode.go","cmd/scte35.go"],
 [("the whole of standard input is read before it is interpreted, and a read error is reported",  "cmd/encode.go:encodeCommand"),
  ("details are printed before the error","cmd/decode.go:decodeCommand")],
 observe=["standard output and standard error of the commands"])

p("C12","The log destination cannot influence results",
 "Whatever the destination of the diagnostic log does (it fails, writes short, calls back into the library, or is redirected while operations run), every operation returns the same result as with logging discarded. Diagnostics go to the configured logger only, never to the process's standard output or error or to another logger.",
 ["fault_sequences","schedules","configurations"],
 "every behaviour of the log writer at each write, and every moment at which the log is redirected",
 "The tests never redirect or fail the log.",
 [S+"scte35.go",S+"crc_32.go",S+"segmentation_upid.go",S+"segmentation_descriptor.go",S+"splice_info_section.go"],
 [("the logger is only written to; its outcome is not used",S+"*.go:Logger.Printf")],
 state=[("Logger","the configured diagnostic logger",S+"scte35.go")],
 observe=["results of operations, bytes written to each stream"],hook=OVERLAY)

p("C13","A signal that outgrows the format is refused, not emitted corrupt",
 "As nodes along a chain add descriptors, UPIDs, components, events, characters or private data to a signal, or change its values, each encoding either succeeds with bytes that decode to exactly that signal, or returns an error; the base-64 and hexadecimal forms are empty exactly when it returns an error. Signals within the standard's limits are always encoded, no length or count is ever cut off or wrapped, and a number or time that needs more bits than its field has (such as a pts_time of 2^33, a segment_num of 300 or a splice time after 2116), like a text that the binary form of its field cannot carry (such as characters beyond Latin 1 in a UPID, a TI that is no 64-bit number, invalid base-64, a managed private UPID without its format identifier, or a language code that is not three bytes long) is refused rather than cut off or replaced, as is a signal without a splice command.",
 ["histories","inputs"],
 "every history of additions to a signal, up to and beyond each length and count limit of the format",
 "The tests encode small signals only; none comes near a limit.",
 [S+"splice_info_section.go",S+"segmentation_descriptor.go",S+"splice_insert.go",S+"splice_schedule.go",S+"dtmf_descriptor.go",S+"audio_descriptor.go",S+"private_descriptor.go",S+"private_command.go"],
 [("lengths and counts are checked against their field width before encoding",S+"splice_info_section.go:Encode, "+S+"*.go:encode")],
 observe=["error, bytes and text forms of each encoding"])

p("C20","What a signal tells depends on its content, not on its past",
 "At every point of a signal's life in a node - after any sequence of loads (into new or reused objects, from any form), restarts, journal reads, edits through the exported fields and earlier questions - everything the object tells (binary, base-64, hexadecimal, JSON, XML, table rendering and the result of every exported method, such as names and durations) equals what a newly built or newly decoded object with the same content tells. No earlier answer, load or edit shows through.",
 ["histories","fault_sequences","inputs"],
 "every history of loads, questions, edits, crashes and restarts of the nodes a signal passes",
 "The tests ask each object once, right after making it, and never change an object and ask again.",
 [S+"splice_info_section.go",S+"table.go",S+"segmentation_descriptor.go",S+"segmentation_upid.go",S+"splice_insert.go",S+"splice_schedule.go"],
 [("encoders, lengths, names and tables are computed from the fields at each call",S+"splice_info_section.go:Encode, Table, Duration, MarshalXML, "+S+"*.go:length, writeTo, Name")],
 observe=["results of the exported operations of two objects with equal content"])

p("C21","Handling signals leaves nothing behind in the process",
 "However many signals a process has loaded, edited, encoded, rendered, queried and let go, in whatever form they came and whether they were intact, damaged or refused, it keeps nothing of them: neither the memory the process holds nor the number of its goroutines nor the work that a given call takes grows in proportion to the number of signals handled before. The same holds for one signal object that is loaded again and again. (Pools and caches of a fixed size are allowed.)",
 ["histories","inputs"],
 "every history of signals a long-running process handles, of any length",
 "The tests handle a few dozen signals and never look at what stays behind.",
 [S+"splice_info_section.go",S+"splice_descriptor.go",S+"splice_command.go",S+"crc_32.go",S+"segmentation_upid.go",S+"scte35.go"],
 [("decoders and encoders keep no state between calls; the only package variables are tables, the logger and error values",S+"scte35.go, crc_32.go, *.go:decode, encode")],
 state=[("package-level state","the CRC table and the logger",S+"crc_32.go, scte35.go")],
 observe=["live heap after collection, goroutine count, statements executed per call, over a simulated service of thousands of signals"],hook=OVERLAY)

# ---- pure functions: not simulation targets ----
p("C14","Tick and duration conversions are inverse",
 "Converting a number of 90 kHz ticks to a duration and back gives the same number for every tick count a signal can carry, and conversions are monotonic.",
 ["inputs"],"every 33-bit and 40-bit tick count","One example value is tested.",
 [S+"scte35.go"],[("floating point conversion, truncating one way and rounding up the other",S+"scte35.go:TicksToDuration, DurationToTicks")])
p("C15","Names match the standard's tables",
 "The human-readable names reported for segmentation types, UPID types, SAP types, device restrictions and encryption algorithms are those of the standard's tables for every code, and unknown codes are reported as such.",
 ["inputs"],"every code value","A handful of codes appear in test tables.",
 [S+"segmentation_descriptor.go",S+"segmentation_upid.go",S+"splice_info_section.go"],[("switch over constants",S+"segmentation_descriptor.go:Name")])
p("C16","The table rendering shows the whole signal",
 "The tabular rendering lists every field of a signal exactly once, in the standard's order, with the value the binary form carries.",
 ["inputs"],"every signal","A few renderings are compared literally.",
 [S+"table.go",S+"splice_info_section.go"],[("one writeTo per element",S+"*.go:writeTo")])
p("C17","XML output is valid against the published schema",
 "Every XML document the library produces for a valid signal is valid against the SCTE 35 XML schema.",
 ["inputs"],"every valid signal","The tests never validate against the schema.",
 ["docs/scte_35_20230713.xsd",S+"splice_info_section.go"],[("xml struct tags",S+"*.go")])
p("C18","Reported signal duration",
 "The duration reported for a signal is its splice_insert break duration if it has one, and otherwise the sum of its segmentation durations.",
 ["inputs"],"every signal","Not tested.",
 [S+"splice_info_section.go"],[("Duration",S+"splice_info_section.go:Duration")])
p("C19","Foreign documents follow the declared UPID format",
 "A UPID in a JSON or XML document from another vendor is interpreted according to the format it declares (text, hexadecimal, base-64 or private).",
 ["inputs"],"every document with any declared UPID format","Only the library's own choice of format is tested.",
 [S+"segmentation_upid.go"],[("valueBytes chooses by UPID type",S+"segmentation_upid.go:valueBytes")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
import re
for x in P: print(x["id"],len(re.findall(r'[.](\s|$)',x["statement"])),x["title"])
