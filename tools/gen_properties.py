#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is diffable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Round trip does not depend on how the I/O is scheduled",
 "Writing any supported value to any sink, however the sink splits or interrupts the writes, yields exactly the bytes of an uninterrupted in-memory encoding. Reading those bytes back from any source, however it fragments or interrupts the reads, yields an equal value and consumes exactly the bytes of that record, leaving whatever follows untouched. Every such operation finishes after a bounded number of I/O calls once interruptions stop.",
 ["schedules","inputs","configurations"],
 "every value of every supported library and derived type, every split of the byte stream into short writes/reads and retryable interruptions, both integer encodings and both vector encodings",
 "The tests encode to Vec and decode from slices, which never split, interrupt or run on into a following record; the space of schedules x values is unbounded.",
 ["src/implementations","src/lib.rs","src/slice_reader.rs","revision-derive/src/expand"],
 [("per-type serialise/deserialise impls must use complete-transfer I/O calls","src/implementations/*.rs"),("derived codecs delegate to the same calls","revision-derive/src/expand/{ser,de}.rs")],
 observe=["bytes accepted by the sink","value returned","stream position after the call"])
p("P02","No silently lost or altered write when the sink fails",
 "If the sink fails or fills up at any byte, encoding reports an error; it reports success only if the sink accepted every byte of the record. Whatever the sink accepted before the failure is a prefix of the fault-free encoding, and encoding the same value again afterwards writes the identical record. A value that has no encoding (a path that is not UTF-8, a system time before 1970), alone or anywhere inside another value, is refused with an error, never stored as something else.",
 ["fault_sequences","crash_points","inputs"],
 "every value (with or without an encoding), every byte position at which the sink returns an error, refuses with zero bytes accepted, or reports being full",
 "No existing test uses a failing writer; failure position x type x value cannot be sampled by hand.",
 ["src/implementations","revision-derive/src/expand/ser.rs","revision-derive/src/expand/optimised","src/optimised/envelope.rs"],
 [("write errors are propagated from each write","src/implementations/*.rs"),("length-prefixed payloads are buffered and flushed after their header","revision-derive/src/expand/optimised/*.rs, src/optimised/envelope.rs")],
 observe=["Result of the encode","bytes accepted by the sink"])
p("P03","A torn or unreadable record is never taken for a whole one",
 "If a record is cut short at any byte, or the source fails before the record's last byte has been delivered, then decoding it, skipping it (with or without checking) and fully walking it all return an error. None of them panics, hangs or reports success.",
 ["crash_points","fault_sequences","inputs"],
 "every value, every cut position 0..len-1, every read position at which the source fails, every consumer (decode, skip over a stream, skip over memory, checked skip, walk)",
 "A few hand-written truncations exist for some indexed payloads; every cut of every type through every consumer is not covered.",
 ["src/implementations","src/slice_reader.rs","src/walk.rs","revision-derive/src/expand"],
 [("exact-length reads","src/implementations/*.rs"),("bounds-checked slice advance","src/slice_reader.rs"),("walker accessors propagate errors","src/walk.rs, revision-derive/src/expand/walk.rs")],
 observe=["Result of each consumer"])
p("P04","Records are self-delimiting for every kind of consumer",
 "In a stream of concatenated records of mixed types and mixed revisions, decoding, skipping from a stream, skipping in memory, checked skipping and walking each consume exactly the same bytes per record, so any mixture of passes stays aligned. After a crash truncates such a log, every complete record before the cut is recovered unchanged and the torn one is reported as an error.",
 ["histories","crash_points","inputs"],
 "every history of appends by writers at any revision, every crash point, every per-record choice of consumer",
 "Tests consume one record per buffer and mostly ignore the remaining length, so a consumer that over- or under-reads goes unnoticed.",
 ["src/lib.rs","src/implementations/skip.rs","src/implementations/walk.rs","revision-derive/src/expand/skip.rs","revision-derive/src/expand/walk.rs"],
 [("skip impls mirror the decoder's layout","src/implementations/skip.rs, revision-derive/src/expand/skip.rs"),("walkers stop at the end of the value","src/walk.rs")],
 observe=["stream position after each consumer","sequence of recovered records"])
p("P05","A newer build reads every record an older build wrote",
 "Across any sequence of schema changes, a build decodes every record written by any earlier build into exactly the value the declared evolution prescribes: surviving fields and variants keep their data, added fields take their default, removed fields and variants go through their conversion, each told the revision that was stored. This holds for every mixture of layouts along the history and at every nesting level, and survives rewriting by intermediate builds.",
 ["histories","configurations","inputs"],
 "every schema history (add/remove/rename/convert fields and variants, change discriminants, change layout), every order of upgrades, crashes and rewrites across a fleet, every value",
 "Tests pin a handful of two-step histories; the number of (history, writer revision, reader revision, nesting, value) combinations is unbounded.",
 ["revision-derive/src/expand/de.rs","revision-derive/src/expand/optimised","revision-derive/src/expand/common.rs","revision-derive/src/ast"],
 [("one decode arm per declared revision","revision-derive/src/expand/{mod,de}.rs"),("default and conversion calls","revision-derive/src/expand/de.rs, optimised/struct_codegen.rs"),("per-revision discriminant numbering","revision-derive/src/expand/common.rs")],
 state=[("stored revision","number prefixed to each derived value","revision-derive/src/expand/mod.rs")],
 observe=["decoded value compared with a reference upgrade model"])
p("P06","An older build refuses records from a newer build",
 "A build that meets a record carrying a revision it does not know, whether because a newer build wrote it or because the stored number was damaged, returns an error from decoding, skipping, checked skipping and walking. It never misreads such a record as one of its own revisions, and the reported current revision of a type is the number its writer stores.",
 ["histories","inputs","configurations"],
 "every pair of builds in a mixed-version fleet, every record, every unknown revision number including zero, at top level or nested",
 "Tests check one or two unknown revisions on decode only.",
 ["revision-derive/src/expand/mod.rs","revision-derive/src/expand/walk.rs","revision-derive/src/expand/skip.rs"],
 [("revision dispatch with a refusing default arm","revision-derive/src/expand/mod.rs, walk.rs")],
 observe=["Result of each consumer","stored revision number"])
p("P07","Stored bytes stay compatible with the published wire format",
 "Every value is written as exactly the bytes that the documented format prescribes for the selected integer and vector encodings, layout and revision, so records written by already deployed builds stay readable and records written now are readable by them. Equivalent types that share a format (owned, borrowed, boxed, shared) produce identical bytes.",
 ["histories","configurations","inputs"],
 "every value of every supported type, every build in the fleet, every feature configuration",
 "A round-trip test cannot notice a change made consistently to writer and reader; only a few types have pinned byte strings.",
 ["src/implementations","src/optimised","revision-derive/src/expand"],
 [("integer codec","src/implementations/primitives.rs"),("bulk vectors","src/implementations/vecs.rs, specialised.rs"),("tagged and indexed layouts","src/optimised, revision-derive/src/expand/optimised")],
 observe=["bytes compared with an independent codec standing in for the deployed build"])
p("P08","Walking a record agrees with decoding it, under any access schedule",
 "Visiting a record field by field, element by element or entry by entry, with any choice of decode, skip, descend, peek or raw-byte access at each step, yields exactly the parts of the fully decoded value. An access that fails, because of a transient source error or because it was made out of order, returns an error and leaves the walk able to continue correctly.",
 ["schedules","fault_sequences","inputs"],
 "every value of every walkable type written by the same build, every sequence of accessor choices, every transient source failure at an access boundary",
 "Tests follow a few fixed access orders on small values with an infallible source.",
 ["src/walk.rs","src/implementations/walk.rs","revision-derive/src/expand/walk.rs","src/slice_reader.rs"],
 [("walkers advance counters only after success","src/walk.rs"),("generated accessors","revision-derive/src/expand/walk.rs")],
 state=[("remaining / position counters","items or fields still to visit","src/walk.rs")],
 observe=["values and byte slices returned by accessors","source position"])
p("P09","Walking an older record presents the current schema's view",
 "A walker opened on a record written at any earlier revision gives, for every field and variant of the current schema, the same value that fully decoding the record would give, whatever layout that revision used. Names and numbers it reports for variants and fields are those of the stored revision or the current one as documented, and never identify the wrong variant.",
 ["histories","schedules","inputs"],
 "every schema history, every writer/reader build pair, every access schedule",
 "Tests walk a few purely additive legacy histories; mixed layouts, renumbered variants and converted records are not walked.",
 ["revision-derive/src/expand/walk.rs"],
 [("walker representation chosen from the stored revision","revision-derive/src/expand/walk.rs")],
 observe=["accessor results compared with the decoded value"])
p("P10","Indexed lookups behave like the map, sequence or set they encode",
 "For any indexed map, sequence or set, lookups, positional access and iteration over the stored bytes return exactly what the in-memory container would, above and below the size at which an index is written. A remembered position hint, whatever rows and keys it was learned from, never changes an answer.",
 ["histories","inputs"],
 "every container content, every query, every sequence of hinted lookups over rows of differing shapes with hints carried, lost or arbitrary",
 "Tests use small fixed containers and a couple of fixed hints; answers depend on the history of rows the hint passed through.",
 ["src/optimised/indexed"],
 [("binary search over the offset table","src/optimised/indexed/map_walk.rs"),("hint probing with fallback","src/optimised/indexed/map_walk.rs"),("offset-table encoding","src/optimised/indexed/serialize.rs"),("sequence offsets","src/optimised/indexed/seq_walk.rs")],
 state=[("hint","slot learned from an earlier row","src/optimised/indexed/map_walk.rs")],
 observe=["lookup results vs. a reference container"])
p("P11","Indexed encodings do not depend on in-memory iteration order",
 "Two containers with equal contents encode to identical bytes in the indexed layouts, whatever hashing seed, capacity or insertion history each process happens to have, and whether the container is hash-based, tree-based or persistent. Replicas that hold equal records therefore store equal bytes.",
 ["schedules","histories","inputs"],
 "every content, every pair of hash seeds, insertion/removal histories and container kinds",
 "Hash iteration order is nondeterminism the tests do not control.",
 ["src/optimised/indexed/serialize.rs","src/implementations/imbl.rs"],
 [("entries sorted by serialised key","src/optimised/indexed/serialize.rs")],
 observe=["encoded bytes from different replicas"])
p("P12","Damaged bytes surface as typed errors, never as a crash",
 "If stored bytes of a record are damaged (flipped bits, overwritten ranges, torn or misdirected sectors), every access to it through decoding, skipping, walking or indexed lookup either returns a valid value of its type or returns an error; none panics, aborts, loops or reads outside the record's bytes. Opening an indexed map, sequence or struct for lookups validates its index, so out-of-range or non-monotonic offsets and unordered keys are reported as errors.",
 ["fault_sequences","inputs"],
 "every stored record, every damage pattern, every consumer; memory requested on the strength of a damaged length prefix is out of scope (lengths are trusted, as documented), and so are constructors documented to panic on an unvalidated payload",
 "Tests damage a few hand-picked offsets of fixed payloads.",
 ["src/optimised","src/implementations","revision-derive/src/expand/walk.rs","src/slice_reader.rs"],
 [("prologue validation","src/optimised/validation.rs"),("bounds-checked accessors","src/optimised/indexed/*.rs, revision-derive/src/expand/walk.rs"),("checked scalar decoding","src/implementations/*.rs")],
 observe=["Result vs. panic/abort","bytes of the source that were touched"])
p("P13","Damage inside a length-framed record stays inside it",
 "Damage confined to the body of a record stored in a length-framed layout never affects its neighbours: skipping it still lands exactly on the next record, and decoding it either fails or consumes exactly the framed bytes. All other records in the same log or container remain readable and unchanged.",
 ["fault_sequences","histories","inputs"],
 "every log of framed records, every damage pattern inside bodies, every consumer",
 "No test damages one record and then reads its neighbours.",
 ["revision-derive/src/expand/optimised","src/optimised/envelope.rs"],
 [("payload is carved out by its length before it is interpreted","revision-derive/src/expand/optimised/*.rs")],
 observe=["stream position after a damaged record","neighbour values"])
p("P14","Failing upgrade callbacks surface and leave no partial value",
 "If a user-supplied default or conversion function fails while an older record is being read, decoding reports an error and yields no value, at whatever nesting level it happened. When reading is retried after the callback recovers, the result is the same as if it had never failed.",
 ["fault_sequences","histories","inputs"],
 "every older record, every callback invocation chosen to fail, every retry; skipping without checking calls no callback (checked skipping may, since it may decode)",
 "Tests' callbacks always succeed.",
 ["revision-derive/src/expand/de.rs","revision-derive/src/expand/optimised","revision-derive/src/expand/walk.rs"],
 [("callback errors are propagated","revision-derive/src/expand/de.rs, optimised/*.rs")],
 observe=["Result of decode/walk"])
p("P15","Skipping does not materialise what it skips",
 "Skipping strings, byte buffers, bulk vectors, collections and length-framed records uses memory bounded by a small constant, independent of how large the skipped payload is, and touches the source only up to the record's end. Streaming skips hold this for any fragmentation of the source.",
 ["schedules","inputs"],
 "every record size and shape of the stated kinds, every fragmentation of the source; plain skips, not the checked skip (which may decode to validate), and not types whose skip validates by decoding",
 "No test observes allocations; size is unbounded.",
 ["src/implementations/skip.rs","src/slice_reader.rs","revision-derive/src/expand/skip.rs"],
 [("fixed-size discard buffer","src/slice_reader.rs"),("length-based skip","src/implementations/skip.rs, revision-derive/src/expand/optimised")],
 observe=["bytes allocated during a skip"])
p("P16","Concurrent encoders and decoders do not affect one another",
 "Any number of encodings, decodings, skips and walks may be in flight at once, on different threads or re-entrantly on one, interleaved at every I/O call; each produces exactly what it would have produced alone. One of them failing or being abandoned midway leaves the others unaffected.",
 ["schedules","fault_sequences"],
 "every interleaving of any set of operations at I/O granularity, with any subset failing or abandoned",
 "Tests are single-threaded and never suspend an operation midway.",
 ["src","revision-derive/src/expand"],
 [("no shared mutable state","whole crate")],
 observe=["per-operation results vs. solo runs"])
p("P17","Invalid schema histories are rejected at compile time",
 "A type declaration whose revision history has gaps, duplicates, conflicting field markers, removed members without a conversion, or more variants than the layout allows does not compile.",
 ["programs"],"every type declaration",
 "The test-suite can only compile valid programs.",
 ["revision-derive/src/ast","revision-derive/src/expand"],
 [("parse-time and validation-pass errors","revision-derive/src/ast/*.rs, revision-derive/src/expand/validate_version.rs")])
p("P18","Indexed access does not depend on the rest of the record",
 "In an indexed record or container, reaching a field, element or entry gives the right answer whatever the bytes of all the other fields, elements or values hold, and takes a number of source operations that does not grow with how many it passes over. A keyed lookup inspects no more keys than a binary search needs, and one with the right position hint inspects a single key. Skipping a length-framed record never interprets its contents.",
 ["fault_sequences","inputs","histories"],
 "every indexed record and container, every choice of what to reach, every overwriting of what is not reached, every fragmentation of the source",
 "Tests read indexed fields of intact records, where a reader that walks through its neighbours gives the same answers.",
 ["src/optimised","revision-derive/src/expand/walk.rs","revision-derive/src/expand/optimised","revision-derive/src/expand/skip.rs"],
 [("length prefix and offset table","src/optimised, revision-derive/src/expand/optimised"),("binary search and hint probing","src/optimised/indexed/map_walk.rs"),("skip by stored length","revision-derive/src/expand/optimised, revision-derive/src/expand/skip.rs")],
 observe=["answers when the rest of the payload is overwritten","keys inspected","source operations"])
p("P19","Nothing is leaked or dropped twice, however an operation ends",
 "However an encoding, decoding, skip, walk or indexed access ends - with success, an error at any element, a failing source or sink, a failing upgrade callback, or by unwinding out of the caller's own code - every value it had built is dropped exactly once and all memory it took is given back. Repeating a failing operation any number of times does not make the process grow.",
 ["fault_sequences","histories","inputs"],
 "every type and layout, every point at which an operation fails or is abandoned, any number of repetitions",
 "Tests do not observe drops or allocations, and hardly any decode fails midway in them.",
 ["src/implementations","src/optimised","revision-derive/src/expand"],
 [("partially filled containers and buffers","src/implementations/*.rs, src/optimised/indexed/*.rs"),("unsafe bulk reads","src/implementations/vecs.rs, src/implementations/specialised.rs")],
 observe=["live bytes over repeated attempts","drops per element"])
p("P20","A failure is reported as what it was",
 "An I/O error of the caller's source or sink reaches the caller as that same I/O error (kind and message), however deeply the value it interrupted is nested; running out of input is always UnexpectedEof and a sink which accepts nothing is WriteZero. An error returned by a user's upgrade callback reaches the caller unchanged. None of them is turned into another kind of error, so a caller can tell a failing device, which may be retried, from damaged data, which may not.",
 ["fault_sequences","inputs"],
 "every type and layout, every failing call, every I/O error kind other than Interrupted, every callback error; unchecked skips call no callback",
 "Tests match on is_err() for a few primitives; the error path of every nested type is not exercised.",
 ["src/error.rs","src/implementations","src/optimised","src/slice_reader.rs","revision-derive/src/expand"],
 [("Error::Io and its conversion","src/error.rs"),("error propagation through containers","src/implementations/*.rs"),("callback errors","revision-derive/src/expand/de.rs, revision-derive/src/expand/optimised")],
 observe=["error variant, I/O kind and message"])
p("P21","All readers give the same verdict on the same bytes",
 "Whatever the bytes are (an honest record, one written by another encoder of the same format with over-long integers, repeated or unordered entries or an index where none is due, a damaged record, or noise, with or without more bytes behind them), decoding from any reader, from memory, through from_reader and from_slice all accept or all refuse them, and on acceptance return the same value and consume the same number of bytes. The checked skips accept exactly what decoding accepts. An unchecked skip accepts everything decoding accepts. Each skip ends where decoding ends.",
 ["inputs","fault_sequences"],
 "every type and layout; the skip of a bare indexed container trusts its table of offsets, so only true tables are demanded there",
 "Tests compare a skip with a decode on honest bytes of a few types; on unusual or damaged bytes each reader is on its own.",
 ["src/implementations","src/slice_reader.rs","src/optimised","revision-derive/src/expand"],
 [("checked and unchecked skips","src/implementations/skip.rs, revision-derive/src/expand/skip.rs"),("bulk and slice fast paths","src/implementations/specialised.rs, src/slice_reader.rs"),("from_slice, from_reader, skip_slice","src/lib.rs")],
 observe=["acceptance, value and bytes consumed by each reader"])
p("P22","Cursors and envelope helpers act as the byte range they stand on",
 "A cursor over memory (SliceReader, &[u8], or either behind &mut) stands for a range of the caller's bytes: after any history of reads, peeks, advances, borrows, discards and sub-readers, by it and by its copies, it yields exactly the bytes of its range in order, without copying where it lends them out, and its position and remaining bytes say where it is. Whatever reaches beyond its end is refused as UnexpectedEof (for a sub-range: refused) without moving it, whatever the amount, and never panics. Codecs written by hand with the envelope helpers frame a value as tag, length and body, report every failure of the device or of the body, and reading or passing over a frame consumes exactly the frame, from any reader.",
 ["histories","inputs","fault_sequences"],
 "every byte string, every history of requests of any size up to usize::MAX, every tag, every failing byte of the device; after a refused streaming read (read_exact, advance_read, a frame cut short) the position is unspecified",
 "Tests make one request of a fresh cursor; that offsets stay right after consumption, in sub-readers of sub-readers and next to overflow needs histories.",
 ["src/slice_reader.rs","src/optimised/envelope.rs","src/optimised/tag.rs"],
 [("cursor arithmetic and sub-ranges","src/slice_reader.rs"),("tag and length framing","src/optimised/envelope.rs, src/optimised/tag.rs")],
 observe=["bytes yielded and their addresses","position and remaining bytes","refusals"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
