#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PR="crates/parcom-parsers/src/"
PRIMS=[PR+"primitive/any.rs",PR+"primitive/atom.rs",PR+"primitive/the.rs"]
COMB=[PR+"combinator/"+x+".rs" for x in ("and_then","join","map","optional","or","reference","repeat","unify")]+[PR+"util.rs"]
ITER=[PR+"iterative/"+x+".rs" for x in ("collect","fold","map_each","map_while","scan","take","try_map_each")]

p("C01","A parse result does not depend on how the input is delivered",
 "Parsing a given input with any parser built from the library's primitives and combinators gives the same value, the same remaining input, or the same error whether the input is one in-memory text or slice, or a stream that arrives in arbitrary pieces (empty pieces included) with arbitrary waits, spurious polls and other parses interleaved on the same parser object. The user callbacks run during the parse are the same and in the same order. Parsing through a shared reference and parsing by consuming the parser agree.",
 ["inputs","schedules","programs"],
 "for every grammar, every input (multi-byte characters and item slices included), every split into segments, every pattern of pending/wake-up, every interleaving of concurrent parses sharing one parser",
 "The existing tests parse two fixed ASCII strings held in one in-memory segment whose futures are always ready; no test ever has a second segment, an empty segment, a pending future or a multi-byte character.",
 PRIMS+COMB+["crates/parcom-core/src/primitive/str.rs","crates/parcom-core/src/primitive/slice.rs"],
 [("primitive parsers loop over segments, carrying the unmatched remainder",PR+"primitive/atom.rs"),("empty segments are skipped",PR+"primitive/any.rs"),("async combinators await every step",PR+"combinator/")],
 observe=["ParserResult of parse and parse_once"])
p("C02","Sequence, choice, option and repetition backtrack exactly",
 "Every combinator returns exactly what ordered-choice (PEG) semantics prescribe: a sequence runs its parts left to right, a choice commits to the first alternative that succeeds, an option or repetition always succeeds on recoverable failure, and mapping, filtering, unifying, boxing and borrowing change only the value or error they are asked to change. After a recoverable failure the next alternative, or the rest of the input handed back, starts exactly where the failed attempt started, however much the attempt consumed. Nothing after the last successful step is consumed and no successful step is dropped or repeated.",
 ["inputs","programs","schedules"],
 "for every composition of combinators, every input over it, every delivery schedule, for text and item sequences",
 "Repository tests cover one repetition and one arithmetic grammar on well-formed input and check only the remaining text; choice, option, unification, error mapping, filtering and failure after partial consumption are never asserted.",
 COMB+PRIMS+["crates/parcom-core/src/primitive/str.rs","crates/parcom-core/src/primitive/slice.rs","crates/parcom-core/src/unknown.rs"],
 [("anchor taken before an attempt, rewind after a recoverable error","or.rs, optional.rs, repeat.rs, bin_expr.rs"),("rewind restores the anchored position","str.rs, slice.rs")],
 observe=["ParserResult value, error and remaining input","order of calls into user parsers and callbacks"])
p("C03","A terminating error ends the whole parse and is never recovered from",
 "When any parser inside a larger one fails with an error marked as terminating, the enclosing parse fails with that error: no alternative, option, repetition, collection or operator loop converts it into success or tries anything else afterwards, and no further user parser or value callback runs. Only an explicit error mapping may change its severity. A combined error is terminating exactly when the failure that ended the parse was terminating. An error built from others, or seen through a reference or an option, terminates exactly if one of them does.",
 ["inputs","programs","schedules"],
 "for every nesting of combinators around a failing parser, every position at which the terminating error is raised, every delivery schedule",
 "All error values in the repository's tests are non-terminating, so the terminating branch of every combinator is unexecuted.",
 [PR+"combinator/or.rs",PR+"combinator/optional.rs",PR+"combinator/repeat.rs",PR+"combinator/bin_expr.rs",PR+"iterative/collect.rs",PR+"iterative/fold.rs",PR+"iterative/try_map_each.rs","crates/parcom-util/src/either.rs","crates/parcom-util/src/either_both.rs","crates/parcom-util/src/error.rs","crates/parcom-core/src/parse_error.rs"],
 [("should_terminate is consulted before every rewind","combinators"),("should_terminate of composite errors","parcom-util")],
 observe=["ParserResult error","calls into user parsers and callbacks after the error"])
p("C04","Item-by-item parsing yields the same items as the equivalent pipeline",
 "Pulling items one at a time from an iterative parser (a repetition or option, passed through per-item mapping, fallible mapping, mapping-while, running state, and a count limit) yields exactly the items, in order, that the same pipeline over the list of successful repetitions would give, and stops where it would stop; folding and collecting return exactly those items. Collecting leaves the remaining input right after the last collected item. Several iterations over one shared parser, paused and resumed in any order, do not affect each other.",
 ["inputs","programs","schedules"],
 "for every pipeline, input, number of pulls, interleaving of concurrent iterations and delivery schedule; for iteration by shared reference and by consuming the parser",
 "No repository test uses the iterative API at all.",
 ITER+[PR+"combinator/repeat.rs",PR+"combinator/optional.rs",PR+"extension/iterative.rs","crates/parcom-core/src/parser.rs"],
 [("per-iteration state objects",PR+"iterative/"),("collect rewinds to the anchor taken before the last pull",PR+"iterative/collect.rs")],
 observe=["IterativeParserState::parse_next results","ParserResult of collect and fold"])
p("C05","Operator expressions group by precedence and associativity",
 "For any sequence of terms and binary operators with arbitrary precedences and associativities, the expression parser builds the tree in which higher precedence binds tighter and equal precedence groups by the associativity of the operator to the left. Every term and operator of the longest well-formed prefix appears in the tree exactly once and in order, at any length or nesting depth. An operator with no valid term after it is left unconsumed together with everything behind it, and the reason for stopping is reported.",
 ["inputs","programs","schedules"],
 "for every operator table (any precedence value of the type, mixed associativity), every expression length and shape, every malformed tail, every delivery schedule",
 "The two tests use a single right-associative operator and check only the remaining text, never the tree.",
 [PR+"combinator/bin_expr.rs","crates/parcom-internals/src/shortvec.rs"],
 [("operator stack with precedence comparison",PR+"combinator/bin_expr.rs"),("rewind to before a dangling operator",PR+"combinator/bin_expr.rs")],
 observe=["expression tree, stop reason and remaining input"])
p("C06","Abandoning a parse at any point releases everything exactly once",
 "When a parse is dropped at any suspension point, or a user callback panics in the middle of it, every value produced so far and the input handle are released exactly once, no memory is leaked, double-freed, read after release or written out of bounds, and the same parser then parses fresh input correctly. The growable small vector used while parsing likewise holds each pushed value exactly once in stack order across its move from inline to heap storage, whatever the element size (zero included), and releases everything exactly once whenever it is dropped.",
 ["crash_points","schedules","inputs"],
 "for every abandonment point (each poll of each parse), every panicking callback, every grammar including deep operator stacks; every push/pop/reserve history and drop point of the small vector",
 "Tests never cancel a parse or panic in a callback; the small-vector tests use four fixed push/pop counts of one element type and never read a value back.",
 ["crates/parcom-internals/src/shortvec.rs",PR+"combinator/bin_expr.rs"]+COMB[:4],
 [("manual allocation, copy on spill and drop of the inline/heap vector","shortvec.rs")],
 observe=["live-value registry","checking allocator"])
p("C07","A parse completes as soon as the delivered input decides it",
 "A parse that the input delivered so far already decides completes without waiting for further input, even if no more input ever arrives and the end is never signalled. A parse that is not yet decided stays pending instead of guessing, and resumes to the correct outcome once the missing input or the end of input arrives, with an executor that polls only when woken.",
 ["schedules","fault_sequences","inputs"],
 "for every grammar, every input, every point at which the stream stalls, every pending/wake pattern",
 "All tests run on in-memory input that is complete from the start; nothing ever stalls.",
 PRIMS+COMB,
 [("each primitive asks for one more segment only while undecided",PR+"primitive/")],
 observe=["completion of the parse future while the stream is stalled"])
p("C08","A loaded sequence holds exactly the source's data, in order",
 "Everything a source writes and hands over through the loader becomes visible to the reader of the sequence exactly once and in order, whatever the chunk sizes, the buffer sizing policy, forced commits and how reading, advancing and loading interleave across threads; when the source ends, all of it is visible. A source that asks for room for n items can always write at least n, and a write beyond the offered room is refused and hands the item back. Advancing by n skips exactly n items, or everything present, reporting the shortfall.",
 ["inputs","schedules","configurations","histories"],
 "for every sequence of chunk sizes, buffer strategies (also ones that return too little), forced-commit points, and interleavings of a loading thread with a reading and advancing thread",
 "parcom-sequences, parcom-sequence-core and parcom-sequence-sources have no tests.",
 ["crates/parcom-sequences/src/generic.rs","crates/parcom-sequences/src/generic/buffer.rs","crates/parcom-sequences/src/generic/control.rs","crates/parcom-sequences/src/generic/loader.rs","crates/parcom-sequence-core/src/buffer_writer.rs","crates/parcom-sequence-sources/src/iterator_source.rs","crates/parcom-sequences/src/buffer_strategy.rs"],
 [("write-once linked nodes","generic.rs"),("write buffer replaced and committed when full","control.rs, loader.rs"),("bounds check of push_item","buffer_writer.rs")],
 observe=["segments and advance of the buffer","writer offered to the source"],hook="public constructor for the generic sequence builder (cfg parcom_sim)")
p("C09","Failed or abandoned loads lose, duplicate and expose nothing",
 "When a load fails with a source error, is dropped while waiting, or unwinds from a panic in the source, all data accepted by earlier loads stays intact and becomes visible later in its place, and none of the data written by the interrupted load ever becomes visible. Loading can simply be continued afterwards. The error is reported to the caller of that load and to nobody else.",
 ["fault_sequences","crash_points","histories"],
 "for every point inside a load at which the error, drop or panic happens (before asking for room, after it, after partial writes, around buffer growth), any number of such faults, any chunking",
 "There are no tests of loading, and none injects an error or drops a load.",
 ["crates/parcom-sequences/src/generic/control.rs","crates/parcom-sequences/src/generic/loader.rs","crates/parcom-sequence-sources/src/utf8_validator.rs","crates/parcom-sequence-sources/src/iterator_source.rs"],
 [("cancel truncates what this load wrote","control.rs")],
 observe=["segments of the buffer after recovery","result of each load"],hook="public constructor for the generic sequence builder (cfg parcom_sim)")
p("C10","UTF-8 validation is exact across arbitrary chunk boundaries",
 "For any byte stream cut into any chunks, the validating source passes on exactly the original bytes when the stream is valid UTF-8, and otherwise reports an invalid sequence, at the latest at the end of the stream, including when the stream ends inside a character. Data passed on at any moment is a valid UTF-8 prefix of the stream and contains every complete character received so far. Source errors, pauses and abandoned loads in between change none of this.",
 ["inputs","fault_sequences","schedules"],
 "for every byte string (valid, corrupted, truncated), every chunking, every placement of source errors, waits and dropped loads",
 "The only test of the validator is commented out.",
 ["crates/parcom-sequence-sources/src/utf8_validator.rs"],
 [("up to three trailing bytes carried to the next chunk","utf8_validator.rs")],
 state=[("carry","incomplete trailing bytes of the stream so far","utf8_validator.rs")],
 observe=["bytes committed downstream","result of each load"],hook="public constructor for the generic sequence builder (cfg parcom_sim)")
p("C11","Load reports are truthful",
 "The amount a load reports as committed is exactly the amount by which the readable sequence grew in that load, the amount reported as uncommitted is exactly what has been accepted from the source but is not yet readable, and the reported buffer capacity is never smaller than it. The end-of-source report appears exactly when the source ended, everything accepted is readable by then, and its uncommitted amount and capacity are zero.",
 ["histories","configurations","fault_sequences"],
 "for every history of loads with any chunk sizes, buffer strategies, forced commits, failures and abandoned loads in between",
 "There are no tests of loading.",
 ["crates/parcom-sequence-core/src/load_info.rs","crates/parcom-sequences/src/generic/loader.rs","crates/parcom-sequences/src/generic/control.rs"],
 [("report assembled from the control's response","loader.rs")],
 observe=["LoadInfo of each load against the reader's view"],hook="public constructor for the generic sequence builder (cfg parcom_sim)")
p("C12","A waiting segment reader sees every segment and ends only at the end",
 "A reader of the runner's sequence that asks for segments while another thread appends receives every appended segment exactly once, in order, no matter how appending, signalling, marking the end and reading interleave, and also after a pending request was dropped and asked again. It is told the end only when the end has been marked and nothing remains unread. Once an append or the end has been signalled, a waiting reader makes progress.",
 ["schedules","crash_points"],
 "for every interleaving, at synchronisation-operation granularity, of an appending/signalling/ending thread with reading tasks, every dropped request, every waker change",
 "parcom-runners has no tests.",
 ["crates/parcom-runners/src/default_runner/sequence.rs","crates/parcom-runners/src/default_runner/sequence/segments.rs","crates/parcom-internals/src/future/notify.rs","crates/parcom-internals/src/future/option_future.rs"],
 [("wait handle taken before re-checking for segments and the end flag","segments.rs")],
 observe=["results of SegmentStream::next"],hook="access to the append signal and end flag (cfg parcom_sim)")
p("C13","Advancing a sequence that is still loading consumes exactly what was asked",
 "Advancing the runner's sequence by n completes once n items are there and leaves it positioned exactly n items further, even if the items arrive in several appends during the wait; if the end comes first it completes at the end of the sequence. No interleaving with appending, signalling or ending makes it skip too little, too much, or wait forever, and dropping a waiting advance releases the sequence safely.",
 ["schedules","crash_points"],
 "for every n, every arrival pattern, every interleaving at synchronisation-operation granularity with the appending thread, every drop point",
 "parcom-runners has no tests.",
 ["crates/parcom-runners/src/default_runner/sequence/advance.rs","crates/parcom-sequences/src/generic/buffer.rs","crates/parcom-internals/src/future/notify.rs"],
 [("outstanding amount kept across polls, wait handle taken before advancing","advance.rs")],
 state=[("outstanding amount","items still to skip","advance.rs")],
 observe=["segments read after advance"],hook="access to the append signal and end flag (cfg parcom_sim)")
p("C14","Notifications are never lost and never invented",
 "A wait completes if and only if a notification was sent after that wait was created, no matter how creating, polling, re-polling with other wakers, dropping and sending interleave across threads. Every task pending on such a wait is woken through the waker of its latest poll by the first notification after it; one notification completes every wait created before it.",
 ["schedules"],
 "for every interleaving, at synchronisation-operation granularity, of any number of waiting and notifying threads and tasks, every waker replacement and spurious poll",
 "The four tests fix one order of events each (or rely on a real one-second sleep and whatever interleaving the machine produces).",
 ["crates/parcom-internals/src/future/notify.rs"],
 [("version counter re-checked after registering under the lock","notify.rs")],
 state=[("version","number of notifications sent","notify.rs"),("registered wakers","tasks to wake at the next notification","notify.rs")],
 observe=["completion of waits","wake calls"])
p("C15","A notifier keeps no trace of finished waits and never blocks its callers",
 "A notifier holds at most one waker per pending wait: polling a wait again replaces its waker, and dropping or completing a wait releases it, without disturbing any other wait. Waking a task, and cloning or releasing its waker, may run arbitrary code, including creating, polling, dropping and notifying on the same notifier, without deadlock. Sending a notification wakes each pending wait at most once.",
 ["schedules","crash_points","histories"],
 "for every history and interleaving of creating, polling, dropping waits and sending, with wakers that re-enter the notifier",
 "No test drops a wait, polls one twice with different wakers, or uses a waker that does anything.",
 ["crates/parcom-internals/src/future/notify.rs"],
 [("registration slot owned by the wait; wakers run after the lock is released","notify.rs")],
 observe=["number of live waker clones","wake calls"])
p("C16","Reported positions depend only on the text consumed",
 "The line, column and count reported by a measured sequence equal those of the consumed prefix (every end-of-line marker of the chosen style counted, a marker split between two pieces included), no matter in how many steps and pieces the prefix was consumed, and no matter what was tried and backed out of in between. Backtracking restores the position together with the input. Reported positions never decrease while consuming.",
 ["inputs","schedules","histories"],
 "for every text, end-of-line style, partition into advances and delivered pieces, and every interleaving of advances and rewinds performed by parsers",
 "The metric tests measure a handful of ASCII strings in one step, only for one end-of-line style, without rewinding.",
 ["crates/parcom-metrics/src/line_colmn.rs","crates/parcom-metrics/src/end_of_line.rs","crates/parcom-core/src/sequence/measured.rs","crates/parcom-core/src/primitive/str.rs","crates/parcom-core/src/primitive/slice.rs"],
 [("meter state carried across advances and stored in anchors","line_colmn.rs, str.rs, slice.rs")],
 observe=["metrics() after each step"])
p("C17","The streaming pipeline as a whole parses like memory",
 "Bytes read from a source, validated, buffered by the loader and parsed from the runner's sequence while loading continues on another thread give the same results as parsing the same bytes in memory, for every chunking, buffer size and thread interleaving. Parsing never deadlocks while the loader makes progress. If the source fails for good, the parser sees exactly the data before the failure.",
 ["schedules","inputs","configurations","fault_sequences"],
 "for every input, chunking, buffer strategy, thread interleaving, transient and permanent source error",
 "There is no test that connects any two of these crates.",
 ["crates/parcom-sequence-sources/src/iterator_source.rs","crates/parcom-sequence-sources/src/utf8_validator.rs","crates/parcom-sequences/src/generic.rs","crates/parcom-runners/src/default_runner/sequence.rs"]+PRIMS,
 [("composition of source, validator, loader, buffer, notifier and sequence","across crates")],
 observe=["items parsed from the sequence"],hook="builder constructor; access to append signal and end flag (cfg parcom_sim)")
p("C18","A filtered subscription delivers exactly the matching items",
 "An observer subscribed through one or more filters receives exactly those items published during its subscription that satisfy all the predicates, once each and in publication order, and each later filter sees only items the earlier ones passed. Ending the subscription ends delivery. Other subscriptions to the same filter, made or ended at any time, a panicking predicate or observer, publishing from inside a delivery, and dropping the filter itself, change nothing for it.",
 ["histories","schedules","fault_sequences"],
 "for every interleaving of publishing, subscribing, unsubscribing and panics, any stack of filters",
 "The reactive module has no tests.",
 ["crates/parcom-internals/src/reactive/extension/filter.rs","crates/parcom-internals/src/reactive.rs","crates/parcom-internals/src/reactive/predicate.rs"],
 [("per-subscription adaptor holding the shared predicate","filter.rs")],
 observe=["items received by each observer"])
p("C19","A runner returns the parser's outcome or the source's error",
 "Running a parser over a source through a runner gives the parser's value or error, or the source's error if the source fails before the parse is decided.",
 ["inputs","schedules","fault_sequences"],
 "for every parser, source and schedule",
 "The runner has no tests.",
 ["crates/parcom-runners/src/default_runner.rs","crates/parcom-runners/src/default_runner/parse.rs","crates/parcom-runners/src/default_runner/parse_iterative.rs","crates/parcom-runner-core/src/lib.rs"],
 [("none: every entry point is todo!()","default_runner.rs")])
p("C20","A stream is held only as long as it is needed and released exactly once",
 "Once the reader of a loaded sequence has advanced past a segment, the items and the memory of that segment are released, without waiting for the end of the stream: a stream of any length is loaded and read in memory bounded by what is unread (plus the segment being read). Nothing that can still be read, is borrowed by a reader, or has been accepted and waits to be committed is released or changed early. Items of a failed or interrupted load, items given back by the writer and everything left when the loader and the reader are dropped, in either order and at any time, are released exactly once, even if releasing one of them panics.",
 ["inputs","schedules","histories","fault_sequences"],
 "for every history of loads, commits, reads, advances and drops of either half, every buffer policy, every interruption, every length",
 "No test builds a loaded sequence, counts live items or runs long enough to notice growth.",
 ["crates/parcom-sequences/src/generic.rs","crates/parcom-sequences/src/generic/buffer.rs","crates/parcom-sequences/src/generic/control.rs","crates/parcom-sequences/src/generic/loader.rs","crates/parcom-sequence-core/src/buffer_writer.rs"],
 [("segments owned by a singly linked chain, held from the reader's position on","generic.rs"),("the writer releases what an uncommitted load wrote","generic/control.rs"),("shrinking a writer releases the items cut off","buffer_writer.rs")],
 observe=["live items after every operation","allocated bytes along a long stream","segments borrowed while loading goes on"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
