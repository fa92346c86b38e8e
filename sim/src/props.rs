//! The registered properties.
use crate::gram::{measure, run};
use crate::{defseq, filter, load, notify, pipeline, utf8};
use crate::Prop;

const COMB: &str = "parcom-core, parcom-parsers, parcom-util (and ShortVec of parcom-internals), unmodified";
const STREAM: &str = "input streams (segmentation, waits, arrival), executor, wakers, user callbacks and user parsers";

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: run::c01,
        quick: 500_000,
        thorough: 50_000_000,
        threads: false,
        real: COMB,
        stub: STREAM,
        oracle: "the same real parser on the library's in-memory &str / &[T]",
    },
    Prop {
        id: "C02",
        run: run::c02,
        quick: 400_000,
        thorough: 40_000_000,
        threads: false,
        real: COMB,
        stub: STREAM,
        oracle: "an independent executable model of ordered-choice semantics: value, error, remaining input, rewound position, callbacks in order",
    },
    Prop {
        id: "C03",
        run: run::c03,
        quick: 500_000,
        thorough: 50_000_000,
        threads: false,
        real: COMB,
        stub: STREAM,
        oracle: "the model of C02 with terminating errors; no callback may run after the failure",
    },
    Prop {
        id: "C04",
        run: run::c04,
        quick: 500_000,
        thorough: 50_000_000,
        threads: false,
        real: COMB,
        stub: STREAM,
        oracle: "the model of C02, pull by pull",
    },
    Prop {
        id: "C05",
        run: run::c05,
        quick: 60_000,
        thorough: 6_000_000,
        threads: false,
        real: COMB,
        stub: STREAM,
        oracle: "longest prefix term (op term)*, grouped by an independent precedence climb",
    },
    Prop {
        id: "C06",
        run: run::c06,
        quick: 150_000,
        thorough: 15_000_000,
        threads: false,
        real: COMB,
        stub: "as C01, plus a checking allocator and tracked values",
        oracle: "every tracked value, input handle, anchor and waker released exactly once; red zones, layouts and released memory checked; the parser afterwards agrees with the model of C02",
    },
    Prop {
        id: "C07",
        run: run::c07,
        quick: 600_000,
        thorough: 60_000_000,
        threads: false,
        real: COMB,
        stub: STREAM,
        oracle: "the model of C02 over the delivered prefix: pending exactly while undecided",
    },
    Prop {
        id: "C14",
        run: notify::c14,
        quick: 4_000_000,
        thorough: 400_000_000,
        threads: true,
        real: "Notify and Wait of parcom-internals (slab included), over simulated atomics and locks",
        stub: "threads, scheduler, atomics and Mutex (std facade), wakers",
        oracle: "intervals of creation, poll and notification: no completion without a notification since creation, none pending after one, every pending wait woken through its latest waker",
    },
    Prop {
        id: "C15",
        run: notify::c15,
        quick: 4_000_000,
        thorough: 400_000_000,
        threads: true,
        real: "Notify and Wait of parcom-internals (slab included), over simulated atomics and locks",
        stub: "threads, scheduler, atomics and Mutex (std facade), wakers that re-enter the notifier",
        oracle: "live clones of every waker handed out, counted whenever no call is in flight; wake-ups per notification and wait; completion of every call",
    },
    Prop {
        id: "C18",
        run: filter::c18,
        quick: 2_000_000,
        thorough: 200_000_000,
        threads: false,
        real: "Filter, its observer and subscription, ObservableExtensions of parcom-internals",
        stub: "the observable, observers and predicates (which may panic, subscribe and unsubscribe during a delivery)",
        oracle: "items published during the subscription filtered by the predicates in order",
    },
    Prop {
        id: "C08",
        run: load::c08,
        quick: 1_000_000,
        thorough: 80_000_000,
        threads: true,
        real: "GenericSequenceBuilder, its loader, control, writer and buffer (parcom-sequences), BufferWriter defaults and LoadInfo (parcom-sequence-core), IteratorSource and Utf8Validator (parcom-sequence-sources)",
        stub: "sources, buffer policies, executor, clock, threads and the once-cells of the segment chain (std facade)",
        oracle: "the list of items the source handed over, in order; every reader operation checked against what was committed before it and accepted by its end",
    },
    Prop {
        id: "C09",
        run: load::c09,
        quick: 1_200_000,
        thorough: 100_000_000,
        threads: true,
        real: "GenericSequenceBuilder, its loader, control, writer and buffer (parcom-sequences), BufferWriter defaults and LoadInfo (parcom-sequence-core), IteratorSource and Utf8Validator (parcom-sequence-sources)",
        stub: "sources, buffer policies, executor, clock, threads and the once-cells of the segment chain (std facade); source errors, panics and abandoned loads",
        oracle: "the items handed over by the loads that were not interrupted; nothing else may ever be visible",
    },
    Prop {
        id: "C11",
        run: load::c11,
        quick: 1_200_000,
        thorough: 100_000_000,
        threads: true,
        real: "GenericSequenceBuilder, its loader, control, writer and buffer (parcom-sequences), BufferWriter defaults and LoadInfo (parcom-sequence-core), IteratorSource and Utf8Validator (parcom-sequence-sources)",
        stub: "sources, buffer policies, executor, clock, threads and the once-cells of the segment chain (std facade); source errors, panics and abandoned loads",
        oracle: "the reader's own count before and after each load, and the items accepted from the source",
    },
    Prop {
        id: "C10",
        run: utf8::c10,
        quick: 1_000_000,
        thorough: 80_000_000,
        threads: false,
        real: "Utf8Validator, the generic loader, control, writer and buffer below it in half of the runs",
        stub: "the byte source, executor and clock; in the other half of the runs a control over a plain vector; source errors, panics and abandoned loads",
        oracle: "an independent table of well-formed UTF-8 over the bytes received",
    },
    Prop {
        id: "C12",
        run: defseq::c12,
        quick: 1_200_000,
        thorough: 100_000_000,
        threads: true,
        real: "DefaultSequence, its segment stream and advance (parcom-runners), Notify, Wait and OptionFuture (parcom-internals), the generic loader and buffer (parcom-sequences)",
        stub: "threads, scheduler, atomics, locks and once-cells (std facade), executor, wakers, clock, source; the thread that drives the loader and signals (the runner has no such part yet)",
        oracle: "the list of segments appended; interval-based checks of what must and may be there; no wait left when everything has settled",
    },
    Prop {
        id: "C13",
        run: defseq::c13,
        quick: 1_200_000,
        thorough: 100_000_000,
        threads: true,
        real: "DefaultSequence, its segment stream and advance (parcom-runners), Notify, Wait and OptionFuture (parcom-internals), the generic loader and buffer (parcom-sequences)",
        stub: "threads, scheduler, atomics, locks and once-cells (std facade), executor, wakers, clock, source; the thread that drives the loader and signals (the runner has no such part yet)",
        oracle: "the position implied by the items appended, verified by reading on; no wait left when everything has settled",
    },
    Prop {
        id: "C16",
        run: measure::c16,
        quick: 800_000,
        thorough: 60_000_000,
        threads: false,
        real: "LineColumnMeter, LineColumn and the end-of-line styles (parcom-metrics), the measured &str and &[T] and the usize meter (parcom-core), the combinators driving them",
        stub: "streams that feed a meter in pieces, executor, user parsers; a cloneable meter that replays the pieces into the library's",
        oracle: "line, column and count recomputed from the whole consumed prefix at every stream operation",
    },
    Prop {
        id: "C17",
        run: pipeline::c17,
        quick: 1_000_000,
        thorough: 80_000_000,
        threads: true,
        real: "Utf8Validator, the generic loader and buffer, Notify, DefaultSequence with its segment stream and advance, the primitive parsers and combinators",
        stub: "the byte source, the thread that drives the loader and signals (the runner has no such part yet), a layer that keeps what was read so that parsers can back out, threads, scheduler, atomics, locks and once-cells (std facade), executor, wakers, clock",
        oracle: "the same real parser on the in-memory bytes loaded before the end or the permanent failure, and the model of C02 on them",
    },
    Prop {
        id: "C20",
        run: load::c20,
        quick: 600_000,
        thorough: 60_000_000,
        threads: true,
        real: "GenericSequenceBuilder, its loader, control, writer and buffer (parcom-sequences), BufferWriter defaults and LoadInfo (parcom-sequence-core), IteratorSource and Utf8Validator (parcom-sequence-sources)",
        stub: "sources, buffer policies, executor, clock, threads and the once-cells of the segment chain (std facade)",
        oracle: "the number of tracked items alive after every step, between what is unread and that plus the segment being read; bytes allocated over a long stream",
    },
];
