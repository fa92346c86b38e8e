_G = ("Seeded search, not exhaustive: assurance is that no violation was found in the explored runs (grammars, inputs, deliveries, "
      "executor faults). Trusts the reference model, the compiler and std. ")
T = "deterministic simulation: "
CLAIMED = {
    "C01": (T + "seeded delivery schedules and executor faults, differential against the in-memory parse", _G),
    "C02": (T + "seeded grammars, inputs and delivery faults against an executable PEG model", _G),
    "C03": (T + "terminating errors injected at random parsers, checked against the PEG model and callback log", _G),
    "C04": (T + "seeded interleaved pulls of iterative pipelines against an executable model", _G),
    "C05": (T + "seeded operator tables and expressions against an independent precedence grouping", _G),
    "C06": (T + "seeded cancellation and panic injection with ownership tracking and a checking allocator", _G),
    "C07": (T + "seeded arrival schedules with the end withheld, against the model over the delivered prefix", _G),
}

_L = ("Seeded search, not exhaustive: assurance is that no violation was found in the explored runs (sources, buffer policies, schedules, "
      "interruptions). Threads are simulated at the level of atomic operations under sequential consistency: weak memory orderings are not explored. "
      "Trusts the oracle, the std facade, the compiler and std. ")
_S = ("Seeded search, not exhaustive: assurance is that no violation was found in the explored runs. Trusts the oracle, the harness, the compiler and std. ")
CLAIMED.update({
    "C08": (T + "seeded loader/reader schedules and buffer policies, every read checked against the source's history", _L),
    "C09": (T + "source errors, panics and dropped loads injected at every suspension point, history checked", _L),
    "C10": (T + "seeded byte streams, chunkings and load faults against an independent UTF-8 table", _S),
    "C11": (T + "load reports checked against the reader's and the source's counts under injected faults", _L),
    "C12": (T + "seeded thread schedules of reader and loader with interval checks and a progress check at quiescence", _L),
    "C13": (T + "seeded thread schedules of advance and loader, position verified by reading on, progress at quiescence", _L),
    "C14": (T + "seeded thread schedules at atomic-operation granularity, checked over recorded intervals of waits and notifications", _L),
    "C15": (T + "seeded thread schedules with re-entrant, panicking and counted wakers; waker conservation and progress", _L),
    "C16": (T + "seeded texts, chunkings and backtracking grammars with positions recomputed from the consumed prefix", _S),
    "C17": (T + "whole pipeline under seeded thread schedules, source faults and dropped loads, against the in-memory parse and the PEG model", _L),
    "C20": (T + "seeded histories of loads, interruptions, reads and drops of either half with a census of tracked items, a checking allocator and long streams", _L),
    "C18": (T + "seeded histories of publications, (un)subscriptions and panicking predicates against a reference filter", _S),
})
