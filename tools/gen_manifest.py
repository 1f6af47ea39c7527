#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
D = "deterministic simulation with fault injection: "
COMMON = (" Exploration: seeded search, not exhaustive; a pass means no counter-example in the runs counted in the evidence file."
          " All of magmaflow runs as real code (debug assertions and overflow checks on, opt-level 0); storage, output sinks, extended-instruction"
          " handlers, the hash seed, clock, scheduler and allocator are simulated. Trusted: the reference models and grammar tables in /verif/sim/src.")
T = {
 "C01": ("torn-image search: every cut point of seeded images against the framing model", "Every byte cut of small images and boundary-biased cuts of larger ones."),
 "C02": ("storage-fault search: accepted reads re-encoded by an independent encoder and compared word for word", "Covers every opcode and enumerant of the supported grammar under word, byte, range and record faults."),
 "C03": ("storage-fault search: accept/refuse and error value against an independent decoder", "Errors are compared with the set of truthful ones at the first undecodable place, so several wordings of one defect are allowed. One known finding (Aligned memory access)."),
 "C04": ("storage-fault and size search on a bounded stack with allocation accounting and a hang watchdog", "2 MB stack, modules up to hundreds of thousands of instructions, up to 20,000 blocks, nesting up to 6,000; recovery is metered (allocations per block), so runaway work is an alarm, not a timeout."),
 "C05": ("twin-world search: the same words and faults stored in both byte orders must read to one outcome", "Both orders under identical seeded damage."),
 "C06": ("import-traffic fault search: handler call history against a reference dispatcher", "History of every handler call is compared call by call."),
 "C07": ("handler-fault search: scripted errors, panics, under- and over-reads, then healthy reads", "Faults fire at seeded call numbers; healthy reads afterwards are compared with a fresh world."),
 "C08": ("sink-fault search: output history against the text model, refusals at seeded byte and call positions", "Text model derived from the independent decoder."),
 "C09": ("sink-fault search: control-flow printing history against the printer model", "Structure from real recovery; text model independent."),
 "C10": ("record-fault search: lost, repeated, moved records; conservation and placement check over the logical module", "Independent placement model."),
 "C11": ("record-fault search: accept/refuse, position and kind against the layout automaton", "Independent layout automaton."),
 "C12": ("co-simulation: recovered structure and block graph executed in lock step under seeded branch outcomes", "Eight outcome streams a run, bounded length."),
 "C13": ("structured-function search with block loss, duplication and misdirection", "Generator covers the structured class in the statement; refusals checked for truthful labels."),
 "C14": ("replay divergence search: one job under varied hash seeds, clocks, threads and call histories", "getrandom, clock_gettime and the allocator are interposed."),
 "C15": ("seeded scheduler interleaving 2-14 callers between memory accesses, allocations, callbacks and writes, with simulated locks, and re-entrant nesting up to 12 deep", "The library is compiled with a hook at every load, store and control-flow edge, so a switch can fall between any two memory accesses; accesses to static memory are favoured switch points; waiting on a lock hands over to another caller, and a deadlock is reported. Sequentially consistent: weak-memory reorderings are not explored."),
 "C16": ("storage-fault search: equality, clone and drop against the denotation model", "Pairs differ by one seeded fault."),
}
NA = {
 "C17": "a fixed table: spelling depends on no input history, schedule, time, I/O or fault; a table diff against the Khronos grammar (not in this sandbox) decides it, not simulation.",
 "C18": "the repository supports a subset by design and a coverage gap is visible by reading the opcode list; nothing in it depends on schedule, I/O or faults.",
 "C19": "the crate uses std collections, whose allocation failure aborts the process by definition; it does not and cannot hold without a rewrite, so there is nothing for a simulation to protect.",
}
m = {"version": 1, "setup_cmd": "bash check.sh --build", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: every seam used is public API (byte slices, ExtInstSet handlers, fmt::Write sinks) or interposed from outside (global allocator, getrandom, clock_gettime, futex waits, thread stacks; load/store/edge hooks inserted by the compiler, see sim/rustc-wrap.sh). Replay: bash check.sh --replay FILE."}
for k, (t, n) in T.items():
    m["checks"].append({"property": k, "quick_cmd": f"bash check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {k}",
                        "technique": D + t, "level": "exploration", "level_note": n + COMMON})
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
