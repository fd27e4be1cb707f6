#!/usr/bin/env python3
"""Writes MANIFEST.json and sim/rules.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: "
C = {
 "C01": (T + "seeded call histories on real toolboxes, against a fresh twin (same and fresh process) and an independent dense solver of the upwind equations",
   "Random histories of assignments, runs, rejected calls and moves; a run counts as distinct by the hash of all results of its history. Every diagnostics run is compared bit for bit with a fresh toolbox, and to tolerance with a dense long-double solution.",
   ["recirculation whose iterative solution takes more than 1.5 million cell-edge updates is skipped (counted as 'skipped')", "values within rounding of the 200-year ceiling, and components of more than 220 cells whose solution does not settle to 1e-14 in extended precision, are compared with the twin only"]),
 "C02": (T + "allocation failures and bad arguments injected into toolbox calls, results compared with toolboxes that never saw the failure",
   "As C01, with allocation failures (single, burst, all from a point on, large blocks only) at random allocation points of random calls, and every kind of inconsistent argument.",
   ["a failed call is detected as an exception; which standard exception is not judged"]),
 "C03": (T + "each allocation of an operation made to fail in turn, in a simulated heap with red zones and leak accounting",
   "For a random operation after a random history, every allocation point (up to 40 quick / 120 thorough, else sampled) is failed once, in bursts and for good; each trial is one case, distinct by its results.",
   ["memory accesses made inside the precompiled C and C++ runtime libraries are not bounds-checked", "no allocation failures inside text output: the C++ stream library itself swallows them"]),
 "C04": (T + "step-counted execution with a budget from model size and recirculation, then faults stop and the operation is repeated",
   "Random histories with faults, after which the operation is repeated without faults; steps are counted in instrumented accesses and compared with a bound that is 10-20 times the observed need.",
   ["the bound for recirculating flow is the number of simultaneous sweeps an independent model needs, which is never smaller than for successive sweeps in any order"]),
 "C05": (T + "histories of component searches over reused workspaces under allocation failures and memory garbage, against Kosaraju's algorithm",
   "Random graphs, start sets, workspaces (fresh, reused, larger), failing allocations and garbage-filled memory.", []),
 "C06": (T + "reversals under allocation failures, views and contents compared with the sequence before",
   "Random component results, each reversed repeatedly with and without failing allocations.", []),
 "C07": (T + "histories of add/compress/copy/move on several graph objects against a map-of-maps model",
   "Random histories on up to three graph objects, with rejected requests.",
   ["weights are multiples of 1/1024 so that sums are exact in any order of summation", "row and column numbers are non-negative"]),
 "C08": (T + "allocation failures and invalid requests injected into add and compress, graph and pending list compared with the model, pending list observed by a final compress",
   "As C07 with failing allocations at random points and mixed or too small requests.",
   ["the target of a copy assignment that failed is only destroyed"]),
 "C09": (T + "sink that stops, throws or fills up after any byte, text compared with the accessor tables and read back bit for bit",
   "Random weighted graphs (any finite double), stream settings, buffer sizes, exception masks and sink faults at random byte positions.",
   ["text is judged for decimal integer format without sign, width or locale changes", "unit-buffered streams on failing sinks are left out: libstdc++ itself terminates there"]),
 "C10": (T + "several threads on separate objects under a seeded scheduler with preemption at memory accesses, vector-clock race detector, results compared with solo runs",
   "2-4 threads with histories of different objects, seeded preemptions, faults in some threads; interleavings are distinct by the sequence of switch points.", []),
 "C11": (T + "threads querying shared finished objects under a seeded scheduler, vector-clock race detector, results compared with single-threaded queries",
   "2-4 threads with random queries of the shared objects; interleavings are distinct by the sequence of switch points.", []),
 "C12": (T + "the same history replayed under different memory contents, recycling, placement, stack contents and set orders, results compared bit for bit",
   "Each random history is executed under several memory environments and input orders; compared result by result.", []),
 "C13": (T + "histories that keep solutions, copies and moved objects while toolbox and originals change, fail and die; every solution re-read",
   "Random histories with up to seven live solutions that are re-read after later operations, failures and destructions.", []),
 "C14": (T + "random-vector objects interleaved by a seeded scheduler with simulated clock and entropy, streams compared with solo runs and with other clock values",
   "Random request sequences on several objects and threads; distinct by samples.", ["of the distribution of the samples only the coarse shape of long samples is judged: mean and deviation of normal ones to ten standard errors, and that both outer quarters of the index range are drawn", "how far a request that ran out of memory has advanced the stream is not judged: an object's history is compared up to its first failed request"]),
 "C15": (T + "histories of container operations with failing allocations and out-of-range accesses against plain models",
   "Random histories on cell sets, value tables and connectivity graphs.", []),
 "C16": (T + "histories of solves on reused solver objects with failing solves in between, against fresh solvers (same and fresh process) and a dense solver",
   "Random sequences of global and local solves, rejected start sets and failing allocations on two solver objects.",
   ["as C01 for skipped recirculation and tolerances"]),
 "C24": (T + "derived quantities computed within histories of runs, copies, failures and rejected calls with failing allocations, against their definitions in extended precision",
   "Random histories of diagnostics runs, results kept, copied and moved, and derived quantities of result pairs and of client data, with inconsistent sizes, unknown wells and failing allocations at random points.",
   ["curves with zero or infinite travel times, no included pore volume or fewer than two points are only executed, not judged", "comparison to 1e-9 relative; cells with equal travel times may come in any order along the curve"]),
}
NA = {
 "C17": "Pure function of one input: nothing in it depends on scheduling, time, I/O, memory faults or call history, so a simulator has nothing to decide. (That results equal the upwind equations' solution in every history is C01.)",
 "C18": "Pure function of one solution pair; no schedule, fault or history enters. (That derived quantities equal their definitions in every history, memory failures included, is C24.)",
 "C19": "Pure function of one solution pair; no schedule, fault or history enters.",
 "C20": "Pure function of two vectors; no schedule, fault or history enters.",
 "C21": "Pure function of one curve; no schedule, fault or history enters.",
 "C22": "Pure function of one curve; no schedule, fault or history enters.",
 "C23": "Relation between two pure computations; no schedule, fault or history enters.",
}
NOTE = ("Seeded search, not exhaustive: the property held in every simulated run of this seed. Real code: the whole library, instrumented; "
        "simulated: heap, thread scheduler, locks, clock, entropy, output sink. Trusts clang's instrumentation, the simulator and the reference models in /verif/sim.")
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": [
      {"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "python3 check.py " + k + " --thorough",
       "technique": v[0], "level": "exploration", "level_note": NOTE} for k, v in sorted(C.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: the seams are compiler instrumentation and link-time wrapping, applied to /repo's sources as they are."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
json.dump({k: {"rule": v[1], "assumptions": v[2]} for k, v in C.items()}, open(os.path.join(HERE, "sim", "rules.json"), "w"), indent=1)
open(os.path.join(HERE, "sim", "rules.json"), "a").write("\n")
