#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
FD = "opm/flowdiagnostics/"
UG = "opm/utility/graph/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Diagnostics always reflect the latest accepted inputs",
 "After any sequence of pore-volume, connection-flux and inflow assignments, diagnostics runs, rejected calls and toolbox moves, the next diagnostics run returns exactly what a freshly built toolbox given only the latest accepted inputs returns, whatever the caller has meanwhile done with the objects it passed in. "
 "Those values solve the first-order upwind tracer and time-of-flight equations of these inputs (along the total flux for injection, against it for production), recirculating flow and the 200-year ceiling on time-of-flight included. "
 "A tracer's fields hold exactly the cells reachable from its well's inflow (outflow) cells, with tracer values in (0,1].",
 ["histories", "fault_sequences", "inputs"],
 "All histories of assign/compute/rejected/move calls on one or more toolboxes, over all connection lists (duplicates, both orientations and connections of a cell with itself included), any number of phases, any pore volumes > 0 and any wells (multi-cell, shared cells, crossflow).",
 "The tests assign each input once, on at most 15 cells and acyclic flow, and never change an input after a computation, so neither the cached flow graphs nor the recirculation solver is exercised against changing inputs.",
 [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp", UG+"AssembledConnections.cpp", UG+"tarjan.c"],
 [("flow graphs rebuilt when the flux changed", "Toolbox::Impl::buildAssembledConnections, conn_built_"),
  ("split of inflow into injection/production per well", "Toolbox::Impl::assignInflowFlux"),
  ("topological sweep, Gauss-Seidel inside strong components, ToF cap", "TracerTofSolver::solve*")],
 [("conn_built_", "flow graphs are current", "Toolbox::Impl")],
 ["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics", "Solution"])

prop("C02", "A failed toolbox call changes nothing",
 "When an input assignment or a diagnostics run fails, because its arguments are inconsistent with the model (wrong sizes, inflow in cells that do not exist, unknown or mismatched start sets, missing inputs) or because memory runs out at any point inside the call, it throws. "
 "The toolbox afterwards behaves exactly as if the failed call had never been made: later runs return, bit for bit, what they return on a toolbox that never saw it.",
 ["fault_sequences", "histories"],
 "Every allocation point inside every toolbox call, single and repeated failures, every kind of inconsistent argument, in any history of calls.",
 "No test makes an allocation fail, and no test uses a toolbox for anything further after a rejected call that could have changed its inputs.",
 [FD+"Toolbox.cpp", FD+"ConnectionValues.hpp", FD+"TracerTofSolver.cpp"],
 [("validate first, build aside, then swap in", "Toolbox::Impl::assign*"),
  ("flow graphs flagged as built only when complete", "Toolbox::Impl::buildAssembledConnections")],
 observe=["Toolbox::assign*", "Toolbox::compute*"])

prop("C03", "Running out of memory is reported, never fatal and never leaks",
 "If any allocation made inside any public operation fails, the operation either still returns the same result as without the failure or reports it in its documented way (an exception, a null result, or 'false'). "
 "It never crashes, trips an assertion, reads or writes memory it does not own, or passes off a partial result as success, and every block it acquired is released again.",
 ["fault_sequences", "inputs"],
 "Every allocation point of every public operation (toolbox, solution, solver, derived quantities, strong components, connection graph, cell sets, connection values, random vectors), with single, repeated, persistent and size-dependent failures.",
 "Allocations never fail in the tests, so none of the error paths (null results of the component search, reversal failure, exceptions in the middle of a build) runs at all.",
 [UG+"tarjan.c", FD+"TracerTofSolver.cpp", UG+"AssembledConnections.cpp", FD+"Toolbox.cpp", FD+"DerivedQuantities.cpp", FD+"Solution.cpp", FD+"CellSet.cpp", "opm/utility/numeric/RandomVector.cpp"],
 [("null checks and cleanup of partial allocations", "tarjan.c: tarjan, allocate_scc_result, create_tarjan_workspace, tarjan_reverse_sccresult"),
  ("ownership by containers and unique_ptr", "all C++ classes")],
 observe=["allocator calls of the library", "outcome of every public call"])

prop("C04", "Every call finishes, and works again once memory is back",
 "Every public operation returns, with a result or an error, within an amount of work bounded by the model size and the strength of the recirculation in the flow field, also when the flow recirculates without any inflow. "
 "Once memory failures stop, repeating the interrupted operation completes within that same bound and returns the fault-free result.",
 ["fault_sequences", "inputs", "histories"],
 "All flow fields whose recirculating parts exchange at least a small fraction of their throughput with the rest, all points of failure in the operation repeated.",
 "The tests contain no recirculating flow in the solver at all and no failing operation that is repeated.",
 [FD+"TracerTofSolver.cpp", UG+"tarjan.c", FD+"Toolbox.cpp"],
 [("convergence test of the Gauss-Seidel iteration", "TracerTofSolver::solveMultiCell"),
  ("explicit-stack depth-first search", "tarjan_local, tarjan_global")],
 observe=["work (instrumented steps) per public call"])

prop("C05", "Strong components are right for every workspace history",
 "For any directed graph and any start points, the component search returns every (reachable) vertex exactly once, grouped into exactly the strongly connected components, each component after all components that can be reached from it. "
 "This does not depend on what the workspace was used for before (also larger graphs), on what freshly allocated memory contains, or on earlier calls that failed for lack of memory (reported as a null result). "
 "A result stays valid and unchanged when its workspace is reused or destroyed.",
 ["histories", "fault_sequences", "inputs"],
 "All graphs (multi-edges, self-loops, empty, single components of thousands of vertices) and all interleavings of create, search, reuse, reverse, failure and destroy over several workspaces and results.",
 "The tests use fresh workspaces, graphs of at most 16 vertices, and no failing allocation.",
 [UG+"tarjan.c", UG+"tarjan.h"],
 [("status array re-initialised per search", "tarjan_initialise"), ("stacks overlaid on the result arrays", "initialise_stacks, capture_scc")],
 [("status/link/time", "per-vertex search state in the reusable workspace", "struct TarjanWorkSpace")],
 ["tarjan", "tarjan_reachable_sccs", "tarjan_get_strongcomponent"])

prop("C06", "Reversing the component order is all or nothing",
 "Reversing a component result either succeeds and makes the components appear in exactly the opposite order, each with its vertices in unchanged order, or reports failure and leaves the result, including component views already handed out, exactly as it was. "
 "This holds for any result, any number of reversals and any pattern of memory failures in between.",
 ["fault_sequences", "histories", "inputs"],
 "All results (global and local, empty, components above and below a thousand vertices), any sequence of reversals with allocations failing at any point.",
 "The tests reverse once, with components of at most 4 vertices, and skip their check when the reversal fails.",
 [UG+"tarjan.c"],
 [("reversal into a second result, then swap", "tarjan_reverse_sccresult, reverse_scc_core, swap_scc"), ("two copy routines by size", "copy_int_vector")],
 observe=["tarjan_reverse_sccresult", "tarjan_get_strongcomponent"])

prop("C07", "A compressed connection graph is exactly the pending connections",
 "After any sequence of additions and compressions, copies and moves included, the compressed graph has exactly the requested number of rows, each row listing in ascending order and once each the neighbours added since the previous successful compression, with the sum of all weights added for that pair. "
 "Nothing of an earlier graph built with the same object survives into a later one, and requests that cannot be met (a row index beyond the requested size, or a mix of weighted and unweighted connections) are refused.",
 ["histories", "inputs"],
 "All histories of weighted or unweighted additions (duplicates, any order, indices up to thousands) and compressions with too small, exact or larger sizes on objects that are reused, copied and moved.",
 "Each test compresses a fresh object exactly once, with at most 4 vertices.",
 [UG+"AssembledConnections.cpp", UG+"AssembledConnections.hpp", UG+"AssembledConnectionsIteration.hpp"],
 [("double transposition sort, duplicate condensation, weight accumulation", "AssembledConnections::CSR"), ("pending list cleared on success", "AssembledConnections::compress, Connections::clear")],
 [("conns_", "pending connections", "AssembledConnections"), ("csr_", "last compressed graph", "AssembledConnections")],
 ["compress", "numRows", "startPointers", "neighbourhood", "connectionWeight", "cellNeighbourhood"])

prop("C08", "A failed connection-graph operation leaves graph and pending list intact",
 "When adding a connection or compressing fails (row index beyond the requested size, mixed weighted and unweighted connections, or memory running out at any point), the last compressed graph and the pending connections are exactly as before the call. "
 "Repeating the call later, when it can succeed, therefore gives the same graph as if the failure had not happened.",
 ["fault_sequences", "histories"],
 "Every allocation point in every addition and compression, in any history.",
 "The tests contain one failing compression and discard the object afterwards; allocations never fail.",
 [UG+"AssembledConnections.cpp"],
 [("pending list kept until the graph is complete", "AssembledConnections::compress"), ("index and weight lists grow together", "Connections::add")],
 observe=["addConnection", "compress", "all accessors"])

prop("C09", "The text dump is lossless and survives stream faults",
 "Writing a compressed weighted graph to a stream produces one 'row neighbour weight' line per connection in row order, from which every weight is recovered exactly, whatever precision and floating-point notation the stream was set to. "
 "If the sink fails after any number of bytes, what it accepted is a prefix of that text and the failure shows in the stream state (or as the stream's exception). "
 "In every case, exception included, the stream's formatting settings are afterwards what they were before.",
 ["fault_sequences", "inputs", "configurations"],
 "All graphs and weights, all prior precision/notation settings, sinks that fail, throw, or fill up after any number of bytes, and streams with or without exceptions enabled.",
 "No test writes a graph to a stream.",
 [UG+"AssembledConnections.cpp"],
 [("format settings saved, set and restored", "operator<<(std::ostream&, const AssembledConnections&)")],
 observe=["bytes accepted by the stream buffer", "rdstate, flags, precision"])

prop("C10", "Separate objects may be used from different threads",
 "Threads that each work on their own toolbox, solver, connection graph, component workspace or random vector, sharing at most constant inputs, get bit for bit the results they get when running alone, in every interleaving and also while operations of other threads fail. "
 "No operation modifies memory that another thread's operation on a different object uses.",
 ["schedules", "fault_sequences"],
 "All interleavings, at the granularity of single memory accesses, of up to four threads running arbitrary operation histories on objects of their own.",
 "All tests are single-threaded.",
 [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp", FD+"DerivedQuantities.cpp", UG+"tarjan.c", UG+"AssembledConnections.cpp", "opm/utility/numeric/RandomVector.cpp"],
 [("no mutable state outside the objects", "whole library")],
 observe=["results per thread", "every memory access of the library"])

prop("C11", "Finished results and constant inputs may be read by many threads",
 "Any number of threads may at the same time query or copy one finished solution, derive quantities from it, and read one compressed graph, component result, connectivity graph, value table or cell set. "
 "In every interleaving each query returns what it returns single-threaded, and none of them modifies anything the others can see.",
 ["schedules", "fault_sequences"],
 "All interleavings, at the granularity of single memory accesses, of up to four reading threads, with known and unknown identifiers and with memory failures in some of the readers.",
 "All tests are single-threaded.",
 [FD+"Solution.cpp", FD+"DerivedQuantities.cpp", UG+"AssembledConnections.cpp", UG+"tarjan.c", FD+"ConnectionValues.cpp", FD+"ConnectivityGraph.cpp", FD+"CellSet.cpp"],
 [("const queries do not write", "Solution::Impl::solutionValues and all const members")],
 observe=["query results per thread", "every memory access of the library"])

prop("C12", "Results do not depend on memory contents, heap layout or set order",
 "Repeating the same sequence of operations with the same inputs gives bit-for-bit the same results, whatever fresh memory, recycled memory and the stack happen to contain and wherever blocks are placed. "
 "Neither the order in which start sets are listed nor the order in which their cells were inserted makes any difference.",
 ["configurations", "histories"],
 "All operation histories; all initial contents of heap and stack memory, allocation placements and recycling policies, and all orders of start sets and of insertion into cell sets.",
 "A test run sees one heap layout with mostly zeroed memory, and one order.",
 [UG+"tarjan.c", FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", FD+"DerivedQuantities.cpp", FD+"CellSet.cpp", UG+"AssembledConnections.cpp"],
 [("initialisation of all work arrays", "tarjan_initialise, TracerTofSolver::prepareForSolve, CSR::accumulateRowEntries")],
 observe=["all results, bit for bit"])

prop("C13", "Returned results are immutable snapshots",
 "A solution returned by a diagnostics run, and any copy of it or object it was moved into, never changes and stays fully usable, whatever is done with the toolbox afterwards: new inputs, further or failed runs, moving or destroying it. "
 "The same holds for copies after the original is gone; queries for unknown tracers return empty fields and add nothing.",
 ["histories", "fault_sequences"],
 "All histories of toolbox use, copying, moving and destruction after a solution was returned, with memory failures in between.",
 "The tests query solutions right after computing them, while the toolbox still holds the same inputs.",
 [FD+"Solution.cpp", FD+"Toolbox.cpp"],
 [("solution owns deep copies of all fields", "Solution::Impl")],
 observe=["Solution::timeOfFlight", "Solution::concentration", "Solution::startPoints"])

prop("C14", "Random vectors are reproducible and isolated from each other",
 "The samples a random vector object produces depend only on the sequence of requests made to that object: two objects given the same requests produce identical samples, however their calls interleave with those of other objects or threads. "
 "Every sample has the requested length, normal samples have the requested mean and deviation, every index lies in the range zero to the given maximum and the whole range occurs, both ends included, and each distinct request continues the object's own stream rather than repeating it.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of requests to several objects, from one or several threads, with memory failures in between.",
 "The only use in the tests is one object producing input nobody checks.",
 ["opm/utility/numeric/RandomVector.cpp"],
 [("one generator per object", "RandomVector::Impl::gen_")],
 observe=["RandomVector::normal", "RandomVector::index"])

prop("C15", "Input containers hold exactly what they accepted",
 "Cell sets, connection values and connectivity graphs contain exactly what was successfully put into them, through any sequence of insertions, writes, copies, moves and failed calls; copies are independent of their originals. "
 "Writes or reads outside a value table, and neighbour lists of odd length or with cell numbers outside the model (negative ones included), are refused and change nothing.",
 ["histories", "fault_sequences"],
 "All histories of insertions, writes, reads, copies, moves, out-of-range requests and memory failures on several containers.",
 "The tests insert a fixed list into one set and write one table, with no failure and no copies.",
 [FD+"CellSet.cpp", FD+"ConnectionValues.cpp", FD+"ConnectivityGraph.cpp"],
 [("bounds checks", "ConnectionValues::operator(), ConnectivityGraph::ConnectivityGraph"), ("duplicate removal", "CellSet::insert")],
 observe=["iteration and lookups of the containers"])

prop("C16", "A solver object can be reused for any sequence of solves",
 "A tracer/time-of-flight solver gives, for every global or local solve in any sequence and after solves that failed (negative source, memory running out), exactly what a freshly constructed solver gives for that solve. "
 "Those values solve the upwind tracer and time-of-flight equations for the start set given.",
 ["histories", "fault_sequences"],
 "All sequences of global solves, local solves with different start sets, failing solves and memory failures on one solver object.",
 "The solver is only tested through the toolbox, which runs one fixed pattern: one global solve, then local ones, on a new solver each time.",
 [FD+"TracerTofSolver.cpp", FD+"TracerTofSolver.hpp"],
 [("per-solve reset of work arrays and source terms", "TracerTofSolver::prepareForSolve, setupLocalSource, cleanupLocalSource")],
 [("local_source_term_, is_start_, tof_, tracer_", "work arrays carried between solves", "TracerTofSolver")],
 ["TracerTofSolver::solveGlobal", "TracerTofSolver::solveLocal"])

prop("C24", "Derived quantities describe exactly the results they were given",
 "For any two results, however they came about (after failed calls, changed inputs, copies or moves of results, destroyed toolboxes), the flow/storage capacity curve, Lorenz coefficient, sweep efficiency, pair volume and pair flux are exactly what their definitions give for these results and the given pore volumes and inflows, whatever was derived before. "
 "Inconsistent sizes, pore volumes that do not cover the cells of a pair, and wells missing from the inflows are refused; when memory runs out at any point the call throws, and repeated later gives the same values as without the failure.",
 ["histories", "fault_sequences"],
 "All histories of runs, copies, moves, derivations, refused and failed calls over several live results.",
 "The tests derive quantities once from one freshly computed pair of results on two small grids, with no failure, no refusal of pair requests and nothing derived before.",
 [FD+"DerivedQuantities.cpp", FD+"Solution.cpp"],
 [("sort and cumulative sums on copies", "flowCapacityStorageCapacityCurve, cumulativeNormalized"), ("size checks", "lorenzCoefficient, sweepEfficiency"), ("well lookup before use", "injectorProducerPairFlux")],
 observe=["flowCapacityStorageCapacityCurve", "lorenzCoefficient", "sweepEfficiency", "injectorProducerPairVolume", "injectorProducerPairFlux"])

# ---- pure functions of their input: listed, not claimed -------------------------------------
prop("C17", "Tracers partition the flow",
 "For divergence-consistent flow, the concentrations of all injector (producer) tracers sum to one in every cell that receives fluid from (delivers to) wells only.",
 ["inputs"], "All flow fields.", "Tests sample four small grids.",
 [FD+"TracerTofSolver.cpp"], [("upwind tracer balance", "TracerTofSolver::solveSingleCell")], observe=["Solution::concentration"])
prop("C18", "Pair fluxes balance for incompressible flow",
 "For incompressible flow, the injection flux and the production flux attributed to an injector-producer pair are equal up to sign, and the pair fluxes of a well add up to its total rate.",
 ["inputs"], "All incompressible flow fields and wells.", "Tests check one pair on a line of 5 cells.",
 [FD+"DerivedQuantities.cpp"], [("tracer-weighted source sums", "pairFlux")], observe=["injectorProducerPairFlux"])
prop("C19", "Pair volumes add up to the swept pore volume",
 "The volumes of all injector-producer pairs add up to the pore volume reached by both an injector and a producer, when tracers partition the flow.",
 ["inputs"], "All flow fields and wells.", "Tests check one pair.",
 [FD+"DerivedQuantities.cpp"], [("tracer product sum", "injectorProducerPairVolume")], observe=["injectorProducerPairVolume"])
prop("C20", "The F-Phi curve is a normalised, increasing, concave curve",
 "For positive travel times, the flow/storage capacity curve starts at (0,0), ends at (1,1), increases in both coordinates and is concave; cells above the pore-volume fraction limit do not contribute.",
 ["inputs"], "All time-of-flight and pore-volume fields and fraction limits.", "Tests check two small curves.",
 [FD+"DerivedQuantities.cpp"], [("sort by travel time, cumulative sums", "flowCapacityStorageCapacityCurve")], observe=["flowCapacityStorageCapacityCurve"])
prop("C21", "The Lorenz coefficient lies between zero and one",
 "For every F-Phi curve of the library the Lorenz coefficient is twice the area between the curve and the diagonal, and lies in [0,1].",
 ["inputs"], "All F-Phi curves.", "Tests check three curves.",
 [FD+"DerivedQuantities.cpp"], [("trapezoidal rule", "lorenzCoefficient")], observe=["lorenzCoefficient"])
prop("C22", "Sweep efficiency increases to one with time",
 "Along every concave F-Phi curve, sweep efficiency is non-decreasing in dimensionless time, starts at zero and ends at the fully swept value one.",
 ["inputs"], "All F-Phi curves.", "Tests check three curves.",
 [FD+"DerivedQuantities.cpp"], [("tangent construction", "sweepEfficiency")], observe=["sweepEfficiency"])
prop("C23", "Reversing the flow swaps injection and production diagnostics",
 "Negating all connection fluxes and all well rates turns injection diagnostics into production diagnostics and vice versa.",
 ["inputs"], "All flow fields and wells.", "No test compares the two directions.",
 [FD+"Toolbox.cpp"], [("same solver on swapped graphs", "Toolbox::Impl::injDiag, prodDiag")], observe=["Toolbox::compute*"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
