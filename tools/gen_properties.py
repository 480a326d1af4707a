#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
FD = "opm/flowdiagnostics/"
UG = "opm/utility/graph/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

VALID = ("any connectivity graph without self-connections (any size, parallel and opposing connections, cycles, "
         "disconnected parts), any number of phases, any non-negative pore volumes, any finite signed fluxes and any "
         "set of wells, incl. cross-flowing wells and cells shared by wells")

prop("C01", "Global time-of-flight solves the upwind flow equations, capped at 200 years",
     "For every valid flow problem, the forward (resp. reverse) global time-of-flight has one value per cell and equals, to solver accuracy, "
     "the solution of the first-order upwind balance over the summed phase fluxes: pore volume divided by the cell's total inflow (connections plus all injection in the cell) "
     "plus the average of the upwind values, weighted by the source-derived part of the incoming flux. Cells that no source reaches, and cells whose own fill time exceeds "
     "200 years, count as exactly 200 years (also for cells downstream), and no reported value exceeds 200 years. The same holds for production with all flow directions and signs reversed, and also when the flow recirculates.",
     ["inputs"], VALID,
     "The suite checks four fixed acyclic problems of at most six cells, single phase, pv=0.3; recirculation, several phases, parallel connections, partly reached mixing, the 200-year cap and larger grids are never reached.",
     [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", UG+"tarjan.c", UG+"AssembledConnections.cpp"],
     [("topological reordering + per-component Gauss-Seidel", FD+"TracerTofSolver.cpp: computeOrdering, solve, solveSingleCell, solveMultiCell"),
      ("flux summation and orientation", FD+"Toolbox.cpp: buildAssembledConnections"),
      ("source aggregation", FD+"Toolbox.cpp: assignInflowFlux")],
     ["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics", "Solution::timeOfFlight()"])

prop("C02", "Tracer concentrations: exact downstream support and correct upwind mixing values",
     "For every requested start set, the concentration field holds a value for exactly the cells that can be reached from that well's injecting cells along positive total flux "
     "(for production: cells that drain towards the well's producing cells), and for no other cell, whichever of the injecting (producing) cells the start set lists. Each value is the fraction of the cell's total inflow (all upwind fluxes plus all injection in that cell) that "
     "originates from that well, to solver accuracy, so it is positive and never exceeds one; only cells where it is below the range of double precision may be left out. This holds also with recirculating flow and with wells that share cells or cross-flow.",
     ["inputs"], VALID,
     "Only five hand-computed concentration fields on acyclic graphs of at most six cells are tested.",
     [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", UG+"tarjan.c"],
     [("reachable-set ordering", FD+"TracerTofSolver.cpp: computeLocalOrdering"), ("local source handling", FD+"TracerTofSolver.cpp: setupLocalSource/cleanupLocalSource"),
      ("tracer update", FD+"TracerTofSolver.cpp: solveSingleCell/solveMultiCell"), ("per-well split of inflow", FD+"Toolbox.cpp: assignInflowFlux")],
     ["Solution::concentration(id)", "Solution::startPoints()"])

prop("C03", "Per-tracer time-of-flight solves the tracer-weighted upwind equations",
     "For every requested start set, the per-tracer time-of-flight field covers exactly the same cells as that tracer's concentration field, and each value equals, to solver accuracy, pore volume over total inflow plus the "
     "average of the upwind per-tracer times weighted by the tracer mass each upwind cell delivers. Cells whose own fill time exceeds 200 years count as exactly 200 years, and no value exceeds 200 years. Holds for injection and for production, with and without recirculation.",
     ["inputs"], VALID,
     "Five fixed fields on acyclic graphs of at most six cells are tested; mixing of tracers in cycles, capped cells and multi-perforation wells are not.",
     [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
     [("tracer-weighted ToF update", FD+"TracerTofSolver.cpp: solveSingleCell"), ("thresholding", FD+"TracerTofSolver.cpp: solve"), ("copy-out", FD+"TracerTofSolver.cpp: solveLocal")],
     ["Solution::timeOfFlight(id)"])

prop("C04", "Tracers superpose: partition of unity and weighted-average time-of-flight",
     "With one start set per injecting (producing) well, the concentrations of all wells sum to at most one in every cell, and to exactly one (to solver accuracy) in every reached cell when the flow is conservative (inflow equals outflow in every cell). "
     "The global time-of-flight equals the concentration-weighted average of the per-tracer times wherever no value is at the 200-year cap. Dividing one well's inflow among several wells leaves all other fields unchanged and makes the parts' concentrations sum to the original one.",
     ["inputs"], "any valid flow problem, conservative or not; any split of a well",
     "Conservation laws across all tracers of one computation are never asserted; tests compare single fields with constants.",
     [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
     [("shared total inflow denominator", FD+"TracerTofSolver.cpp: influx_, source_term_"), ("per-solve reset of state", FD+"TracerTofSolver.cpp: prepareForSolve"), ("inflow bookkeeping per well and in total", FD+"Toolbox.cpp: assignInflowFlux")],
     ["Solution::concentration(id)", "Solution::timeOfFlight()", "Solution::timeOfFlight(id)"])

prop("C05", "Injector-producer pair volumes and fluxes: definition, reciprocity, totals",
     "The pair volume is the sum over cells of pore volume times injector concentration times producer concentration; the pair fluxes are (injector's positive inflow weighted by producer concentration, producer's negative inflow weighted by injector concentration), zero where no tracer is stored, and asking for a well absent from the inflow data throws std::runtime_error. "
     "For conservative flow the two pair fluxes are equal and opposite, the injection fluxes of one injector over all producers sum to its total injection, the production fluxes of one producer over all injectors sum to its total production, and the pair volumes sum to the pore volume of the cells reached both forward and in reverse.",
     ["inputs"], "any solutions (computed or hand-assigned), any inflow data incl. cross-flowing wells; conservative problems for the balance laws",
     "One 5-cell chain with a single injector-producer pair is tested.",
     [FD+"DerivedQuantities.cpp", FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
     [("pair volume", FD+"DerivedQuantities.cpp: injectorProducerPairVolume"), ("pair flux", FD+"DerivedQuantities.cpp: pairFlux, injectorProducerPairFlux")],
     ["injectorProducerPairVolume", "injectorProducerPairFlux"])

prop("C06", "Forward and reverse diagnostics are duals under flow reversal",
     "Negating every connection flux and every inflow value turns injection diagnostics into production diagnostics and vice versa: the global time-of-flight, the start points, the per-tracer times and the concentrations of one computation equal those of the opposite computation on the reversed problem. "
     "This holds for every valid flow problem and every selection of start sets.",
     ["inputs"], VALID,
     "Tests never compare a problem with its reversal; forward and reverse are separate code paths with separate hand-computed constants.",
     [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp"],
     [("two oriented graphs built from one flux field", FD+"Toolbox.cpp: buildAssembledConnections"), ("sign split of inflow", FD+"Toolbox.cpp: assignInflowFlux"), ("injDiag/prodDiag", FD+"Toolbox.cpp")],
     ["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

prop("C07", "Results do not depend on how the same flow problem is represented",
     "Renumbering cells renumbers the results and changes nothing else; reordering connections, swapping a connection's two cells while negating its flux, splitting a connection into parallel ones of the same flow direction that carry the same total, adding zero-flux connections, redistributing the same total flux over phases, reordering or renaming start sets, "
     "listing a start cell repeatedly, leaving zero-rate entries in the inflow, and scaling fluxes, inflows and pore volumes by one common factor all leave every time-of-flight and concentration unchanged (to solver accuracy).",
     ["inputs", "configurations"], "any valid flow problem and any composition of these representation changes",
     "Each test fixes one representation (structured numbering, one phase, aligned orientation).",
     [FD+"Toolbox.cpp", FD+"ConnectivityGraph.cpp", FD+"ConnectionValues.cpp", UG+"AssembledConnections.cpp", UG+"tarjan.c", FD+"TracerTofSolver.cpp"],
     [("duplicate accumulation and sorting in CSR", UG+"AssembledConnections.cpp: CSR::create"), ("flux orientation and phase summation", FD+"Toolbox.cpp: buildAssembledConnections"), ("Tarjan ordering", UG+"tarjan.c")],
     ["Toolbox API", "Solution"])

prop("C08", "Toolbox results depend only on the latest assigned data, for every call history",
     "After any sequence of assignments, computations, rejected calls and moves, a diagnostics computation returns what a freshly built toolbox with the same latest pore volumes, fluxes and inflows returns (or is refused likewise). "
     "A rejected assignment or computation leaves the previously assigned data in force, and an already returned solution never changes afterwards.",
     ["histories"], "any interleaving of assignPoreVolume, assignConnectionFlux, assignInflowFlux, both computations (valid and invalid), move construction and move assignment",
     "Every test assigns once and computes each direction once; re-assignment after a computation, the cached oriented graphs and rejected calls in mid-history are never exercised.",
     [FD+"Toolbox.cpp"],
     [("conn_built_ invalidation", FD+"Toolbox.cpp: assignConnectionFlux/buildAssembledConnections"), ("clearing of inflow maps", FD+"Toolbox.cpp: assignInflowFlux"), ("validation before mutation", FD+"Toolbox.cpp")],
     ["Toolbox API", "Solution"],
     [dict(name="conn_built_", meaning="oriented graphs match flux_", where=FD+"Toolbox.cpp"), dict(name="pvol_/flux_/inj_flux_by_id_/prod_flux_by_id_/only_*_flux_", meaning="latest assigned data", where=FD+"Toolbox.cpp")])

prop("C09", "Malformed input is rejected by exception, well-formed input never is",
     "std::logic_error is thrown for: a neighbourship table of odd length or with a cell index that is negative or not below the cell count, pore volumes or fluxes whose count differs from the graph, inflow given for a cell outside the graph, (connection, phase) indices out of range, and computing before pore volumes and fluxes are assigned. "
     "std::runtime_error is thrown for a start set whose id has no inflow of the needed sign or that contains a cell without such inflow, for curves with different coordinate counts and for F-Phi input of different sizes. Everything else (well-formed) is accepted.",
     ["inputs"], "any argument values around each documented size and index bound, in both directions",
     "A handful of single invalid calls are tested; boundary indices, negative indices, off-by-one sizes and rejection inside longer argument lists are not.",
     [FD+"ConnectivityGraph.cpp", FD+"ConnectionValues.cpp", FD+"Toolbox.cpp", FD+"DerivedQuantities.cpp"],
     [("constructor checks", FD+"ConnectivityGraph.cpp"), ("bounds check", FD+"ConnectionValues.cpp: operator()"), ("size and start-set checks", FD+"Toolbox.cpp"), ("size checks", FD+"DerivedQuantities.cpp")],
     ["exceptions of the public API"])

prop("C10", "Strong components: exact partition of the graph in reverse topological order",
     "For every directed graph in CSR form (including self loops, repeated edges, isolated vertices, very long chains and very large components), the component computation returns each vertex in exactly one component, "
     "two vertices share a component exactly when each can reach the other, and every edge between different components leads to a component returned earlier.",
     ["inputs"], "any CSR graph with nv >= 1, any edge order",
     "Tests use 2x2 and 4x4 grids; deep recursion-like chains, components above the 1024-element copy threshold and dense multigraphs are never reached.",
     [UG+"tarjan.c", UG+"tarjan.h"],
     [("iterative DFS with stacks stored inside the result arrays", UG+"tarjan.c: tarjan_local, capture_scc"), ("low-link update", UG+"tarjan.c: dfs_from_descendant, complete_dfs_from_vertex")],
     ["tarjan", "tarjan_get_numcomponents", "tarjan_get_strongcomponent"])

prop("C11", "Reachable strong components: exactly the vertices reachable from the starts",
     "Starting from any list of vertices (any order, with repetitions, possibly empty), the sparse component computation returns exactly the vertices reachable from them, each in exactly one component, components being the strong components of the full graph, in reverse topological order. "
     "The result does not depend on earlier uses of the work-space, and a work-space made for more vertices than the graph has serves equally well.",
     ["inputs", "histories"], "any CSR graph, any start list, any sequence of calls sharing one work-space",
     "Sparse tests use 2x2/4x4 grids with a fresh, exactly sized work-space and one or two start points.",
     [UG+"tarjan.c"],
     [("re-initialisation per call", UG+"tarjan.c: tarjan_initialise"), ("skip of finished start points", UG+"tarjan.c: tarjan_reachable_sccs")],
     ["tarjan_reachable_sccs", "tarjan_get_strongcomponent"])

prop("C12", "Reversing a component result reverses component order and nothing else",
     "After a successful reversal the components appear in exactly the opposite order, each with the same vertices in the same order and the same component count; reversing twice restores the original sequence. "
     "This holds for results of the full and the sparse computation, of any size, including empty results.",
     ["inputs", "histories"], "any component result and any number of reversals",
     "Reversal is tested on results with at most 16 vertices; components large enough for the memcpy path are not reached.",
     [UG+"tarjan.c"],
     [("reverse_scc_core / copy_int_vector / swap_scc", UG+"tarjan.c")],
     ["tarjan_reverse_sccresult", "tarjan_get_strongcomponent"])

prop("C13", "Graph kernels survive allocation failure: documented status, no leak, no damage",
     "If any memory allocation fails inside work-space creation, the full or the sparse component computation, the function returns NULL; if one fails inside result reversal, it returns zero and the result keeps its original components and order. "
     "In every case, also when no allocation fails, nothing is leaked or freed twice, the inputs stay usable, and repeating the call when memory is available succeeds with the correct result.",
     ["fault_sequences"], "failure of each single allocation, and of all allocations from each point on, in each kernel, over generated graphs",
     "No test injects allocation failure.",
     [UG+"tarjan.c"],
     [("NULL checks and cleanup", UG+"tarjan.c: create_tarjan_workspace, allocate_scc_result, tarjan, tarjan_reverse_sccresult")],
     ["tarjan*, create_tarjan_workspace return values"])

prop("C14", "CSR assembly: sorted unique neighbours with exact accumulated weights",
     "After adding any multiset of (weighted or unweighted) connections and compressing to N rows, row i lists exactly the distinct targets added for source i, in ascending order, each with the sum of all weights added for that pair; start pointers have N+1 non-decreasing entries from 0 to the number of stored pairs, rows without connections are empty, and the reported row count is N. "
     "Neighbourhood iteration yields the same (target, weight) pairs.",
     ["inputs"], "any list of pairs with non-negative entity ids, any finite weights, any N above the largest source id, targets may exceed N",
     "Tests use four vertices and at most a few duplicates.",
     [UG+"AssembledConnections.cpp", UG+"AssembledConnections.hpp", UG+"AssembledConnectionsIteration.hpp"],
     [("bucket assembly, double transpose sort, duplicate condensation, weight scatter through elmIdx_", UG+"AssembledConnections.cpp: CSR")],
     ["startPointers", "neighbourhood", "connectionWeight", "cellNeighbourhood", "numRows"])

prop("C15", "A reused connection builder behaves like a new one in every build history",
     "After a compress, connections added next form a new graph: across any sequence of builds (weighted, unweighted, empty, larger or smaller than before) of one object, each compressed graph equals the one a fresh object would produce. "
     "Compress throws std::logic_error when only some of the pending connections have weights and std::invalid_argument when a pending source id is not below the row count (and never otherwise), a rejected compress leaves the compressed graph and the pending connections as they were, and copies are independent of the original.",
     ["histories"], "any sequence of addConnection (both overloads), compress with any row count, copy and assignment",
     "Every test builds one graph with one compress; rebuilding is documented but never exercised.",
     [UG+"AssembledConnections.cpp"],
     [("Connections::clear, isValid, maxRow", UG+"AssembledConnections.cpp"), ("CSR::create check before mutation", UG+"AssembledConnections.cpp")],
     ["AssembledConnections public API"])

prop("C16", "Text output of an assembled graph is lossless and leaves the stream as it was",
     "Streaming an assembled weighted graph writes, one per line in row-major order, exactly its (source, target, weight) triples, and reading the text back reproduces every weight bit for bit, whatever floating-point format or precision the stream had. "
     "Afterwards the stream's precision and floating-point format are as they were before.",
     ["inputs", "configurations"], "any assembled weighted graph with finite weights; any prior precision and float format of the stream",
     "The output operator is not tested at all.",
     [UG+"AssembledConnections.cpp"],
     [("operator<<: precision and format save/restore", UG+"AssembledConnections.cpp")],
     ["operator<<(std::ostream&, const AssembledConnections&)"])

prop("C17", "The F-Phi curve is the normalised storage/flow curve ordered by travel time",
     "For non-negative pore volumes and positive total travel times the curve has one point per cell plus the origin, starts at (0,0), ends at (1,1), is non-decreasing in both coordinates and concave; step k adds the pore-volume share and the (pore volume / total travel time) share of one cell, cells being taken in order of increasing total travel time (forward plus reverse). "
     "Cells whose share of the total pore volume is above the given fraction (strictly) contribute nothing and are not counted in the normalisation, whereas all cells count in the total used for the cut-off. Both overloads agree, and permuting cells or scaling all pore volumes or all times leaves the curve unchanged.",
     ["inputs"], "any time and pore-volume vectors of equal size with at least one retained positive volume, any fraction",
     "Two fixed curves with at most five cells are tested; ties, the cut-off fraction and larger inputs are not.",
     [FD+"DerivedQuantities.cpp"],
     [("sort by total travel time, cumulativeNormalized", FD+"DerivedQuantities.cpp: flowCapacityStorageCapacityCurve")],
     ["flowCapacityStorageCapacityCurve"])

prop("C18", "The Lorenz coefficient is twice the area above the diagonal, within [0,1]",
     "For any curve with equally many coordinates the coefficient is twice the trapezoidal area under the curve minus one. For every F-Phi curve of a set of cells it lies in [0,1], is zero when all total travel times are equal, equals the Gini-type pairwise sum over the cells, and does not change when cells are permuted, subdivided, or all volumes or times are scaled.",
     ["inputs"], "any curve; any cell data with positive volumes and times",
     "Four fixed curves are tested.",
     [FD+"DerivedQuantities.cpp"], [("trapezoid rule", FD+"DerivedQuantities.cpp: lorenzCoefficient")], ["lorenzCoefficient"])

prop("C19", "Sweep efficiency: correct swept fraction at every dimensionless time",
     "The result starts at (0,0) and has one further point for each step of the input curve with a change in flow capacity, in order: its dimensionless time is the storage step divided by the flow step and its efficiency is storage plus (1 - flow) times that dimensionless time. "
     "For the F-Phi curve of a set of cells both coordinates are non-decreasing, efficiency lies in [0,1], equals the sum over cells of min(volume share, flow share x time), and reaches one at the last point.",
     ["inputs"], "any curve; any cell data with positive volumes and times",
     "Three fixed curves are tested.",
     [FD+"DerivedQuantities.cpp"], [("sweepEfficiency", FD+"DerivedQuantities.cpp")], ["sweepEfficiency"])

prop("C20", "Input containers return exactly what was stored",
     "A cell set iterates over exactly the distinct cells given at construction or inserted later and keeps its id; ids convert back to their exact text and order as a strict total order on the text; connection values start at zero and each (connection, phase) entry reads back the last value written to it and is unaffected by writes to others; "
     "a connectivity graph reports its cell count, its connection count and each connection's two cells in the given order. Copies are independent of their originals.",
     ["inputs", "histories"], "any ids (incl. empty, prefixes, arbitrary bytes), any cells, any sizes and write sequences",
     "Tests use a few cells, one or two phases and one or two ids.",
     [FD+"CellSet.cpp", FD+"ConnectionValues.cpp", FD+"ConnectivityGraph.cpp"],
     [("CellSet/CellSetID", FD+"CellSet.cpp"), ("row-major indexing", FD+"ConnectionValues.cpp"), ("pair indexing", FD+"ConnectivityGraph.cpp")],
     ["CellSet", "CellSetID", "ConnectionValues", "ConnectivityGraph"])

prop("C21", "A solution object is a faithful, independent store of fields per id",
     "A solution returns, for every history of assignments, the last assigned global field and, per id, the last assigned time-of-flight and concentration fields, without mixing ids or the two kinds of field; unknown ids give empty fields. "
     "The start points are exactly the ids with a stored concentration, each once, in ascending order; copies are deep and moves carry everything over.",
     ["histories"], "any sequence of assignments, copies, moves and queries on several solution objects",
     "The store is only exercised through one computation per test with one or two ids.",
     [FD+"Solution.cpp"], [("maps keyed by CellSetID", FD+"Solution.cpp: Impl"), ("deep copy", FD+"Solution.cpp: copy constructor")], ["Solution public API"])

prop("C22", "Toolboxes are independent of each other, also when used from different threads",
     "Interleaving operations on several toolboxes, or using each from its own thread at the same time, gives every toolbox the results it gives alone, without data races. "
     "The same holds for solver, graph and curve functions working on separate objects, for toolboxes made from the same constant input objects, for copies of one solution, and for concurrent read-only queries of one solution, flux table, connectivity graph or assembled graph.",
     ["schedules", "histories"], "any interleaving and any thread schedule over separate objects",
     "All tests are single threaded and use one toolbox at a time.",
     [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp", UG+"tarjan.c", UG+"AssembledConnections.cpp", FD+"Solution.cpp", FD+"DerivedQuantities.cpp"],
     [("no static or global mutable state; all state in the instance", FD+"Toolbox.cpp: Impl; "+UG+"tarjan.c: work-space passed explicitly")],
     ["Toolbox API from several threads"])

prop("C23", "Toolbox calls hit by memory exhaustion fail cleanly and can be repeated",
     "If any memory allocation fails during an injection or production computation, the call ends with a C++ exception (never a crash), leaks nothing, and leaves the toolbox with its assigned data intact: repeating the computation when memory is available gives the same result as if the failure had not happened. "
     "This holds whichever allocation fails and whether one or all later allocations fail; an undisturbed computation leaks nothing either. Likewise an assignment of pore volumes, fluxes or inflow in which an allocation fails ends with a C++ exception, leaks nothing and leaves the previously assigned data in force, and it can be repeated.",
     ["fault_sequences"], "each allocation (C and C++) of a computation or assignment failing alone or with all later ones, over generated flow problems, first and repeated computations",
     "No test injects allocation failure.",
     [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp", UG+"tarjan.c", UG+"AssembledConnections.cpp"],
     [("RAII ownership of C results", FD+"TracerTofSolver.cpp: computeOrdering/computeLocalOrdering"), ("conn_built_ set last", FD+"Toolbox.cpp: buildAssembledConnections")],
     ["Toolbox::compute*Diagnostics", "Toolbox::assign*"])

prop("C24", "Random vectors: right length, range, distribution, and reproducible sequences",
     "A request for n values returns exactly n; index values lie between 0 and the given maximum inclusive, with every value in that range occurring with equal frequency, and normal values have the requested mean and standard deviation (mean + stdev times the standard sequence). "
     "Two newly made generators produce identical results for identical call sequences, and successive calls on one generator continue the random sequence instead of repeating it.",
     ["inputs", "histories"], "any n, bounds, means, deviations and call sequences",
     "Only used as a helper for unchecked random fluxes in the tests.",
     ["opm/utility/numeric/RandomVector.cpp"], [("mt19937 held per instance; distributions per call", "opm/utility/numeric/RandomVector.cpp: Impl")], ["RandomVector::normal", "RandomVector::index"])

prop("C25", "A tracer/time-of-flight solver gives the same answer in any order of solves",
     "On one solver object any sequence of global and local solves, in any order, with repetitions and including local solves that were rejected, returns for each solve what a new solver would return. "
     "Local solves are linear in the start set: scaling its source values scales the concentrations and leaves the times unchanged, and the concentration of a union of start sets with added sources is the sum of the separate concentrations. A start value of zero contributes nothing, and a negative one is rejected with std::logic_error.",
     ["histories", "inputs"], "any valid graph pair, pore volumes and sources; any sequence of solves with start sets within the source cells",
     "The solver is only reached through the toolbox, always global first and then each local solve once.",
     [FD+"TracerTofSolver.cpp"],
     [("prepareForSolve resets", FD+"TracerTofSolver.cpp"), ("local source set-up and clean-up", FD+"TracerTofSolver.cpp: setupLocalSource/cleanupLocalSource")],
     ["TracerTofSolver::solveGlobal", "TracerTofSolver::solveLocal"],
     [dict(name="local_source_term_/is_start_/tof_/tracer_/sequence_", meaning="scratch state reused between solves", where=FD+"TracerTofSolver.hpp")])

prop("C26", "Any valid problem, however extreme, gives finite in-range results safely",
     "For every valid flow problem, including extreme magnitude ratios of acyclic fluxes and pore volumes, zero pore volumes, no wells, no connections, all-zero fluxes, closed circulations without inflow, hubs with very many neighbours, very long chains and very many cells or wells, the computations terminate without exception, undefined behaviour or out-of-bounds access. "
     "Every time-of-flight is between 0 and 200 years, every concentration is positive and at most one, every pair volume is between 0 and the total pore volume, and the derived curve quantities are finite and in range.",
     ["inputs"], "any valid flow problem with magnitudes over many decades and sizes up to 10^5 cells",
     "Tests stay with six cells and O(1) magnitudes, without sanitizers.",
     [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", FD+"DerivedQuantities.cpp", UG+"tarjan.c", UG+"AssembledConnections.cpp"],
     [("division guards and caps", FD+"TracerTofSolver.cpp: solveSingleCell"), ("termination of the component iteration", FD+"TracerTofSolver.cpp: solveMultiCell"), ("iterative DFS", UG+"tarjan.c")],
     ["whole public API under ASan/UBSan"])

prop("C27", "Causality: values depend only on what lies upstream",
     "Injection diagnostics of a cell depend only on the cell itself and on what flows into it: changing the pore volume of a cell, the flux of a connection (also reversing or shutting it) or the injection in a cell leaves the global time-of-flight, the per-tracer times and the concentrations of every cell that this site does not reach unchanged (to solver accuracy). "
     "Production rates and producing wells, also in cells with injection, influence no injection result at all, and pore volumes influence no concentration. Where nothing is at the 200-year cap, enlarging pore volumes never shortens any time-of-flight. Production diagnostics behave likewise with upstream and downstream, injection and production exchanged.",
     ["inputs"], VALID + "; any local change of volumes, fluxes and wells",
     "No test compares the results of two related problems.",
     [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
     [("separation of inflow and outflow per sign", FD+"Toolbox.cpp: assignInflowFlux"), ("one-sided upwind stencil", FD+"TracerTofSolver.cpp: solveSingleCell"), ("component-wise solution in flow order", FD+"TracerTofSolver.cpp: solve")],
     ["Toolbox::computeInjectionDiagnostics", "Toolbox::computeProductionDiagnostics"])

prop("C28", "Volume balance: outflow times time-of-flight equals the swept pore volume",
     "For conservative flow (inflow equals outflow in every cell) in which no reached cell is at the 200-year cap, production rate times forward time-of-flight, summed over the producing cells, equals the pore volume of all cells reached from the injectors; for each injector, production rate times its concentration times its time-of-flight, summed over the producing cells, equals the sum of pore volume times its concentration over all cells. "
     "In every conservative flow, production rate times an injector's concentration, summed over the producing cells, equals the injector's total rate. The mirrored statements hold for production diagnostics.",
     ["inputs"], "any conservative flow problem, acyclic or recirculating, with any wells, phases and pore volumes (also zero)",
     "Tests compare single values with constants; the global balance ties all cells, both field kinds and the wells together.",
     [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", UG+"AssembledConnections.cpp"],
     [("pore-volume and inflow terms of the cell update", FD+"TracerTofSolver.cpp: solveSingleCell"), ("accumulation of parallel connections", UG+"AssembledConnections.cpp: CSR"), ("rates per cell and well", FD+"Toolbox.cpp: assignInflowFlux")],
     ["Solution::timeOfFlight()", "Solution::timeOfFlight(id)", "Solution::concentration(id)"])

prop("C29", "Refining cells in series or in parallel changes no result",
     "Replacing a cell by two in series (the whole inflow enters the first part, all outflow leaves the last part, one connection carrying the cell's total inflow joins them, the pore volume divided anyhow, even with an empty part) or by two in parallel (pore volume, connections and wells divided in the same proportion) leaves every concentration unchanged in both parts, and every time-of-flight unchanged in all other cells, in the last of the serial parts and in each parallel part, to solver accuracy, provided the serially refined cell's fill time is below 200 years. "
     "This holds for injection and production diagnostics, for repeated refinement, and for conservative flow in both directions at once, where the injector-producer pair volumes and fluxes stay the same too.",
     ["inputs"], VALID + "; any sequence of refinements",
     "No test compares a problem with a refinement of it.",
     [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", FD+"DerivedQuantities.cpp", UG+"AssembledConnections.cpp"],
     [("cell update in terms of volume, inflow and upwind sums only", FD+"TracerTofSolver.cpp: solveSingleCell"), ("inflow per cell", FD+"TracerTofSolver.cpp: InOutFluxComputer"), ("pair quantities as sums over cells", FD+"DerivedQuantities.cpp: injectorProducerPairVolume")],
     ["Solution::timeOfFlight()", "Solution::timeOfFlight(id)", "Solution::concentration(id)", "injectorProducerPairVolume", "injectorProducerPairFlux"])

prop("C30", "Effort grows in proportion to the problem: no quadratic behaviour",
     "Strong components (full, sparse from any start list, reversal) take time proportional to vertices plus edges plus starts, assembling and iterating connections takes time proportional to rows plus connections added, whatever the structure (very long chains, hubs, isolated vertices, repeated pairs, many small components, any numbering). "
     "Toolbox set-up takes time proportional to the data, a diagnostics computation on flow without strong recirculation takes time proportional to cells plus connections per requested start set, and curves and pair quantities take time proportional to the cells, each up to a logarithmic factor; so models of 10^6 cells are feasible.",
     ["inputs"], "any graph, connection list, acyclic or weakly recirculating flow problem or curve of up to 10^6 items",
     "Tests use at most a few dozen items; quadratic behaviour shows only for large structured input.",
     [UG+"tarjan.h", UG+"tarjan.c", UG+"AssembledConnections.hpp", UG+"AssembledConnections.cpp", FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", FD+"DerivedQuantities.cpp"],
     [("documented run-time complexity O(|V|+|E|)", UG+"tarjan.h"), ("resumed search for the next start vertex", UG+"tarjan.c: tarjan_find_start"), ("documented O(nnz) compression", UG+"AssembledConnections.hpp"), ("double transposition as linear sort", UG+"AssembledConnections.cpp: sort")],
     ["tarjan", "tarjan_reachable_sccs", "AssembledConnections::compress", "Toolbox::computeInjectionDiagnostics"])

for p in P:
    if len(p['title'])>80: print(p['id'],len(p['title']))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
