#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they stay reviewable."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOTEST = "The 13 stable tests cover node flags and two doc examples only; nothing in them builds a diagram or runs a solver. "

prop("S01", "The classical solver proves the true optimum",
 "For every finite maximisation problem given with an admissible relaxation and optimistic estimate, running the classical (parallel) solver to completion yields exactly the optimal value, and reports no solution exactly when none exists. This holds for every cutset type, every maximum width of at least one, every state ranking, every initial value and either frontier implementation.",
 ["inputs", "programs", "configurations"],
 "all problems (layered decision processes with dead ends, ties, negative values, coinciding merged/exact states), all widths >= 1, both cutsets, both frontiers, any ranking",
 NOTEST + "Optimality is a universal claim over problems x configurations; lost solutions only show on inputs where a restriction missed the optimum and a bound or cutset then drops it.",
 ["src/solver/parallel.rs", "src/mdd/with_all.rs", "src/frontier/no_dup.rs", "src/frontier/simple.rs", "src/prelude.rs"],
 [("branch and bound over cutset subproblems", "src/solver/parallel.rs process_one_node / enqueue_cutset"),
  ("restricted and relaxed compilation, local bounds, cutset extraction", "src/mdd/with_all.rs _compile / relax / compute_local_bounds")],
 observe=["Solver::best_value", "Solver::best_solution"])

prop("S02", "The barrier solver proves the true optimum",
 "For every finite maximisation problem given with an admissible relaxation and optimistic estimate, running the barrier solver to completion yields exactly the optimal value, and reports no solution exactly when none exists, however aggressively its thresholds prune. This holds for every cutset type, every maximum width of at least one, every state ranking and every initial value.",
 ["inputs", "programs", "configurations"],
 "all problems, widths >= 1, both cutsets, any ranking; in particular states reached several times with different and with equal values",
 NOTEST + "A threshold that is one too high, or marked as settled too early, loses solutions only for particular combinations of re-reached states.",
 ["src/solver/barrier.rs", "src/mdd/with_barrier.rs", "src/frontier/no_dup.rs"],
 [("expansion thresholds per layer and state", "src/mdd/with_barrier.rs compute_local_bounds_and_theta / try_update_barrier"),
  ("threshold test on popped subproblems and layer clean-up", "src/solver/barrier.rs get_workload")],
 state=[("threshold", "value below or at which re-expanding a state is useless, with a settled/pending flag", "BarrierInfo in src/mdd/with_barrier.rs")],
 observe=["Solver::best_value", "Solver::best_solution"])

prop("S03", "The reported solution is feasible and worth the reported value",
 "Whenever either solver reports a solution - after completion or after an interruption, with any number of threads - it assigns exactly one decision to every variable, every decision is allowed by the problem in the state where it is taken, and its total value (initial value included) is exactly the reported best value and lower bound. A best value is reported if and only if a solution is; best_value_so_far and best_solution_so_far say the same as best_value and best_solution, and asking again gives the same answer.",
 ["inputs", "schedules", "configurations"],
 "all problems and configurations, every interruption point, every thread interleaving",
 NOTEST + "Values and paths are tracked by separate links through merged nodes; mismatches only occur for particular merges, re-used parents or interleaved incumbent updates.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs", "src/mdd/with_all.rs", "src/mdd/with_barrier.rs"],
 [("incumbent update", "maybe_update_best in both solvers"), ("best path reconstruction", "_best_path_partial_borrow in both diagrams")],
 observe=["best_solution", "best_value", "best_lower_bound", "best_solution_so_far", "best_value_so_far"])

prop("S04", "Classical solver: the result does not depend on thread scheduling",
 "With any number of worker threads and under every interleaving of them, the classical solver finishes a run with the same optimal value as a sequential run, with status Proved and with lower and upper bound both equal to that value.",
 ["schedules", "inputs", "configurations"],
 "all thread interleavings at lock, condition-variable and shared-map operations; 1..n threads, also when the thread count is changed after construction",
 NOTEST + "No test starts two workers; ordering bugs need a specific preemption between reading shared bounds, updating the incumbent and publishing subproblems.",
 ["src/solver/parallel.rs"],
 [("critical section shared by the workers", "Critical / get_workload / notify_node_finished in src/solver/parallel.rs")],
 observe=["best_value", "best_lower_bound", "best_upper_bound", "returned ResolutionStatus"])

prop("S05", "Barrier solver: the result does not depend on thread scheduling",
 "With any number of worker threads and under every interleaving of them, including interleavings inside diagram compilation where thresholds are read and published, the barrier solver finishes a run with the same optimal value as a sequential run, with status Proved and with lower and upper bound both equal to that value.",
 ["schedules", "inputs", "configurations"],
 "all thread interleavings at lock, condition-variable and threshold-map operations; 1..n threads",
 NOTEST + "Thresholds are published while a diagram is still being compiled; whether a concurrent compilation may rely on them depends on the interleaving.",
 ["src/solver/barrier.rs", "src/mdd/with_barrier.rs"],
 [("early publication of thresholds to other workers", "try_update_barrier calls in src/mdd/with_barrier.rs _compile"),
  ("open/ongoing counters per layer that guard threshold clean-up", "get_workload in src/solver/barrier.rs")],
 observe=["best_value", "best_lower_bound", "best_upper_bound", "returned ResolutionStatus"])

prop("S06", "Every run terminates: no schedule deadlocks, livelocks or crashes",
 "For either solver, any thread count of at least one (also when changed after construction) and any moment at which the interrupt condition becomes true, every interleaving of the workers ends with all workers finished: none waits forever, spins forever or panics.",
 ["schedules", "configurations", "fault_sequences"],
 "all thread interleavings and wake-up orders, all interruption points, with more idle workers than subproblems",
 NOTEST + "Lost wake-ups and wrong idle accounting need several idle workers and a specific wake-up order.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs"],
 [("idle/ongoing accounting and monitor notification", "get_workload / notify_node_finished in both solvers")],
 state=[("ongoing", "number of subproblems being processed", "Critical in both solvers")],
 observe=["return of maximize / maximize_with_interrupt"])

prop("S07", "After any interruption the reported bounds bracket the optimum",
 "Wherever a run is interrupted - at any poll of the interrupt condition, with any number of threads and under any interleaving - the reported lower bound never exceeds the true optimum and the reported upper bound is never below it, so the bounds only coincide when optimality is genuinely established. If no solution was found yet, none is claimed.",
 ["schedules", "fault_sequences", "inputs"],
 "all interruption points x all interleavings x problems, both solvers, both cutsets",
 NOTEST + "The upper bound is computed once, at the instant of the interrupt, from what happens to be open or in flight at that instant.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs"],
 [("bound computation on interrupt", "get_workload in both solvers")],
 state=[("best_ub", "upper bound reported to the user", "Critical in both solvers"), ("upper_bounds", "bound of the subproblem each worker is processing", "Critical in both solvers")],
 observe=["best_lower_bound", "best_upper_bound", "best_value_so_far"])

prop("S08", "The status is faithful and interruptions are honoured",
 "A run reports Proved only if the optimum (or infeasibility) was established and its two bounds are equal, and a run whose interrupt condition never becomes true always reports Proved. A worker consults the condition before each subproblem it takes; once it has been seen to be true no worker starts another subproblem, and the run reports Interrupted.",
 ["schedules", "fault_sequences", "configurations"],
 "all interruption points (from the first poll on, or never) x interleavings x thread counts (a request for zero threads included)",
 NOTEST + "The status is derived from shared flags written by whichever worker polls first.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs"],
 [("interrupted flag and completion test", "get_workload / maximize_with_interrupt in both solvers")],
 observe=["returned ResolutionStatus", "best_lower_bound", "best_upper_bound", "calls into the problem after the interrupt"])

prop("S09", "Search statistics count the work that was actually done",
 "At the end of every run, complete or interrupted and under every interleaving, the reported number of expanded diagram nodes equals the number of node expansions performed on the problem, and the reported number of explored subproblems equals the number of subproblems handed to workers.",
 ["schedules", "inputs", "configurations"],
 "all interleavings, all problems, early-terminating compilations included",
 NOTEST + "The counters are accumulated per diagram and merged at the end of each subproblem by every worker.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs", "src/mdd/with_all.rs", "src/mdd/with_barrier.rs"],
 [("explored counters", "get_explored / get_explored_dd in both solvers and diagrams")],
 observe=["get_explored", "get_explored_dd"])

prop("S10", "The barrier solver never re-explores a dominated subproblem",
 "In a single-threaded run of the barrier solver a state whose subproblem has already been explored is explored again only if it has since been reached with a strictly better value. Hence no state is explored more often than it has distinct path values.",
 ["inputs", "programs", "configurations"],
 "all problems with re-convergent states, both cutsets, all widths",
 NOTEST + "This is the performance guarantee the barrier exists for; no test measures explored subproblems.",
 ["src/solver/barrier.rs", "src/mdd/with_barrier.rs", "src/frontier/no_dup.rs"],
 [("threshold with settled flag written when a subproblem is taken", "get_workload in src/solver/barrier.rs"),
  ("monotone threshold update", "try_update_barrier in src/mdd/with_barrier.rs")],
 observe=["sequence of subproblems for which a width is requested"])

prop("D01", "A relaxed diagram bounds its subproblem and is truthful about exactness",
 "For every subproblem, incumbent value and width, compiling a relaxed diagram gives a best value no smaller than the best completion of that subproblem whenever that completion beats the incumbent, and a diagram that claims to be exact has found precisely that completion: its best path is a feasible solution of its best value. An exact compilation always yields the optimum when it beats the incumbent.",
 ["inputs", "programs", "configurations"],
 "all problems, all reachable subproblem roots, all incumbents, widths >= 1, both cutsets, classical diagram and barrier diagram with empty thresholds",
 NOTEST + "The claim is about every merge pattern; over-pruning shows up only where merged and exact nodes meet.",
 ["src/mdd/with_all.rs", "src/mdd/with_barrier.rs"],
 [("merging of surplus nodes and edge redirection", "relax in both diagrams"), ("exactness of the best path", "has_exact_best_path / branch_on flag handling")],
 observe=["DecisionDiagram::best_value", "is_exact", "best_solution"])

prop("D02", "A restricted diagram only reports real solutions",
 "For every subproblem, incumbent and width, the best path of a restricted diagram is a feasible solution extending the subproblem's own decisions and its value is exactly the reported best value; if the diagram claims to be exact then it found the subproblem's best completion or none better than the incumbent exists.",
 ["inputs", "programs", "configurations"],
 "all problems, subproblem roots, incumbents, widths >= 1, classical diagram and barrier diagram",
 NOTEST + "Wrong exactness claims matter only when a restriction dropped the best node.",
 ["src/mdd/with_all.rs", "src/mdd/with_barrier.rs"],
 [("truncation to the most promising nodes", "restrict in both diagrams")],
 observe=["DecisionDiagram::best_value", "is_exact", "best_solution"])

prop("D03", "The cutset of a relaxed diagram covers every improving solution",
 "When a relaxed diagram is not exact, every solution of its subproblem that beats the incumbent is matched by a cutset subproblem whose best completion is at least as good and whose upper bound is at least as large. Every cutset subproblem lies strictly deeper than the root, its decisions lead in the real problem to exactly its state with exactly its value, and its upper bound is no smaller than its best completion when that beats the incumbent.",
 ["inputs", "programs", "configurations"],
 "all problems, subproblem roots, incumbents, widths >= 1, both cutset types, classical and barrier diagram with empty thresholds",
 NOTEST + "A lost branch shows only if no other branch carries an equally good solution.",
 ["src/mdd/with_all.rs", "src/mdd/with_barrier.rs"],
 [("last exact layer / frontier cutset", "relax, compute_local_bounds(_and_theta), _drain_cutset")],
 observe=["DecisionDiagram::drain_cutset"])

prop("D04", "Barrier pruning is safe for every order of processing subproblems",
 "Starting from the root and processing pending subproblems in any order with barrier diagrams that share one set of thresholds, at every moment either the incumbent is optimal or some pending subproblem that would still be explored has an optimal completion and an upper bound no smaller than the optimum. When nothing is pending the incumbent is optimal.",
 ["histories", "inputs", "configurations"],
 "all orders of taking pending subproblems, all small problems, both cutsets, widths >= 1",
 NOTEST + "Responsibility for a pruned node is handed from one diagram to another; only some processing orders expose a circular or lost hand-over.",
 ["src/mdd/with_barrier.rs", "src/solver/barrier.rs"],
 [("threshold propagation", "compute_local_bounds_and_theta"), ("threshold publication", "try_update_barrier")],
 state=[("threshold map", "per layer: state -> (threshold, settled)", "barriers in src/mdd/with_barrier.rs")],
 observe=["Barrier::compile / drain_cutset and the shared threshold maps"])

prop("D05", "A diagram object can be reused without any carry-over",
 "Compiling a subproblem with a diagram object that has been used before for any sequence of other compilations gives the same best value, best solution value, expansion count, exactness and cutset as compiling it with a fresh object. (A relaxed diagram may recognise its best path as exact or not depending on the order in which the nodes of a layer are expanded; when the two objects differ in that, the one that claims exactness must be right.)",
 ["histories", "inputs"],
 "all sequences of up to three compilations (any mix of exact, restricted and relaxed, any roots, completed or dead-ended early) on one object",
 NOTEST + "Every worker reuses one diagram for its whole life; stale cutsets, layers or flags survive only some sequences.",
 ["src/mdd/with_all.rs", "src/mdd/with_barrier.rs"],
 [("state reset", "clear in both diagrams")],
 observe=["DecisionDiagram trait methods", "get_explored"])

prop("D06", "The width limit holds and what matters most is kept",
 "In every layer of a restricted diagram at most max-width nodes are expanded, in a relaxed one from the second layer below the root on. Those kept are the best by value, ties by the state ranking (higher first); the rest is dropped from a restricted diagram and merged into one node of a relaxed one. An exact diagram keeps all. A node is expanded only if its value plus its estimate exceeds the incumbent and, in a barrier diagram, its value exceeds the threshold recorded for its state at its depth (a node whose best value needs a merged node is exempt from the latter); every other node that is kept is expanded exactly once. The solvers give every diagram the width that the width heuristic answers for the state of its subproblem, and `Fixed(w)` answers w for every state.",
 ["inputs", "configurations"],
 "all small problems, all their subproblems, widths 1-5, rankings, incumbents, thresholds, both diagrams, both cutsets, all compilation types",
 NOTEST + "One node too many or the wrong node kept never makes a result wrong on its own: memory grows or solutions come later, unless every layer is compared with what it should hold.",
 ["src/mdd/with_all.rs", "src/mdd/with_barrier.rs", "src/solver/parallel.rs", "src/solver/barrier.rs", "src/heuristics/mod.rs"],
 [("layer reduction", "restrict / relax / squash in both diagrams"), ("widths in the solvers", "process_one_node asks the width heuristic for the node's state"), ("pruning before expansion", "the expansion loop of _compile and filter_with_barrier")],
 observe=["Problem::for_each_in_domain, called once per expanded node", "get_explored"])

prop("F01", "The duplicate-free frontier is a priority queue keyed by state",
 "After every sequence of pushes, pops and clears, the duplicate-free frontier holds each state at most once, with the best value pushed for it since it was last absent (together with a path of that value) and the largest upper bound pushed for it since then. Pops return the entries in non-increasing upper-bound order (ties by the state ranking, higher first), lose nothing, and length and emptiness always agree with the content.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over a small alphabet of states, values and bounds, including re-insertion after pop and after clear",
 NOTEST + "The heap keeps back-pointers and recycles slots; corruption needs particular sequences.",
 ["src/frontier/no_dup.rs", "src/frontier/mod.rs"],
 [("updatable binary heap with slot recycling", "push / pop / bubble_up / bubble_down in src/frontier/no_dup.rs")],
 state=[("heap, pos, states, recycle_bin", "heap array, inverse positions, state index, free slots", "NoDupFrontier")],
 observe=["Frontier trait methods"])

prop("F02", "The simple frontier is a lossless priority queue",
 "After every sequence of pushes, pops and clears, the simple frontier holds exactly the multiset of pushed and not yet popped subproblems, unmodified. Pops return them in non-increasing upper-bound order (ties by the state ranking, higher first), and length and emptiness always agree with the content.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over a small alphabet with equal and different bounds and states",
 NOTEST + "The solvers cut off the whole search at the first unpromising pop, so a single misplaced entry loses solutions.",
 ["src/frontier/simple.rs", "src/frontier/mod.rs"],
 [("comparison by upper bound, then ranking", "MaxUB in src/frontier/mod.rs")],
 observe=["Frontier trait methods"])

prop("U01", "Bit-set iteration, bit-set ordering and matrix addressing are exact",
 "Iterating over a bit set yields exactly its elements, once each and in increasing order, for every capacity including word boundaries. The lexicographic wrapper is a total order that compares the lowest differing element first and agrees with equality, and every cell of a matrix of any shape is independently readable and writable by its row and column.",
 ["inputs"],
 "all bit sets up to a size, all boundary patterns over several words, all pairs for the order, all matrix shapes up to a size",
 "Two doc examples exercise one five-element set each; word boundaries, empty sets and orders over several words are never reached.",
 ["src/utils.rs"],
 [("word-wise iteration and comparison", "BitSetIter / LexBitSet / Matrix in src/utils.rs")],
 observe=["Iterator::next", "Ord::cmp", "Index / IndexMut"])

prop("T01", "The TSPTW model describes exactly the feasible tours and their makespan",
 "For every TSPTW instance whose travel times satisfy the triangle inequality, the complete decision sequences of the model are exactly the tours that respect all time windows, each visiting every city once and ending at the depot, and the value of each is minus its makespan, waiting included.",
 ["inputs"],
 "all small instances: every distance matrix and time-window assignment over a small alphabet",
 "No test touches the example models.",
 ["examples/tsptw/model.rs", "examples/tsptw/state.rs"],
 [("dynamic programming model", "impl Problem for Tsptw")],
 observe=["Problem trait methods of Tsptw"])

prop("T02", "TSPTW relaxation and estimate are optimistic",
 "For every TSPTW instance whose travel times satisfy the triangle inequality, merging any set of same-depth states gives a state from which every completion of every merged state can still be matched by one of at least the same value, the relaxed edge costs never drop below the original ones, and the estimate of a state is never below its best completion, merged states included.",
 ["inputs", "histories"],
 "all small instances x all sets of reachable same-depth states x repeated merging",
 "No test touches the example models; an estimate that is one step too pessimistic only matters when the bound decides a pruning.",
 ["examples/tsptw/relax.rs", "examples/tsptw/model.rs"],
 [("merge operator", "impl Relaxation for TsptwRelax"), ("rough upper bound", "Tsptw::estimate")],
 observe=["Relaxation::merge / relax", "Problem::estimate"])

prop("L01", "The SRFLP model describes exactly the facility arrangements and their cost",
 "For every SRFLP instance, the complete decision sequences of the model are exactly the permutations of the departments, and the value of each differs from minus the weighted centre-to-centre distance cost of that arrangement only by the arrangement-independent half-length constant.",
 ["inputs"],
 "all small instances: every length vector and flow matrix over a small alphabet (asymmetric input flows are folded)",
 "No test touches the example models.",
 ["examples/srflp/model.rs", "examples/srflp/state.rs"],
 [("dynamic programming model", "impl Problem for Srflp")],
 observe=["Problem trait methods of Srflp"])

prop("L02", "SRFLP relaxation and estimate are optimistic",
 "For every SRFLP instance, merging any set of same-depth states gives a state from which every completion of every merged state can still be matched by one of at least the same value, the relaxed edge costs never drop below the original ones, and the estimate of a state is defined and never below its best completion, merged states included.",
 ["inputs", "histories"],
 "all small instances x all sets of reachable same-depth states x repeated merging",
 "No test touches the example models.",
 ["examples/srflp/relax.rs", "examples/srflp/model.rs"],
 [("merge operator", "impl Relaxation for SrflpRelax"), ("rough upper bound", "Srflp::estimate")],
 observe=["Relaxation::merge / relax", "Problem::estimate"])

prop("P01", "The PSP model describes exactly the feasible production plans and their cost",
 "For every PSP instance with at most one unit demanded per item and period, the complete decision sequences of the model reach exactly the production plans that meet every demand by its deadline with at most one unit produced per period and nothing produced beyond demand, and the value of each is minus its changeover plus stocking cost.",
 ["inputs"],
 "all small instances: every demand matrix, changeover matrix and stocking-cost vector over a small alphabet",
 "No test touches the example models.",
 ["examples/psp/psp.rs", "examples/psp/utils.rs"],
 [("dynamic programming model", "impl Problem for Psp")],
 observe=["Problem trait methods of Psp"])

prop("P02", "PSP relaxation and estimate are optimistic",
 "For every PSP instance whose changeover costs satisfy the triangle inequality, merging any set of same-period states gives a state from which every completion of every merged state can still be matched by one of at least the same value, the relaxed edge costs never drop below the original ones, and the estimate of a state is defined and never below its best completion, merged states included.",
 ["inputs", "histories"],
 "all small instances x all sets of reachable same-period states x repeated merging",
 "No test touches the example models.",
 ["examples/psp/psp.rs"],
 [("merge operator", "impl Relaxation for PspRelax"), ("rough upper bound", "Psp::estimate")],
 observe=["Relaxation::merge / relax", "Problem::estimate"])

prop("E01", "Each bundled solver/problem combination solves instances to optimality",
 "For each of the three bundled problems, either solver, either cutset, any width factor of at least one and any thread count, solving an instance to completion reports exactly the optimal objective found by exhaustive enumeration of that instance, or no solution exactly when the instance is infeasible.",
 ["inputs", "configurations"],
 "all small instances of TSPTW (triangle inequality), SRFLP and PSP (triangle inequality on changeovers) x solver x cutset x width",
 "No test solves an instance; model, relaxation, estimate, diagram and solver only meet here.",
 ["examples/tsptw/main.rs", "examples/srflp/main.rs", "examples/psp/main.rs", "src/xputils.rs", "src/solver/parallel.rs", "src/solver/barrier.rs"],
 [("wiring of model, relaxation, ranking and width heuristic", "run_resolution_xp in each example"), ("width heuristics and rankings", "examples/*/heuristics.rs, examples/psp/psp.rs")],
 observe=["best_value of the solver on the parsed instance"])

prop("E02", "Instance files are read faithfully whatever their layout",
 "For each of the three bundled problems, an instance written in its file format is read back as exactly that instance - sizes, matrices, vectors, windows and demands - independently of the permitted layout variations (amount of white space between tokens, blank or comment lines and separators where the format allows them, trailing white space, presence of a final newline or optional trailer).",
 ["inputs"],
 "all small instances x all combinations of layout variations",
 "No test parses a file.",
 ["examples/tsptw/instance.rs", "examples/srflp/instance.rs", "examples/psp/psp.rs"],
 [("line-based parsers", "From<Lines> for TsptwInstance / SrflpInstance, TryFrom<Lines> for Psp")],
 observe=["parsed instance fields or the problem built from them"])

prop("R01", "The printed result row agrees with the run it reports",
 "For every completed, infeasible or interrupted run, the result row shows the name, solver, status, elapsed time, best value (or that none was found), bounds and work counters of that run, in the columns the header names, and the value returned to the caller is its upper bound. The shown gap is the distance of the two bounds relative to the larger of their magnitudes, zero exactly if they are equal (to the four decimals printed), and is computed for every pair of bounds without failing. The run uses the solver, cutset and number of threads asked for (as many as there are processors if no number is given) and is interrupted only when the time limit has passed.",
 ["inputs", "fault_sequences", "configurations"],
 "both solvers, both cutsets, feasible/infeasible problems, optima of every sign, interruption before and after a first solution",
 "No test runs the reporting code; bounds at the extremes or of opposite sign never occur in an ordinary solved run.",
 ["src/xputils.rs"],
 [("row formatting and gap", "solve_timeout / gap in src/xputils.rs")],
 observe=["standard output of solve_timeout and resolution_header", "its return value", "which threads call back"])

prop("S11", "A solver can be run again after any run, interrupted or complete",
 "Running the same solver object once more - after any sequence of earlier runs, each of them completed or interrupted at any point, with any number of threads and under any interleaving - is as good as the first run: if it is not interrupted it ends with the true optimum (or no solution exactly when there is none), status Proved and equal bounds; if it is, it reports Interrupted with bounds that bracket the optimum. What was found before is not forgotten: the lower bound never decreases from one run to the next, and the work counters cover all runs.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "all histories of up to three runs, every interruption point of each, both solvers, both frontiers, both cutsets, widths 1-3; two workers under all schedules within a preemption bound",
 NOTEST + "What a run leaves behind (thresholds, open subproblems, the mark of the interruption) depends on where it was interrupted, and only a second run shows it.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs", "src/mdd/with_barrier.rs"],
 [("posting the root and resetting what an earlier run left", "initialize in both solvers"), ("what an interruption leaves behind", "get_workload in both solvers")],
 state=[("thresholds", "they outlive a run of the barrier solver", "barriers in src/solver/barrier.rs"), ("interrupted", "mark of an interruption", "Critical in both solvers")],
 observe=["best_value, bounds, status and counters after each run"])

prop("S12", "The longer a run lasts, the tighter its bounds",
 "With one worker thread the search is best-first: no subproblem has a larger upper bound than the one it comes from, and subproblems are taken in non-increasing order of bound, whichever frontier is used as long as it hands out the largest bound first. Interrupting the same run later never gives a lower lower bound, a higher upper bound or smaller work counters. In the classical solver the upper bound reported is the largest bound among the subproblems still open, or the lower bound if that is larger, and once the root has been processed it is at most the bound of the relaxed diagram of the root.",
 ["fault_sequences", "inputs", "configurations"],
 "every interruption point of every run, all small problems, both solvers, any frontier, both cutsets, widths 1-3",
 NOTEST + "A bound that is not inherited or not refreshed is still a bound; only comparing all the interruption points of one run shows that it got worse.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs", "src/frontier/mod.rs"],
 [("bounds inherited by cutset subproblems", "enqueue_cutset in both solvers"), ("bounds reported at an interruption", "get_workload in both solvers")],
 observe=["bounds and counters after an interruption at each poll", "a frontier of the harness's own"])

prop("S13", "A run uses the workers it is asked for",
 "A solver processes subproblems on as many worker threads as it was built with or last told with with_nb_threads (one when that is zero; one for each processor when made with new() and not told anything), never on more under any interleaving, each worker one subproblem at a time, and none of them ends while there are still subproblems to be processed. When there is an open subproblem for each of them, there are interleavings in which all of them are busy at once, also after all but one had nothing to do and had to wait.",
 ["schedules", "configurations"],
 "all interleavings of 1-3 workers up to the preemption bound, solvers built with and given 0-3 threads or made with new(), problems with one good subproblem per worker",
 "Answers are the same with one worker: a worker that is never started, or leaves when it has nothing to do, only shows in which threads work at the same time.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs"],
 [("start of the workers", "maximize in both solvers"), ("number of workers", "with_nb_threads, new and custom in both solvers"), ("starved workers", "get_workload and WorkLoad::Starvation in both solvers")],
 observe=["threads that are inside the problem's callbacks at each moment"])

prop("S14", "A run with one worker is reproducible",
 "With one worker thread, a run depends on nothing but the problem and the configuration: another solver for the same problem - run with maximize or with maximize_with_interrupt and a condition that stays false, built with one thread, or with several or with new() and then told to use one, whatever else is in memory - asks the problem the same questions in the same order, processes the same subproblems, expands the same nodes, and ends with the same value, solution, bounds and counters.",
 ["inputs", "configurations"],
 "all small problems, both solvers, both frontiers, both cutsets, widths 1-3, rankings with and without ties; five ways to make the same run",
 NOTEST + "An order that depends on addresses or on a random seed gives right answers every time, only not the same ones.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs", "src/mdd/with_all.rs", "src/mdd/with_barrier.rs", "src/frontier/no_dup.rs"],
 [("order of the nodes of a layer", "next_l in both diagrams"), ("order of nodes of equal value and rank", "restrict and relax in both diagrams"), ("order of the subproblems", "both frontiers")],
 observe=["sequence of calls of the problem and of the width heuristic", "best_value, best_solution, bounds, counters"])

prop("S15", "A search stops when its bounds have met and wastes no work",
 "With one worker thread, once the lower and the upper bound that an interruption would report have met, no further subproblem is taken. If the maximum width is enough for every layer of the problem, the root is the only subproblem processed, and no node is expanded twice.",
 ["inputs", "fault_sequences", "configurations"],
 "every poll of every run, all small problems, both solvers, both frontiers, both cutsets, widths 1-3 and as wide as the widest layer",
 NOTEST + "A subproblem that cannot improve on the incumbent can be processed without any effect on the result.",
 ["src/solver/parallel.rs", "src/solver/barrier.rs"],
 [("pruning of open subproblems", "get_workload and process_one_node in both solvers"), ("no relaxation where the restriction is exact", "process_one_node in both solvers")],
 observe=["bounds and counters after an interruption at each poll"])

prop("U02", "Names and command lines denote exactly what they say",
 "Each cutset type, solver type and compilation type is printed as one name, which is read back as itself, and no other text is accepted; a proof is shown as Proved and an interruption as Timeout. A command line with any selection of the options, in any order and any of the usual notations, requests exactly the given file, width, timeout, threads, solver and cutset, and where an option is absent its default (no width, 60 seconds, no number of threads, parallel, lel); an incomplete or malformed one is rejected.",
 ["inputs", "configurations"],
 "all texts within one edit of a name and all short ones; all selections and orders of the six options in every notation, two values each",
 "No test reads a command line or a name.",
 ["src/prelude.rs", "src/xputils.rs"],
 [("names", "FromStr / Display of CutsetType, CompilationType, SolverType, ResolutionStatus"), ("options", "Args in src/xputils.rs")],
 observe=["from_str, to_string, Args::from_iter_safe"])

prop("X01", "A time-limited action ends with exactly one verdict",
 "Under every interleaving of the action and the watchdog, timeout(duration, action, at_exit) ends the process with exactly one verdict: exit code 0 only after the action has run to its end and if at_exit was never begun, exit code 1 only after at_exit has run, exactly once and not before the duration has passed. It never hangs, and the action is run once.",
 ["schedules", "inputs"],
 "all interleavings of the watchdog and the action, deadlines that strike at any moment (before, during and at the end of the action), durations from zero on",
 "No test calls it: it ends the process, and what matters is which of two threads gets the switch first.",
 ["src/xputils.rs"],
 [("switch that decides between the two ends", "timeout in src/xputils.rs")],
 observe=["exit code, order of the action, at_exit and the exit"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
