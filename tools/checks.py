"""What decides each property: the binaries that explore, and how the counters
they report are to be read."""


def seqpart(name, b, **kw):
    return dict(name=name, crate="seq", bin=b, **kw)


FAMILIES = (
    "problems: every automaton within {d} changed transition(s) of fixed 4-8 layer automata (families B W X Y), fixed automata (Z), automata whose exact states may equal merged ones (U), automata with 0-3 variables (T), values of more than 32 bits or that differ by less than a double can tell (G), automata with 20-300 layers (L), automata whose states all hash alike and whose decision values are big or negative (H), knapsacks of 8-16 items with up to 65536 nodes in a layer (N), "
    "all tiny automata (A), all knapsacks (K) and all weighted graphs (M) of DESIGN.md; widths 1-4, both cutsets, "
    "rankings ascending/descending/flat, four estimates, initial value negative/zero/positive"
)
BOUND = {"quick": FAMILIES.format(d=1), "thorough": FAMILIES.format(d="1-2")}
ORACLE = "The oracle is a brute-force search over the problem's own callbacks; overflow checks are on."
SMALL = "Bounded: holds for the enumerated problems and configurations, nothing is sampled; larger problems are covered only by the small-scope argument of DESIGN.md."

CHECKS = {}

for p in ("S01", "S02", "S10"):
    CHECKS[p] = dict(
        parts=[seqpart("seq", "solver_seq")],
        states=["expansions"], transitions=["subproblems"], traces=["runs"], evaluations=["problems"],
        counting="states = decision-diagram nodes the real solver expanded; transitions = subproblems it processed; traces = complete runs of the "
                 "real solver compared with brute force; evaluations = problem instances enumerated",
        bounds=BOUND, nonvacuous=["runs_branching"] + (["states_explored_again", "states_at_their_limit"] if p == "S10" else []),
        technique="explicit exhaustive exploration of the real solver over all small problems and configurations, against brute force",
        note=SMALL + " " + ORACLE,
    )
CHECKS["S01"]["note"] += " One worker thread; all interleavings of several workers are S04."
CHECKS["S02"]["note"] += " One worker thread; all interleavings of several workers are S05."

for p in ("D01", "D02", "D03", "D05"):
    CHECKS[p] = dict(
        parts=[seqpart("dd", "dd")],
        states=["nodes"], transitions=["compilations"], traces=["sequences" if p == "D05" else "subproblems"], evaluations=["problems"],
        counting="states = diagram nodes expanded by the real code; transitions = diagram compilations; traces = "
                 + ("sequences of compilations with one object" if p == "D05" else "distinct subproblems (state, value) compiled under all configurations")
                 + "; evaluations = problem instances enumerated",
        bounds=BOUND,
        nonvacuous=["compilations"] + ([] if p == "D05" else ["approximate_diagrams", "exact_diagrams"]) + (["cutset_nodes", "cutsets_with_something_to_cover"] if p == "D03" else []),
        technique="explicit exhaustive exploration: every reachable subproblem of every small problem is compiled by the real diagrams and compared with brute force",
        note=SMALL + " " + ORACLE,
    )

SCHED = dict(name="sched", crate="sched", bin="sched")
SCHED_BOUND = {
    "quick": "automata with up to 14 subproblems; 2 workers: all schedules with up to 2 preemptions (1 or 0 where that takes more than 4000 schedules, "
             "no bound for tiny ones), 3 workers: 1 preemption; interruption at every poll; preemption at every lock, wait, notification and poll",
    "thorough": "as quick with more automata and up to 3 preemptions (2 with 3 workers), 40000 schedules per case before the bound is lowered, tiny cases unbounded",
}
SCHED_COUNT = ("states = distinct happens-before states at scheduling points; transitions = scheduling steps; traces = schedules, each executed on the real "
               "solver and compared with brute force; evaluations = (problem, configuration) pairs")
SCHED_NOTE = (
    "Stateless exploration of the real solver with its real threads under a controlled scheduler. Exhaustive within the preemption bound that parts/cases_complete_at_* "
    "report for each case. Trusted: the scheduler, the stand-in for parking_lot (no spurious wake-ups, notify_one wakes any waiter), sequential consistency for std atomics."
)
SCHED_TECH = "stateless model checking of the real solver: controlled scheduler, DFS over schedules and interruption points with preemption bound and happens-before state caching"
for p in ("S03", "S04", "S05", "S06", "S07", "S08", "S09"):
    CHECKS[p] = dict(
        parts=[SCHED], states=["states"], transitions=["steps"], traces=["schedules"], evaluations=["cases"],
        counting=SCHED_COUNT, bounds=SCHED_BOUND, technique=SCHED_TECH, note=SCHED_NOTE,
        nonvacuous=["runs_with_parallel_work"] + ([] if p in ("S04", "S05") else ["runs_interrupted", "runs_interrupted_with_open_gap", "runs_interrupted_without_solution"]),
    )
for p in ("S03", "S09"):
    c = CHECKS[p]
    c["parts"] = [seqpart("seq", "solver_seq"), SCHED]
    c["states"] = ["expansions", "states"]
    c["transitions"] = ["subproblems", "steps"]
    c["traces"] = ["runs", "schedules"]
    c["evaluations"] = ["problems", "cases"]
    c["counting"] = CHECKS["S01"]["counting"] + " (part seq) + " + SCHED_COUNT + " (part sched)"
    c["bounds"] = {t: "part seq: " + BOUND[t] + "; part sched: " + SCHED_BOUND[t] for t in BOUND}
    c["technique"] = "exhaustive exploration of the real solver over small problems, and " + SCHED_TECH
    c["note"] = SMALL + " " + ORACLE + " " + SCHED_NOTE

CHECKS["D04"] = dict(
    parts=[seqpart("proto", "proto")],
    states=["states"], transitions=["steps"], traces=["conformance_runs"], evaluations=["problems"],
    counting="states = distinct (incumbent, pending subproblems, thresholds) states of the search protocol; transitions = processing steps, each one "
             "performed by the real diagrams and the real thresholds; traces = runs of the real barrier solver whose sequence of explored subproblems was "
             "replayed as a path of the explored state space; evaluations = problem instances",
    bounds={"quick": "tiny and changed automata with a few pending subproblems at a time, all orders of processing them, widths 1-3, both cutsets; at most 3000 states per problem",
            "thorough": "as quick with more automata and larger state spaces"},
    nonvacuous=["states_with_open_optimum", "conformance_runs", "popped_and_pruned_by_threshold"],
    technique="explicit-state model checking of the search protocol: breadth-first over every order of processing the pending subproblems, each step computed by the real code, bound to the solver by replaying its runs",
    note=SMALL + " The frontier and the worker loop are replaced by a nondeterministic choice of the next subproblem; the real ones are one of these choices, which is checked on every problem by replaying a solver run.",
)
for p, what in (("F01", "duplicate-free"), ("F02", "simple")):
    CHECKS[p] = dict(
        parts=[seqpart("frontier", "frontier")],
        states=["operations"], transitions=["operations"], traces=["sequences"],
        counting="states and transitions = operations performed on the real frontier, its answers and content compared with a reference after each; traces = complete operation sequences",
        bounds={"quick": "all sequences of push/pop/clear up to the depths of the families A, O, B, C of DESIGN.md (alphabets of up to 19 operations), also with bounds of more than 32 bits, and all combinations of order, pops, bounds and repeated pushes of up to 599 states (D), plans with 70000 states and with 150 states that hash alike (E)", "thorough": "as quick, deeper"},
        nonvacuous=["sequences"],
        technique="exhaustive enumeration of all operation sequences up to a depth on the real " + what + " frontier, against a reference model",
        note=SMALL + " Reference: a list searched linearly.",
    )
CHECKS["U01"] = dict(
    parts=[seqpart("utils", "utils")],
    states=["cases"], transitions=["iterations", "comparisons", "cells"], traces=["cases"],
    counting="states and traces = bit sets, pairs, triples and matrix shapes examined on the real code; transitions = iterations, comparisons and cell accesses",
    bounds={"quick": "all bit sets of small capacities, and all subsets of the positions around every word boundary of capacities up to several words; all matrix shapes up to a size", "thorough": "as quick, larger"},
    nonvacuous=["cases"],
    technique="exhaustive enumeration of all bit sets, pairs, triples and matrix shapes within a size, real code against a reference",
    note=SMALL,
)

CHECKS["R01"] = dict(
    parts=[seqpart("report", "report")],
    states=["expansions"], transitions=["subproblems"], traces=["rows"], evaluations=["problems"],
    counting="states = nodes expanded in the reported runs; transitions = subproblems processed in them; traces = rows printed by the real code and compared "
             "with the probes and (one thread) the getters of a run interrupted at the same point; evaluations = problem instances",
    bounds={"quick": "every pair of bounds of a grid of 19 values from -2^60 to 2^60, and no lower bound; changed automata (families B, distance 1, 6 bases), all 5-item knapsacks of two weights and profits; "
                     "interruption at every reading of a virtual clock that jumps far beyond, just beyond or to just before time limits of 0 ms to 1 h; 1 thread exhaustively, 3 and the default number of threads on a subset; the header; runs whose subproblems block until as many threads work as were asked for (1-3, default)",
            "thorough": "as quick with 10 bases at distance 2 and widths 1-2"},
    nonvacuous=["rows_complete", "rows_infeasible", "rows_interrupted_with_solution", "rows_interrupted_without_solution", "rows_with_bounds_of_opposite_sign", "rows_with_both_bounds_zero", "rows_with_all_workers_at_once", "rows_around_the_time_limit", "headers"],
    technique="exhaustive enumeration of problems and interruption points under a virtual clock, each row printed by the real code compared with the run it reports",
    note=SMALL + " The rows of runs with several threads are checked for consistency only, on the schedules that happen to occur.",
)


def expart(name):
    return dict(name=name, crate="examples", bin="ex_" + name)


EX_MODEL = {
    "tsptw": "TSPTW instances: all with 3 cities, distances 1-2, windows from small sets (T02, E01: every few of them in the quick tier); all within {d} changed distance(s) or "
             "window(s) of fixed instances with up to {n} nodes (distances near-uniform, on a line, one-way), triangle inequality kept",
    "srflp": "SRFLP instances: all with 4 departments, lengths and flows from small sets; all within {d} changed length(s) or flow(s), one-directional flows included, of fixed instances "
             "with up to {n} departments; 5-digit lengths and flows",
    "psp": "PSP instances: all with 2 items, up to 4 (thorough 5) periods, costs from small sets; all demands of 3 items over 3-4 (5) periods; all within {d} changed demand(s) or cost(s) "
           "of fixed instances with up to {n} periods, idle slots, full slots, items without demand and infeasible demands included",
}


def ex_bound(kind, quick=(1, 6), thorough=(2, 7)):
    return {"quick": EX_MODEL[kind].format(d=quick[0], n=quick[1]), "thorough": EX_MODEL[kind].format(d=thorough[0], n=thorough[1])}


for p, kind in (("T01", "tsptw"), ("L01", "srflp"), ("P01", "psp")):
    CHECKS[p] = dict(
        parts=[expart(kind)],
        states=["states"], transitions=["states"], traces=["solutions"], evaluations=["instances"],
        counting="states and transitions = states and steps of the real model along every decision sequence; traces = complete decision sequences compared one to one "
                 "with the independently enumerated solutions; evaluations = instances",
        bounds=ex_bound(kind), nonvacuous=["solutions"] + ([] if p == "L01" else ["instances_infeasible"]),
        technique="exhaustive exploration of every decision sequence of the real model on all small instances, against an independent enumeration of the solutions",
        note=SMALL + " Instances are written as text and read by the real parser.",
    )
for p, kind in (("T02", "tsptw"), ("L02", "srflp"), ("P02", "psp")):
    CHECKS[p] = dict(
        parts=[expart(kind)],
        states=["states"], transitions=["merges", "estimates", "relaxed_edges"], traces=["merges"], evaluations=["instances"],
        counting="states = exact and merged states whose best completion was computed; transitions = merges, estimates and relaxed edges examined; traces = merges (of pairs, triples and "
                 "larger groups of exact, merged and merged states' successors); evaluations = instances",
        bounds={t: b + "; up to " + c + " states per layer are merged, thinner layers completely" for (t, b), c in zip(ex_bound(kind).items(), ("10-12", "12-14"))},
        nonvacuous=["merges", "merges_of_merged_states", "relaxed_edges"],
        technique="explicit exploration of the real model's exact and relaxed state spaces, layer by layer, each merge and estimate compared with the exact best completions",
        note=SMALL + " The best completion of every state, merged ones included, is computed by exhaustive search through the real callbacks.",
    )
CHECKS["E01"] = dict(
    parts=[expart("tsptw"), expart("srflp"), expart("psp")],
    states=["subproblems"], transitions=["subproblems"], traces=["runs", "program_runs"], evaluations=["instances"],
    counting="states and transitions = subproblems explored by the real solvers; traces = complete runs (program_runs: of the example program, from its command line to its printed row); "
             "evaluations = instances",
    bounds={t: "; ".join(b) + "; both solvers, both cutsets, width factors 1-2, 1 thread (every eighth instance 1-3 threads and the whole program)"
            for t, b in (("quick", [EX_MODEL[k].format(d=1, n=7) for k in EX_MODEL]), ("thorough", [EX_MODEL[k].format(d=2, n=8) for k in EX_MODEL]))},
    nonvacuous=["runs_branching", "program_runs", "instances_with_solutions"],
    technique="exhaustive runs of the real solvers and programs on all small instances and configurations, against an enumeration of all solutions",
    note=SMALL + " Runs with several threads take the schedules that happen to occur; all schedules are explored by S04 and S05 on other problems.",
)
CHECKS["E02"] = dict(
    parts=[expart("tsptw"), expart("srflp"), expart("psp")],
    states=["texts", "decimals", "demands", "files"], transitions=["texts", "decimals", "demands", "files"], traces=["texts", "decimals", "demands", "files"],
    counting="states, transitions and traces = texts read by the real parsers and compared with the instance written: layouts, numbers with decimals, demand matrices, the instance files of the repository",
    bounds={t: "fixed instances with 1-7 rows x every combination of separators, white space, blank and comment lines (at every place), line ends, final newline and trailers; TSPTW: every number with "
               "up to four decimals and " + w + " integer parts; PSP: every demand matrix of six shapes; every instance file below /repo/resources"
            for t, w in (("quick", "6"), ("thorough", "13"))},
    nonvacuous=["texts", "decimals", "demands", "files"],
    technique="exhaustive enumeration of all layouts of small instances, read by the real parsers and compared with the instance written",
    note=SMALL,
)

CHECKS["S11"] = dict(
    parts=[seqpart("rerun", "rerun"), SCHED],
    states=["expansions", "states"], transitions=["subproblems", "steps"], traces=["histories", "schedules"], evaluations=["problems", "cases"],
    counting="part rerun: states = nodes expanded by the real solver, transitions = subproblems processed, traces = histories of one to three runs of one solver object, the last run of each compared "
             "with brute force; part sched: " + SCHED_COUNT,
    bounds={"quick": "one worker: 100 fixed automata with all histories of three runs (interruption at every poll of the first run and at the first three polls of the second one), changed automata, "
                     "all tiny automata and knapsacks over the smallest alphabets with all histories of two runs; two workers: automata with up to 14 subproblems, two runs, 1 preemption; 12 telling automata (DESIGN.md), second run interrupted at once, 2 preemptions",
            "thorough": "one worker: 1600 automata, larger alphabets, up to 12 polls of the second run; two workers: 120 automata x 3 models, 2 preemptions; 60 telling automata"},
    nonvacuous=["runs_after_an_interrupted_run", "runs_after_a_completed_run", "optimum_found_after_an_interrupted_run"],
    technique="exhaustive enumeration of all histories of runs of one solver object on small problems, and " + SCHED_TECH,
    note=SMALL + " " + ORACLE + " " + SCHED_NOTE,
)
CHECKS["S12"] = dict(
    parts=[seqpart("anytime", "anytime")],
    states=["expansions"], transitions=["subproblems"], traces=["runs"], evaluations=["problems"],
    counting="states = nodes expanded by the real solver, transitions = subproblems it processed, traces = runs of the real solver, each interrupted one poll later than the one it is compared with; "
             "evaluations = problem instances",
    bounds={"quick": "2000 fixed automata and 700 of family U, all automata within one changed transition of 12 others, all automata within one transition of four with 0-3 variables, all 5-item knapsacks of two weights "
                     "and profits; four models each; every poll of every run; both solvers, both frontiers and two frontiers of our own, both cutsets, widths 1-3",
            "thorough": "as quick with 20000 fixed automata, 8000 of family U, 120 neighbourhoods, two at distance 2, and larger knapsacks"},
    nonvacuous=["lower_bound_improved", "upper_bound_improved", "compared_with_the_root_bound"],
    technique="exhaustive enumeration of the interruption points of every run of the real solver on small problems, the bounds of successive ones compared with each other, with a visible frontier and with brute force",
    note=SMALL + " " + ORACLE + " One worker: with several, what is open at an interruption depends on the schedule (S07 checks the bounds there).",
)
CHECKS["S13"] = dict(
    parts=[SCHED], states=["states"], transitions=["steps"], traces=["schedules"], evaluations=["cases"],
    counting=SCHED_COUNT,
    bounds={"quick": "problems whose root leaves one good subproblem for each of 2-3 workers; solvers built with and then given 0-3 threads or made with new(); both solvers, both cutsets; all schedules with up to 2 preemptions "
                     "(3 workers: as many as it takes to see the schedule asked for, 3 at most)",
            "thorough": "as quick with 3 preemptions and more widths"},
    nonvacuous=["runs_with_parallel_work", "cases_with_all_workers_busy", "cases_with_all_workers_busy_after_waiting", "default_crews"],
    technique=SCHED_TECH + "; which threads are inside a callback of the problem is recorded in every schedule",
    note=SCHED_NOTE + " That all workers can be busy at once is an existential claim: the check searches the bounded schedules for one in which they are.",
)
CHECKS["S14"] = dict(
    parts=[seqpart("same", "same")],
    states=["expansions"], transitions=["subproblems"], traces=["runs"], evaluations=["problems"],
    counting="states = nodes expanded by the real solver, transitions = subproblems it processed, traces = runs of the real solver, five of each problem and configuration, compared with each other; evaluations = problem instances",
    bounds={"quick": "3000 fixed automata and 700 of family U, all automata within one changed transition of 6 others, all automata within one transition of four with 0-3 variables, all 5-item knapsacks of two weights "
                     "and profits and all graphs of 5 nodes; three models; both solvers, both frontiers, both cutsets, widths 1-3, rankings with and without ties",
            "thorough": "as quick with 30000 fixed automata, 8000 of family U, 90 neighbourhoods, 6-item knapsacks and weighted graphs"},
    nonvacuous=["runs_compared", "runs_compared_that_branch"],
    technique="explicit exhaustive exploration of the real solver over all small problems and configurations, each run made in five ways and the complete sequences of callbacks compared (self-composition)",
    note=SMALL + " One worker thread. Memory is laid out differently by other allocations between the callbacks; a dependence on a random seed shows with the probability that the seeds of five runs differ in effect.",
)
CHECKS["S15"] = dict(
    parts=[seqpart("anytime", "anytime")],
    states=["expansions"], transitions=["subproblems"], traces=["runs"], evaluations=["problems"],
    counting=CHECKS["S12"]["counting"], bounds=CHECKS["S12"]["bounds"],
    nonvacuous=["polls_after_the_bounds_met", "polls_with_open_bounds", "runs_that_fit"],
    technique="exhaustive enumeration of the interruption points of every run of the real solver on small problems: what is started after the first one at which the bounds have met; runs wide enough for every layer",
    note=SMALL + " " + ORACLE + " One worker.",
)
CHECKS["D06"] = dict(
    parts=[seqpart("layers", "layers")],
    states=["nodes"], transitions=["compilations"], traces=["runs"], evaluations=["problems"],
    counting="states = nodes the real diagrams expanded, layer by layer, compared with the nodes the reference expands; transitions = compilations compared; traces = complete runs of the solvers, whose diagrams are told apart in the sequence of callbacks; evaluations = problem instances",
    bounds={"quick": "every reachable subproblem of automata within one changed transition of several others and of 180 fixed ones (up to 9 nodes in a layer), of automata with 0-3 variables and of all 5-item knapsacks of "
                     "two weights and profits; three models; exact, restricted and relaxed diagrams of both kinds, both cutsets, widths 1-5, two rankings, up to three incumbents, three sets of thresholds; runs of both solvers on the same problems with the widths 1-3 and with two widths that depend on the state",
            "thorough": "as quick with 60 neighbourhoods, 2000 fixed automata and larger alphabets"},
    nonvacuous=["layers_cut", "layers_merged", "layers_cut_between_equal_values", "nodes_below_the_incumbent", "nodes_below_their_threshold", "relaxed_nodes_below_their_threshold", "merged_states_that_were_kept", "diagrams_of_runs"],
    technique="explicit exhaustive exploration: every reachable subproblem of every small problem is compiled by the real diagrams, and the nodes of every layer are compared with those of a reference layer by layer",
    note=SMALL + " The reference is a direct layer-by-layer computation over the problem's and the relaxation's callbacks.",
)
CHECKS["U02"] = dict(
    parts=[seqpart("names", "names")],
    states=["texts", "command_lines"], transitions=["texts", "command_lines", "command_lines_rejected"], traces=["texts", "command_lines", "command_lines_rejected"],
    counting="states, transitions and traces = texts and command lines read by the real code and compared with what they denote",
    bounds={"quick": "all texts of up to 3 lower-case letters and all within one edit of a name; all selections and orders of the six options x two values each x eight mixtures of notations",
            "thorough": "as quick with texts of 4 letters and sixteen mixtures"},
    nonvacuous=["texts", "command_lines", "command_lines_rejected", "names"],
    technique="exhaustive enumeration of all short and near-miss names and of all command lines over a small set of values, read by the real parser",
    note=SMALL,
)
CHECKS["X01"] = dict(
    parts=[dict(name="deadline", crate="sched", bin="deadline")],
    states=["steps"], transitions=["steps"], traces=["schedules"], evaluations=["cases"],
    counting="states and transitions = scheduling decisions and observed events; traces = schedules, each run to the end of a real process; evaluations = (duration, action, handler) triples",
    bounds={"quick": "five durations (0, 1 ns, 1.5 s, 60 s, 100000 s; virtual time), action and handler with 0-4 scheduling points each, all interleavings without preemption bound",
            "thorough": "0-6 scheduling points each"},
    nonvacuous=["verdicts_in_time", "verdicts_too_late", "deadlines_that_beat_a_finished_action"],
    technique="stateless model checking of the real function: every interleaving of action and watchdog runs in a process of its own under the controlled scheduler and a virtual clock",
    note="Trusted: the scheduler and the interposed exit, sleep and clock. Scheduling points are the sleep, blocked locks, the end of the process and the callbacks; a lock that is free is taken together with the step before it.",
)
