CHECKS = {
 "C01": ("abstract interpretation of the local search operators over symbolic routes (list segments with linear index facts)",
         "For every operator, strategy, constraint combination and level: on every return path the multiset of visited nodes equals the given one and routes are depot to depot, for routes of any length."),
 "C02": ("abstract interpretation with linear forms over symbolic distances: reported change minus true change is the zero polynomial on every return path",
         "Decides the identity for routes of any length and all distances, in real arithmetic."),
 "C03": ("abstract interpretation plus linear entailment (Fourier-Motzkin): path facts imply load and cost limits",
         "Decides for every return path of every operator that the limit checks passed on that path bound the loads and costs of all returned routes."),
 "C04": ("abstract interpretation with linear forms over symbolic distances and demands: stored cost and demand equal those of the stored route",
         "Decides for all route records returned by the operators, routes of any length, in real arithmetic."),
 "C05": ("abstract interpretation plus linear entailment: acceptance tests, level updates, early exits and the extremes of the enumerated neighbourhood",
         "Decides strictness against the given level, first and best accept behaviour, that the remembered level belongs to the remembered move, that limits reject only infeasible moves, and that extreme and neighbouring positions are candidates."),
 "C09": ("interprocedural may-mutate (alias and effect) analysis over control flow graphs",
         "Decides for every public function that no statement on any path, through aliases, views, helpers or callbacks, "
         "changes an argument in place, and that temporary changes are undone on every way out (exceptions included)."),
 "C21": ("name resolution, import/attribute/signature existence and path-sensitive definite assignment over the syntax tree and control flow graphs",
         "Decides binding of every name, import, library attribute, call signature, format string and local on every feasible path; "
         "library interfaces are read from the installed libraries, the repository itself is never executed."),
 "C10": ("interprocedural information-flow analysis from nondeterministic sources (taint) and order analysis of set iteration",
         "Decides for all code reachable from the algorithms that no unseeded random number, clock, object identity or hash order flows into results, "
         "that estimators are seeded, and that no state survives from one run to the next."),
 "C11": ("effect analysis and information-flow analysis of debug-only code",
         "Decides for every __debug__ block, assert and log argument that it has no effect and that nothing it computes flows out, "
         "so that stripping it cannot change results or control flow."),
 "C12": ("path-sensitive exception-flow (typestate) analysis of interrupt handlers over control flow graphs",
         "Decides for every handler that can catch an interrupt that all paths raise it again, with the kept best or completed partial solution."),
 "C06": ("symbolic exploration of the driver's control flow graph (loops generalised to one arbitrary iteration) with rules on its result, memo and termination state; symbolic move shapes of the operators for the order rule",
         "Decides on every path of an iteration that results stay with the positions they were computed for, that combinations are skipped only when searched or equivalent, that the memo is marked and forgotten at the right moments, that emptied routes and only they leave, and that a pass that improved something is followed by another."),
 "C07": ("path-sensitive symbolic execution of abstract values (symbolic linear forms over control flow graphs, loops generalised to one arbitrary iteration) with guard-facts per limit",
         "Decides for each construction heuristic and each combination of given limits that the totals of a grown route are advanced by the demands and legs of exactly what is added and to values found within the limit, with the documented tolerance, on every path."),
 "C08": ("interprocedural role-flow (copy propagation and points-to) analysis of every call's arguments against the roles of the parameters they reach",
         "Decides for every call between stages that distances, demands, limits, coordinates and the objective choice arrive in the parameter of the same role, and that none is left out or replaced while the caller holds it."),
 "C13": ("path-sensitive value-flow analysis of keep-the-best loops over a finite order abstraction (every weak order of the compared costs and counts)",
         "Decides on every path through every such loop that the record kept is the best of the kept and compared ones under the chosen objective, that solution, cost and count are replaced together, and that the kept one is returned."),
 "C14": ("constant propagation through the algorithm registry, with signature, return-path and objective-use analysis of every registered solver",
         "Decides availability and well-formedness of every advertised name, the selections by 'all' and 'classical', and for every solver that the objective is used or explicitly rejected and that it returns a solution on every normal path."),
 "C20": ("typestate analysis of solver models and temporary files over inlined control flow graphs, one run per solver status",
         "Decides on every path for every optimize() that configured limits are set before it, interrupt handling is restored after it, each status is handled before results are used, and that temporary files are removed on every normal path."),
 "C18": ("path-enumerating symbolic summation over sequences of any length (linear position forms, loop invariants found by induction)",
         "Decides for solutions of any length, with and without each limit, that every leg, visit and route end is accounted for once and that every exceeded limit or missing or repeated customer makes its verdict false for good."),
 "C15": ("inductive verification of a position automaton: per layout, paths are explored symbolically and the transitions compared as linear forms in row and matrix size",
         "Decides for every supported layout and every matrix size that numbers go to the layout's cells and their mirrors, row ends included, that acceptance means completeness and that the result is not recomputed."),
 "C16": ("path-sensitive symbolic value analysis of the file readers and writer, with keyword, type and layout tables cross-checked between reader, distance calculation and writer",
         "Decides that accepted types are computed by their metric, that all node data is reordered alike for every depot position, field by field reading, writer output against reader tables, depot service times and route counts."),
 "C17": ("path-sensitive symbolic region analysis of the service-time matrix, with value-flow of plain and service-time distances through the drivers",
         "Decides for every matrix type and service time that customer visits are charged in full and once, roundings only where a test shows them exact, that the caller's matrix stays unchanged, and that solving, checking and reporting use the charged matrix."),
    "C19": ("conditional constant propagation from the command line (argparse declarations, sys.argv) into the arguments of every call, with structured values",
            "all single options and values and all pairs of them; problems with one file or one random problem; argparse itself and the outcome of solving are abstract"),
 "C22": ("path-sensitive symbolic exploration of the constructors' source: a ledger of served flags and unserved pools against route containers on every path",
         "Every path of each construction loop (one havocked iteration stands for all); constructors without such a ledger (MIP assignments, rfcs, lr3opt) are not judged."),
 "C23": ("conditional constant propagation of node lists (every order and size class) and of every possible solver answer through the back ends, with symbolic distances summed exactly",
         "Lists of 1 to 5 nodes in several orders stand for all; the external solvers' answers are enumerated (every tour, rotation and direction); their optimality and failure are not judged."),
 "C27": ("abstract interpretation of the distance functions over polynomial normal forms, with roundings decided by cases of the fractional part",
         "Decides for all coordinates, in real arithmetic, that every type's formula, constants and rounding are TSPLIB's, and that geographical coordinates alone are converted."),
}
NA = {
 "C24": "the quality of solutions on benchmark files is a numeric outcome of running the heuristics; no static argument in reach bounds it",
 "C25": "optimality and the meaning of MILP models for all inputs is a mathematical statement about an external solver's result; syntax and dataflow cannot decide it",
 "C26": "termination and run time depend on metric properties of run-time data and on external solvers; no sound static bound in reach",
}
