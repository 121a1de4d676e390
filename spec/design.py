"""Per-property lines for DESIGN.md: what is asserted and against what."""
O = {
"P01": "Graph edges, root, costs, prizes and quota symbolic. The model is built by the real code into the SCIP stub; every edge subset is a candidate. Oracle: linear constraints + handler callbacks accept X iff X is one simple cycle through the root, the vertex variables match and the prize reaches the quota; objective = cost.",
"P02": "Symbolic LP points of the degree relaxation (as LP solution, or as a given solution while the LP holds another point). Oracle: every row holds for every tour of the graph, is violated by the point, and a detached component with an edge is cut, one row per vertex.",
"P03": "The same points with the min-cut separator. Oracle: all subsets S of the root's component; a full vertex behind a cut below two means a row is added; rows valid for all tours.",
"P04": "Symbolic prizes, quota and LP points; node infeasible or not. Oracle: own component search; row iff the root's component misses the quota and the point violates the cover; counter = rows; check callback judges the candidate given.",
"P05": "Symbolic distances, bound, root, two successive incumbents. Oracle: a 0/1 assignment (symbolic) satisfies the added constraints iff no vertex beyond the bound is taken with the root; constraints global; counter exact.",
"P06": "All graphs of 3-4 vertices. Oracle: min over all simple paths of the symbolic cost; distances are at most twice each of them and equal twice one of them; INT_MAX when unreachable.",
"P07": "Start tours in every edge orientation. Oracle: the solution handed to SCIP is 1 exactly on the tour's edges and vertices, and satisfies the model.",
"P08": "All option combinations with symbolic numbers. Oracle: which handler is included, when SEC separation happens, priorities and depths of the branching rules, time limit; behaviour observed by calling the handlers.",
"P09": "Whole solve call on the stub. Oracle: every optimal tour of the graph (all tours enumerated, costs symbolic) satisfies all constraints and cost covers added at the start.",
"P10": "Stub ends in every status with or without solutions. Oracle: returned edges = edges at 1 in the best solution, or none.",
"P11": "Symbolic sequences of gaps, nodes, window, threshold. Oracle: own list of gaps of the current node; branching iff improvement over the window is below the threshold.",
"P12": "Symbolic sequences of node and cut events. Oracle: own table per node number (parent, depth, bound, cuts).",
"P13": "Symbolic counters, statuses, bounds through solver -> summary -> YAML -> summary. Oracle: field by field equality; missing file is reported.",
"P14": "Every 32-bit level. Oracle: table of the six levels, info otherwise; the filter passes exactly severities >= level.",
"P15": "Symbolic counters and bounds through the writers; a number written to a stream is a mark that stands for its term as long as the stream's precision keeps all its digits (outside that its values are enumerated). Oracle: own CSV reader, column by name, own calendar arithmetic for the times.",
"P20": "Symbolic names. Oracle: injective, range 0..k-1, round trip identity.",
"P21": "Symbolic names, costs, prizes, key orientation. Oracle: value under either orientation.",
"P22": "All walks of a symbolic graph. Oracle: sums over the walk written out.",
"P23": "All tours, roots, positions. Oracle: modular positions.",
"P24": "All graphs/sources/limits/blocked vertices. Oracle: Bellman-Ford hop counts.",
"P25": "Symbolic costs, all forbidden sets. Oracle: minimum over all simple paths.",
"P26": "All component vectors / edge sets. Oracle: set comprehension.",
"P30": "Symbolic costs, prizes, quota. Oracle: closed simple tour from the root, input left alone, cost not larger, quota kept or tour unchanged, and at least as cheap as every single-vertex collapse (enumerated) that keeps root and quota.",
"P31": "Symbolic costs and prizes. Oracle: closed simple tour containing the given one in order; each insertion has the greatest prize/extra cost (cross-multiplied) at its turn.",
"P32": "As P31 with a symbolic quota; stops at the quota, stops short only without a gain.",
"P33": "Every step/depth. Oracle: closed simple tour with the root, prize strictly larger when changed.",
"P34": "As P33 with a symbolic quota and an own search for remaining admissible paths.",
"P35": "The whole extension-and-collapse route. Oracle: empty or a closed simple tour from the root at the quota; a feasible start tour gives a tour that is no dearer.",
"P36": "Binding functions called with symbolic vertex names/gaps through the pybind11 stub. Oracle: the same algorithm called directly on the renamed instance.",
"P37": "Binding of the solver: every argument arrives under its meaning (graph, costs, prizes, distances, options), answer translated back.",
"P40": "All graphs of 4-6 vertices with symbolic costs. Oracle: cheapest edge/vertex-disjoint pair by brute force over pairs of simple paths.",
"P41": "All graphs / assignments of disjoint paths. Oracle: tour is a simple cycle through the root; prize feasible when claimed.",
"P44": "All graphs of 5 (6) vertices. Oracle: reachability by exhaustive simple-cycle search.",
"P45": "Random draws are symbolic choices (all outcomes explored). Oracle: simple tour over edges, contains the picked pair.",
"P46": "All graphs of 5 vertices with symbolic attributes. Oracle: 2-core fixpoint / reachability / vertex on a cycle with the root.",
"P47": "Symbolic counts; experiments on disk with all sets of results. Oracle: multiset of vials run.",
"P48": "Every truncation of a result file, every failing subset with several error types. Oracle: complete iff parsed fully; others' results untouched.",
"P49": "Symbolic vials; the compiled functions are recorders with several answers. Oracle: expected call sequence and result per algorithm name.",
"P50": "Recorders in place of the extension module; symbolic arguments. Oracle: the position and meaning of each argument of the bindings (what the bindings do with them is P36, P37).",
"P51": "Command line run in a scratch directory, script executed by bash per task. Oracle: each vial solved once, listings exact, time covers a batch.",
"P52": "Symbolic lists. Oracle: cartesian product, pairwise different identities.",
"P53": "Symbolic results in every order. Oracle: row by vial uuid.",
"P55": "Symbolic costs/prizes on 4-vertex graphs. Oracle: direct sums; cheapest cycles by brute force.",
"P54": "The commands run on small data sets on disk, symbolic numeric options (they survive the record files through marks). Oracle: own construction of the instance; recorded calls of the extension module; written experiment and result.",
"P57": "Two vials in one run, symbolic weights and prizes in the data set. Oracle: own construction of the instance.",
"P56": "Result and statistics files on disk, absent, complete or cut off at a symbolic position; symbolic numbers pass through the tables as marks. Oracle: row per vial, number by number.",
"P58": "The commands run on small data sets with symbolic lists. Oracle: own list of instances and compared settings; field-by-field comparison of the settings of one experiment.",
"P59": "Files on disk before and after the command. Oracle: state of the named vial only; direct comparison of prize and quota.",
}
