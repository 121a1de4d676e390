def fill(P):
    A="src/algorithms.cpp"; AH="include/pctsp/algorithms.hh"; S="src/subtour_elimination.cpp"; SH="include/pctsp/subtour_elimination.hh"; G="include/pctsp/graph.hh"; W="include/pctsp/walk.hh"; H="include/pctsp/heuristic.hh"; R="include/pctsp/renaming.hh"
    P("P01","The integer model describes exactly the quota-feasible tours","A 0/1 assignment of the edge and vertex variables is accepted by the model's constraints and constraint handlers exactly when its edges form one simple cycle through the root, its vertex variables mark the vertices of that cycle, and the prize collected reaches the quota. The objective is minimised and equals the total cost of the chosen edges. Every point at which the solver may ask (checking a solution, enforcing a relaxation or a pseudo solution) gives the same answer: points made of several cycles or open paths are rejected everywhere, single simple cycles are accepted.",
      ["inputs"],"every graph, cost, prize, quota, root and every 0/1 assignment (costs, prizes and quota as solver variables; graphs up to 5 vertices)","The solver is not even linked in the sandbox's tests; upstream tests solve two fixed instances.",[A,AH,S,SH,"include/pctsp/constraint.hh","src/separation.cpp","src/solution.cpp"],
      [("modelPrizeCollectingTSP builds variables, degree, prize and root constraints",AH),("PrizeConstraint",  "include/pctsp/constraint.hh"),("isSimpleCycle / isSolSimpleCycle","src/separation.cpp"),("scip_check, scip_enfops, scip_enfolp",S)],observe=["SCIP constraints, handler results"])
    P("P02","Disjoint subtours are cut off and no tour ever is","When a fractional or integral relaxation has a connected component that avoids the root, disjoint-tour separation adds a globally valid, violated cut for every vertex of that component. No cut it adds is violated by any simple cycle through the root. It reports that it separated exactly when it added a cut.",
      ["inputs"],"every point of the degree relaxation on a grid, every graph up to 6 vertices","A relaxation point is a vector of fractions; tests separate one fixed instance.",[S,SH,"src/sciputils.cpp","src/solution.cpp","include/pctsp/data_structures.hh"],
      [("PCTSPseparateDisjointTour",SH),("addSubtourEliminationConstraint",S),("getNonSingularConnectedComponentVectors","include/pctsp/data_structures.hh")],observe=["rows added to the LP"])
    P("P03","Minimum cut separation finds violated cut sets and keeps all tours","When a fully visited vertex of the root's component is separated from the root by a cut worth less than two edges, minimum-cut separation adds at least one violated cut, whatever other components the relaxation has and whatever the order of the edges. No cut it adds is violated by any simple cycle through the root. It reports that it separated exactly when it added a cut.",
      ["inputs"],"every point of the degree relaxation on a grid, graphs up to 6 vertices, including detached components","Needs particular fractional points and edge orders; the tests have one.",[S,SH,"src/separation.cpp","src/solution.cpp"],
      [("PCTSPseparateMaxflowMincut",S),("getCapacityVectorFromSol","src/separation.cpp"),("getReachableVertices / getUnreachableVertices",SH)],observe=["rows added to the LP"])
    P("P04","Cycle cover cuts are valid, complete and counted","A cycle cover cut is only added when the component of the root collects less prize than the quota, and it never cuts off a tour that reaches the quota. When the cover of that component is violated it is added, and the count of cycle cover cuts is the number added so far. A candidate solution is rejected by the cycle cover check exactly when the root's component misses the quota.",
      ["inputs","histories"],"every relaxation point on a grid, symbolic prizes and quota, repeated separation","Depends on relaxation values, prizes and quota together.",["src/cycle_cover.cpp","include/pctsp/cycle_cover.hh"],
      [("addCycleCoverInequality / shouldAddCycleCover",  "src/cycle_cover.cpp"),("CycleCoverConshdlr::scip_sepalp, scip_check","src/cycle_cover.cpp")],observe=["rows, result codes, getNumCycleCoverCutsAdded"])
    P("P05","Cost cover inequalities forbid exactly the vertices that are too far","Given a distance per vertex and an upper bound on the cost, cost cover separation adds one global inequality per vertex other than the root whose distance exceeds the bound, and together they forbid exactly visiting the root with such a vertex. Every new best solution triggers separation with the bound of that moment, nothing else does, and the counters report the number added (start inequalities included).",
      ["inputs","histories"],"symbolic distances and bounds, every root, two successive incumbents","Tests add them for one instance without checking which points are forbidden.",["src/cost_cover.cpp","include/pctsp/cost_cover.hh"],
      [("separateThenAddCostCoverInequalities","src/cost_cover.cpp"),("CostCoverEventHandler::scip_exec","src/cost_cover.cpp")],observe=["constraints added, counters"])
    P("P06","Shortest path cost cover keeps every affordable tour","The distance used for a vertex is twice the cost of a cheapest path between it and the root, and larger than any path when it cannot be reached. Whatever the upper bound, no tour through the root whose cost is within the bound is forbidden by the inequalities that follow from these distances.",
      ["inputs"],"every graph up to 4 vertices, symbolic costs, every root and bound","Shortest paths over all weights cannot be sampled.",["src/cost_cover.cpp","include/pctsp/cost_cover.hh"],
      [("includeShortestPathCostCover / shortest path distances","include/pctsp/cost_cover.hh")],observe=["path distances, constraints"])
    P("P07","A heuristic tour becomes the solver's start solution unchanged","When a start tour is given, the solver receives one start solution in which exactly the tour's edges and vertices are chosen, and which satisfies every constraint and handler of the model when the tour is feasible. A start tour over an edge the graph lacks is reported as an error instead.",
      ["inputs"],"every tour of every graph up to 5 vertices, every orientation and start","Tests use one start tour.",[AH,A,"src/graph.cpp","include/pctsp/graph.hh"],
      [("addHeuristicEdgesToSolver",AH),("addHeuristicVarsToSolver",A),("getSelfLoops / getVerticesOfEdges",G)],observe=["solutions passed to SCIP"])
    P("P08","Solve options reach the solver as asked","Every option of the solve call takes effect and no other: time limit, presolving off, separation frequency, default plugins only when not restricted to the simple rules, each family of cuts exactly when enabled, the start solution passed on. The branching strategy decides which rule has the highest priority (reliability; strong; strong only down to the given depth; pseudo cost; default untouched).",
      ["configurations"],"every combination of the boolean options, six strategies, symbolic depth, frequency and time limit","Some 20 000 combinations; tests try a handful.",[A,"src/branching.cpp",AH],
      [("solvePrizeCollectingTSP (full overload)",A),("setBranchingStrategy","src/branching.cpp"),("includeBranchRules","src/branching.cpp")],observe=["SCIP parameters, plugins, priorities"])
    P("P09","No enabled cut forbids a feasible tour that could improve","With any combination of cost cover, cycle cover and subtour options, and with or without a start tour, the constraints present when the search starts allow every quota-feasible tour through the root whose cost does not exceed the start tour's, and forbid every tour that misses the quota. This holds for every valid lower bound given as disjoint path distances.",
      ["inputs","configurations"],"complete graphs of 3 and 4 vertices, symbolic costs, prizes, quota, distances; all options","Losing an optimal tour shows only as a slightly worse answer.",[A,"src/cost_cover.cpp",AH],[("solvePrizeCollectingTSP",A),("separateThenAddCostCoverInequalities","src/cost_cover.cpp")],observe=["constraints when solving starts"])
    P("P10","The returned edges are the best solution, or nothing","After solving, the returned list holds exactly the edges whose variable is one in the best solution the solver found, up to its integrality tolerance and without the vertex variables. When the solver stopped without a solution, for whatever reason, the list is empty.",
      ["inputs","fault_sequences"],"every tour as best solution, every end state of the solver, three entry points","The tests always solve to optimality.",[A,"src/solution.cpp","src/graph.cpp"],[("solvePrizeCollectingTSP",A),("getSolutionEdges","src/solution.cpp")],observe=["returned edge list"])
    P("P11","Tailing off is judged per node over the last relaxations","A node counts as tailing off exactly when a window of at least two is configured, that many relaxation gaps of this node are known, and the gap improved by less than the threshold over the window. Enforcing an optimal relaxation with subtours branches exactly when its own node is tailing off and otherwise declares it infeasible, never accepting it; gaps of other nodes do not matter.",
      ["histories"],"every sequence of up to 6 gaps; every interleaving of 4 rounds over 3 nodes","A property of histories across nodes.",[S,SH],[("pushIntoRollingLpGapList, isNodeTailingOff",S),("PCTSPconshdlrSubtour::scip_enfolp",S)],observe=["result of enforcement"])
    P("P12","Cut counters and node records survive every search history","Whatever the order in which nodes are created, focused, branched, settled and revisited, the number of cuts reported in total and per node equals the number that was recorded, for each kind of cut. Every visited node has a record with its own number, its parent and its lower bound.",
      ["histories"],"every history of up to 6 events (7 in the thorough tier) over a growing tree, symbolic counts","Counters are only reset by particular event orders.",["src/event_handlers.cpp","include/pctsp/event_handlers.hh","src/stats.cpp"],[("NodeEventhdlr::scip_exec","src/event_handlers.cpp"),("numDisjointTourSECs / numMaxflowMincutSECs","src/stats.cpp")],observe=["node statistics"])
    P("P13","Summary statistics are the solver's and survive their file","The summary written after a solve carries the solver's status, bounds and number of nodes and the true number of every family of cuts, each under its own name. Writing a summary and reading it back gives the same value in every field, and a missing file is reported as an error.",
      ["inputs"],"symbolic values for every field; all combinations of cut families","The one test reads fields that are all zero.",[A,"src/stats.cpp","include/pctsp/stats.hh","include/pctsp/exception.hh"],[("getSummaryStatsFromSCIP",A),("writeSummaryStatsToYaml / readSummaryStatsFromYaml","src/stats.cpp")],observe=["YAML document"])
    P("P14","Logging levels keep their meaning","The six standard Python logging levels map to the severities of the same meaning, any other number maps to info, and after initialisation exactly the messages below the chosen severity are dropped.",
      ["inputs"],"every integer","The test tries the six levels only.",["src/logger.cpp","include/pctsp/logger.hh"],[("getBoostLevelFromPyLevel, PCTSPinitLogging","src/logger.cpp")],observe=["severity, filter level"])
    P("P15","Records of nodes and bounds are complete and exact in their files","During the search the bounds handler keeps one record for every relaxation solved, with the bounds and the node of that moment and times that follow each other, and no other record. The node statistics file and the bounds file hold one line of column names and one line per record in order, with every value under its column and equal to the record's, however large; times are ISO 8601 in UTC with milliseconds whatever the local time zone. Nothing is written if the directory does not exist.",
      ["inputs","histories"],"every value of every counter and bound, every millisecond, sequences of four events","No test of upstream reads these files back; errors show only for long numbers, small milliseconds or another time zone.",["src/stats.cpp","src/event_handlers.cpp","include/pctsp/stats.hh"],[("writeNodeStatsToCSV, writeBoundsToCSV","src/stats.cpp"),("BoundsEventHandler, timePointToString","src/event_handlers.cpp")],observe=["written files","records"])
    P("P20","Vertex renaming is a bijection onto a contiguous range","Renaming the vertices of an edge list gives each different vertex its own new name, the new names are 0..k-1, and translating vertices or edges to new names and back is the identity, in order and orientation.",
      ["inputs"],"edge lists of up to 3 edges and vertex lists of 4 with arbitrary names","Depends on which names coincide.",[R],[("renameVertex, renameEdges, renameVertices",R),("getNewVertices, getOldVertices, getNewEdges, getOldEdges",R)])
    P("P21","Costs and prizes survive the renaming","After renaming, every graph edge has the cost given for it (under either orientation of the key) and every vertex the prize given for it. A cost for an edge the graph lacks is reported.",
      ["inputs"],"four graph shapes with symbolic names, costs and prizes","Names and key order vary freely.",[R,G,"src/graph.cpp"],[("fillCostMapFromRenamedMap, fillRenamedVertexMap",R),("addEdgesToGraph",G)])
    P("P22","Edges, cost and prize of a walk add up","The edges of a walk join consecutive stops in order, its cost is the sum of their costs, its prize the sum over its stops (counting a repeated last stop of a tour once), and it is prize-feasible exactly when the prize reaches the quota. A step between vertices without an edge is reported, and only then.",
      ["inputs"],"every graph up to 4 vertices, every walk up to 4 stops, symbolic costs and prizes","All later results rest on these sums.",[W,G,"src/graph.cpp","include/pctsp/preprocessing.hh"],[("getEdgesInWalk, totalCost, totalPrize, totalPrizeOfTour, isPrizeFeasible",W)])
    P("P23","Tours can be rotated and sliced without loss","Reordering a closed tour from the root gives the same cyclic sequence starting and ending at the root and leaves the given tour alone. The sub-path between two positions of a cycle is the sequence of stops met going forward from the first to the second, through the closing point when needed.",
      ["inputs"],"tours of up to 6 vertices, every root and every pair of positions","Wrap-around positions are easily missed.",[W,H],[("ReorderTourFromRoot, getSubpathOfCycle",W)])
    P("P24","Bounded searches reach exactly what they should","Breadth first search marks exactly the vertices whose shortest unblocked path has at most the given number of edges and its parents form shortest paths. Depth first search only follows edges, respects the depth limit, and with a limit that cannot bind reaches everything reachable.",
      ["inputs"],"every graph up to 4 vertices, every source, depth and blocked vertex","Depth limits and blocked vertices interact.",[G,W],[("breadthFirstSearch, depthFirstSearch, pathInTreeFromParents","include/pctsp/heuristic.hh")])
    P("P25","Shortest path search avoids forbidden vertices and is optimal","The search reports the target exactly when some path reaches it without forbidden vertices, and then the recorded predecessors form such a path whose cost is the reported distance and is least among all such paths.",
      ["inputs"],"every graph on 4 vertices, complete graph on 5, symbolic costs, every forbidden set","Optimality over all weights cannot be sampled.",[H],[("dijkstraShortestPathBlacklist",H)])
    P("P26","Component and edge set helpers are exact","Every vertex is listed once under its own component and components of one vertex are dropped, the others kept whole and in order. The edges induced by a vertex set are exactly the edges with both ends in it, each once; edges and vertex pairs translate into each other without loss; a missing edge or self loop is reported.",
      ["inputs"],"up to 5 vertices and 4 components; every graph with self loops on 3 vertices, vertex sets in any of three orders","Depends on the order of components and edges.",["include/pctsp/data_structures.hh",G,"src/graph.cpp"],[("getConnectedComponentsVectors, getNonSingularConnectedComponentVectors","include/pctsp/data_structures.hh"),("getEdgesInducedByVertices, getSelfLoops, edgesFromVertexPairs",G)])
    TT="The result is a closed simple tour of the graph that starts and ends at the root"
    P("P30","Collapse returns a valid tour, no dearer, that keeps the quota",TT+"; the given tour is left as it was. It never costs more than the given tour, still reaches the quota when the given tour did, and is unchanged when the given tour did not. It is at least as cheap as every collapse of a part of the tour over one outside vertex that keeps the root and the quota.",
      ["inputs"],"tours of 4 and 5 vertices in graphs of up to 5, symbolic costs, prizes, quota; with and without shortest paths","Upstream tests collapse one small graph.",[H,W],[("collapse, chooseSmallestLoss..., swapPathsInTour",H)])
    P("P31","Unitary gain extension inserts vertices and keeps a tour",TT+" and contains the given tour's vertices in their order, so its prize never falls. With several vertices outside of which only some have a positive finite gain, the best one is above average and is inserted, and every insertion is the vertex and place of greatest unitary gain. Unitary gain is prize divided by extra cost, unitary loss extra cost divided by extra prize.",
      ["inputs"],"tours of 3 and 4 vertices in graphs of 4 and 5, symbolic costs and prizes","Floating point averages over all weights.",[H,"src/heuristic.cpp"],[("extensionUnitaryGain, extension, insertGreatestGainVertex",H),("unitaryGain, unitaryLoss","src/heuristic.cpp")])
    P("P32","Extension to the quota stops exactly when it should",TT+" and contains the given tour's vertices in their order. A tour that reaches the quota is not extended; extension stops as soon as the quota is reached, and stops short of it only when no outside vertex has a positive gain. Every insertion is the vertex and place of greatest unitary gain at its turn.",
      ["inputs"],"tours of 3 and 4 vertices in graphs of 4 and 5, symbolic costs, prizes and quota","Stopping conditions on the boundary.",[H],[("extensionUntilPrizeFeasible",H)])
    P("P33","Path extension gains prize and keeps a tour through the root",TT+" for every step size and path depth. A changed tour has strictly more prize than the given one; with step one and depth two the vertices of the given tour stay in order.",
      ["inputs","configurations"],"tours of 3 and 4 vertices, graphs of up to 6, step 1-2, depth 2-4, symbolic costs and prizes","Replacing a path that holds the root needs particular positions.",[H],[("pathExtension, unitaryGainOfPaths...",H)])
    P("P34","Path extension to the quota stops exactly when it should",TT+" and has no less prize. A tour that reaches the quota is not extended, extension by single vertices stops as soon as the quota is reached, and it stops short of the quota only when no external vertex could replace a part of the tour for more prize.",
      ["inputs","configurations"],"tours of 3 and 4 vertices, step 1-3, depth 2-3, symbolic costs, prizes, quota","Stopping conditions on the boundary.",[H],[("pathExtensionUntilPrizeFeasible",H)])
    P("P35","Path extension and collapse returns a feasible tour or none","The result is empty or a closed simple tour of the graph from the root that reaches the quota; the given tour is left as it was. A prize-feasible start tour always yields a tour, and one that costs no more than the start tour.",
      ["inputs","configurations"],"tours of 3 and 4 vertices in graphs of up to 5, symbolic costs, prizes, quota, both collapse variants","Several heuristics composed in a loop.",[H],[("pathExtensionCollapse",H)])
    B="pctsp/pypctsp.cpp"
    P("P36","The exported heuristics do the heuristic's work on the user's graph","Whatever names the user gives the vertices and in whatever order the edges come, each heuristic exported to Python returns a closed tour in those names over edges the user gave, with the guarantees of the heuristic (collapse never dearer and keeps the quota, extension never loses prize, extension and collapse reaches the quota or returns nothing). When the names keep the order of the edges, the result is the one the heuristic gives on the plain graph for the same step size, path depth, quota, root and collapse variant; costs may be given under either orientation of an edge.",
      ["inputs","configurations"],"graphs of 4 and 5 vertices, arbitrary names and name orders, symbolic costs, prizes, quota, three step and depth settings","The binding is not compiled by the tests that run, and renaming mistakes hide behind names that are already 0..n-1.",[B,R,H],[("collapseBind, pathExtensionBind, pathExtensionUntilPrizeFeasibleBind, extensionUntilPrizeFeasibleBind, pathExtensionCollapseBind, extensionUnitaryGainBind",B)])
    P("P37","The exported solvers solve the user's instance and answer in the user's names","The model that the exported solvers hand to SCIP has the user's costs, prizes, quota, root, start solution and disjoint path distances on the right edges and vertices whatever their names; every option has the effect its name says; and the edges returned are those of SCIP's best solution, in the user's names, or none when there is no solution.",
      ["inputs","configurations"],"3, 4 and 6 vertices, arbitrary names and orders, symbolic distances, quota, limits, thresholds and gaps, every best solution","Twenty-three positional arguments of alike types; no test that runs here compiles the binding.",[B,R,A],[("pySolvePrizeCollectingTSP, pyBasicSolvePrizeCollectingTSP",B)],observe=["constraints, variables and parameters given to SCIP, returned edges"])
    PS="pctsp/suurballe/suurballe.py"; PP="pctsp/preprocessing/preprocessing.py"; PH="pctsp/algorithms/heuristic.py"; PA="pctsp/algorithms/algorithms.py"; PE="pctsp/algorithms/extension_collapse.py"; PX="pctsp/algorithms/path_extension_collapse.py"; PD="pctsp/algorithms/data_structures.py"
    P("P40","Vertex disjoint paths are disjoint, cheapest and complete","The maps of vertex-disjoint paths name exactly the vertices that lie on a simple cycle with the root. For each of them the two paths run from the root to the vertex, are simple, use edges of the graph and share only their ends; the stated cost is the cost of their edges, and no cycle through the root and the vertex is cheaper.",
      ["inputs"],"graphs of 4 and 5 vertices with symbolic positive costs, every root","The suite checks fixed graphs; optimality over all weights and the residual search cannot be sampled.",[PS,PP],[("suurballe_shortest_vertex_disjoint_paths, suurballe_shortest_arc_disjoint_paths",PS),("vertex_disjoint_cost_map, undirected_vertex_disjoint_paths_map",PP)],observe=["cost map, path map"])
    P("P41","Initial tours from disjoint paths are the cheapest feasible ones","Joining two vertex-disjoint paths follows the first and then the second backwards, leaves them as they were, and refuses paths that are too short or have different ends. The initial tour made from the maps of disjoint paths is the cheapest of the pairs' tours that reach the quota; when none does, it is the one that collects the most prize. It is a closed simple tour from the root, or empty when no pair makes one.",
      ["inputs"],"every assignment of disjoint path pairs on up to 4 vertices, every graph of 4 and 5 vertices through the whole route; symbolic prizes and quota","Depends on which paths overlap and on prizes together.",[PH,PP],[("suurballes_heuristic, suurballes_tour_initialization, tour_from_vertex_disjoint_paths",PH)],observe=["returned tour"])
    P("P44","Cycle search finds a simple cycle through the root if there is one","The breadth-first cycle search returns a closed simple tour (at least three different vertices) that starts and ends at the root and uses edges of the graph. It returns nothing exactly when no simple cycle runs through the root.",
      ["inputs"],"every graph up to 5 vertices (6 in the thorough tier), every root; rings of 8 and 9 vertices with any of some chords","Needs all graphs; the search meets many shapes of cross edge.",[PH],[("find_cycle_from_bfs",PH)],observe=["returned tour"])
    P("P45","Random tours are tours of the graph whatever the dice say","For every outcome of the random choices, a random tour is a closed simple tour from the root over edges of the graph, and a tour made from the disjoint paths of a randomly picked vertex goes through that pair of paths; when no usable pair exists, this is reported and not answered with a broken tour. The search terminates.",
      ["inputs","schedules"],"every graph up to 5 vertices, every outcome of each random draw","A test sees one seed.",[PH],[("random_tour_complete_graph, random_tour_from_disjoint_paths_map",PH)],observe=["returned tour"])
    P("P46","Preprocessing removes only what no tour can use","Removing leaves keeps exactly the largest part of the graph in which every vertex has two neighbours; removing disconnected components keeps exactly what is connected to the root; removing one-connected components keeps exactly the root and the vertices on a simple cycle with it. Edges between kept vertices, costs, prizes and self-loops stay as they were.",
      ["inputs"],"every graph up to 5 vertices, every root, symbolic costs and prizes","A handful of fixed graphs cannot show that no tour is lost.",[PP],[("remove_leaves, remove_components_disconnected_from_vertex, remove_one_connected_components",PP)],observe=["kept vertices, edges, attributes"])
    P("P50","Python wrappers pass every argument to the right place","Each public heuristic and the exact solver call the algorithm their name says once, with all edges, costs, prizes, the tour, root, quota, step size, depth, collapse variant and logging level given (or the documented default), and hand its answer back. A start tour is passed to the exact solver exactly when it is a simple tour through the root that reaches the quota; distances and every option arrive under their own meaning.",
      ["inputs","configurations"],"symbolic values for every argument, defaults on and off, eight wrappers and the solver","Up to 23 positional arguments of alike types; the extension module is not built by the tests.",[PA,PE,PX,PD],[("solve_pctsp",PA),("collapse, path_collapse, extension_unitary_gain, extension_unitary_loss, extension_until_prize_feasible",PE),("path_extension, path_extension_until_prize_feasible, path_extension_collapse",PX)],observe=["arguments of the bound functions"])
    RA="pctsp/lab/run_algorithm.py"; LB="pctsp/lab/lab.py"; MA="pctsp/apps/main_app.py"; CP="pctsp/compare/product_of_params.py"; CS="pctsp/apps/csv_app.py"; DA="pctsp/apps/dataset_app.py"; V="pctsp/vial/"
    P("P47","Batches run every vial of an experiment once","The number of batches is the least whose batches hold all vials. A batch runs exactly the vials of its window, in order, whatever the window. All batches of one size together run every vial exactly once; when restricted to missing results they run every vial without a complete result once and no other, even when batches add results while others are still to run.",
      ["inputs","histories"],"any number of vials and batch size for the count; experiments of up to 5 vials, any window, batch size, order and set of results already there","Boundaries of windows against what is already on disk; the suite has no test of batches.",[LB],[("get_nbatches, Lab.run_batch, Lab.run_experiment",LB)],observe=["vials handed to the solver, result files"])
    P("P48","Results on disk survive failing vials and crashes","A result counts as there exactly when it was written completely: a file that a crash cut off anywhere counts as missing, is never read as a result and stops neither the listing of the missing nor that of the infeasible vials. A vial whose run fails, with whatever error, leaves the others with their own results. An experiment reads back as it was written, and writing down what is missing does not replace it.",
      ["crash_points","fault_sequences"],"every cut of a result file, every subset of failing vials, two kinds of failure, up to 3 vials","Crash points and failures are not in any test.",[LB,V+"result.py",V+"experiment.py"],[("vials_missing_results, read_results_from_file, infeasible_vials",LB),("run_vials, run_vial, write_experiment_to_file",LB)],observe=["result files, listings"])
    P("P49","Running a vial does what its parameters say","A heuristic vial runs the heuristic its name stands for, stage by stage with the vial's step size, depth, collapse variant, quota and root, and the result is the last stage's tour. An exact vial hands the solver the graph, every option of the vial, the distances of cheapest disjoint paths where needed, and the heuristic's tour exactly when it is feasible. The result has the edges answered, their cost, the prize of the vertices visited and the vial's identity; a name that is not implemented is refused.",
      ["inputs","configurations"],"all algorithm names, symbolic costs, prizes, quota and options, several answers per stage","Depends on combinations of options and of answers of the compiled code, which the sandbox's tests do not have.",[RA,V+"model_params.py"],[("run_heuristic, run_algorithm",RA)],observe=["arguments of the compiled functions, returned result"])
    P("P51","A cluster experiment is complete after its job scripts have run","The job script, executed for every task of its array, runs batches that together hold every vial once (or every missing vial once when asked for the missing), with the options given, and asks for at least the time one batch may take, up to two days. After a first round in which any vials failed or were cut off, the listing names exactly those, and a round of the missing completes the experiment without solving anything twice.",
      ["histories","fault_sequences","configurations"],"experiments of up to 5 vials, symbolic time limits, all batch sizes, any failures in round one; commands run through the command line and bash","A history of commands with failures; no test runs the command line.",[MA,LB],[("slurm, setup, batch, missing, nmissing, nbatches",MA)],observe=["job script's commands, result files, printed lists"])
    P("P52","Products of parameters hold every combination once","The product of data sets, model settings and preprocessing has one vial per combination, each with an identity of its own and exactly these settings; the products of each kind have every combination of the lists given, once, with the options that belong to the algorithm.",
      ["inputs","configurations"],"up to 2 quotas and 2 graphs, any of three algorithms, all lists of the three preprocessing flags, symbolic options","A lost or doubled combination shows only as a missing row in a table.",[CP,V+"vial.py"],[("product_of_londonaq_data_config, product_of_model_params, product_of_preprocessing, product_of_vials",CP)],observe=["vials"])
    P("P53","The summary of an experiment gives each vial its own result","The summary has one row per result, with the prize, quota, algorithm and duration of the vial it belongs to, whatever the order of the results and whichever are missing. A row is feasible exactly when the prize reaches the quota; then it has the cost and the prize beyond the quota, otherwise neither.",
      ["inputs"],"two vials, any non-empty set of results in either order, symbolic prizes, quotas and costs","The boundary prize = quota and missing results.",[CS,V+"vial.py",V+"result.py"],[("experiment_summary_df",CS)],observe=["rows of the data frame"])
    P("P55","Statistics of a graph are those of the graph","The number of vertices and edges, total cost and total prize are those of the graph, and those after preprocessing are those of what a tour through the root can visit. The maximum cost of disjoint paths is the largest, over the vertices, of the cost of a cheapest cycle through vertex and root, and the biggest disjoint prize is collected by a cheapest cycle. The table of a data set has one row per graph with the statistics of that graph.",
      ["inputs"],"every graph on 4 vertices with a detour through every edge, with or without a leaf or a cycle behind a cut vertex; symbolic costs and prizes; both data sets through the command","No test; depends on costs through the disjoint paths.",[DA,"pctsp/preprocessing/preprocessing.py"],[("get_graph_stats",DA)],observe=["dictionary of statistics"])
    P("P54","A single run does what its options say","A single run from the command line solves the instance that its options name (data set, generation, quota from alpha, sparsification, cost function, leaves removed or not) with the algorithm, starting heuristic, cost covers, step size, path depth, strong branching depth, tailing off window, gap threshold and time limit given, and leaves an experiment with this one vial, recording these options, and its result: the answer's edges, cost and prize.",
      ["inputs","configurations"],"all algorithm and heuristic names, five cost settings, symbolic numeric options","Some twenty options are handed through four layers; no test runs the command line.",[MA,CP,LB,RA],[("tsplib, londonaq",MA),("product_of_model_params, product_of_tspwplib_data_config",CP)],observe=["arguments of the compiled functions, written experiment and result"])
    P("P57","A vial is run on its own data set","The graph handed to an algorithm is the one the vial names: the edges, costs and prizes of its instance in its generation, sparsified when it says so, with the cost function it says, and visiting a vertex (a self loop) costs nothing. This holds whatever vial was run before. The cost and prize of the result are those of its tour in this graph, and quota and root are the vial's.",
      ["inputs","configurations"],"two vials of either data set, four cost functions, three sparsifications, symbolic prizes, quota and weight","The compiled algorithms take whatever graph they get, and a wrong one gives plausible results.",[LB],[("Lab.run_experiment_from_vial_list",LB)],observe=["graph handed to the algorithm, result"])
    P("P56","The table of a branch and cut experiment has every vial's own numbers","The table written for a branch and cut experiment has one row for every vial that has both a complete result and complete statistics of the solver, with its own prize, quota, cost, duration and each statistic under its own name. Vials without, and files that a crash cut off, neither appear nor stop the others; an experiment without results does not keep another one from its table.",
      ["inputs","crash_points"],"two vials, symbolic prizes, quotas and costs, every place where the statistics can be cut off; all states of six experiments","Crash points and missing files are not in any test.",[CS,PD],[("summary_stats_df, write_branch_cut_experiment_to_csv, write_all_experiments_to_csv",CS),("SummaryStats.from_yaml",PD)],observe=["rows of the written tables"])
    P("P58","Experiments compare their settings on the same instances","Setting up an experiment writes one vial for every pair of an instance (in the lists of the data set, with the quota that belongs to it) and a compared setting, and no other; all settings meet the same instances with the same preprocessing and differ only in what the experiment compares: the cost covers, the tailing off and branching rule, or the heuristic. An experiment that the data set does not have is refused and nothing is written. Running an experiment in one go runs every vial once and writes every result that could be computed.",
      ["inputs","configurations","fault_sequences"],"ten experiment names, both data sets, shortened lists with symbolic quotas","A setting that differs in a second option ruins the comparison without any error.",["pctsp/compare/exact_experiment.py","pctsp/compare/heuristic_experiment.py","pctsp/compare/relaxation_experiment.py","pctsp/compare/dryrun_experiment.py",MA],[("setup, lab, select_root_and_lookup",MA),("cost_cover, tailing_off, baseline, simple_branch_cut","pctsp/compare/exact_experiment.py"),("compare_heuristics, londonaq_alpha","pctsp/compare/heuristic_experiment.py")],observe=["written experiments, results"])
    P("P59","Commands rerun and list exactly the vials they name","Running one vial again runs that vial and no other, replaces its result and touches nothing else; an unknown vial is reported and nothing is run, and a run that fails is reported. The list of infeasible vials has exactly those whose complete result stays below the quota, the number of missing results is that of the vials without a complete one, and the number of batches is refused for batches of no vials.",
      ["inputs","histories","fault_sequences"],"up to 3 vials with symbolic quotas and prizes, every state of the result files","Depends on what is on disk; no test runs the commands.",[MA,LB],[("vial, infeasible, nmissing, nbatches",MA),("Lab.infeasible_vials, Lab.missing_vials",LB)],observe=["printed lists, files"])
    P("P90","Figures and tables show the numbers of the experiments","The tables and figures produced from finished experiments have for every group the mean, maximum and counts of the results of that group, rounded as printed, and leave no result out.",
      ["inputs"],"every set of results","Depends on all results of an experiment.",["pctsp/apps/tables_app.py","pctsp/apps/plot_app.py","pctsp/plot/plot_tour.py"],[("heuristics_table, cost_cover_table, tailing_off_table","pctsp/apps/tables_app.py"),("plot_heuristics_figure","pctsp/apps/plot_app.py")],
      na="Nearly all of the work (grouping, aggregation, formatting, layout) happens inside compiled pandas, numpy and plotly code, which neither executor can run symbolically; concretising every value would leave a concrete test.")
    P("P91","The search ends with an optimal tour","With unlimited time, the solver ends with a tour of least cost among the quota-feasible tours through the root, for every combination of cuts, branching and heuristics.",
      ["inputs","configurations"],"every graph, cost, prize, quota and option","Optimality over all inputs.",[A,AH],[("solvePrizeCollectingTSP",A)],
      na="Optimality is the work of SCIP's branch-and-bound and of its LP solver (SoPlex), which are not present as source or bitcode and would be far out of reach if they were. What PCTSP contributes (model, cuts, start solution, options, answer) is decided by P01-P11 and P37 against a model of SCIP's interface.")
