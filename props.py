"""Which harness runs decide which property, and the bounds of each."""
import os
def c(prog,h,bounds,**k): return dict(prog=prog,h=h,bounds=bounds,**k)
def p(h,bounds,**k): return dict(h=h,bounds=bounds,**k)
E=["end"]
PROPS={
# ---- the integer programme
"P01":dict(title="integer model is exact",runs=[
 c("c_model","h_exact3","every graph on 3 vertices (optional edges, with or without self loops), any root, costs, prizes and quota over +-10^8",labels=["tour","no-tour"]),
 c("c_model","h_exact4","complete graph on 4 vertices, any root, every edge subset as solution, vertex variables symbolic, costs/prizes +-10^8",labels=["tour","no-tour"]),
 c("c_model","h_exact4o","every graph on 4 vertices (optional edges)",labels=["tour","no-tour"]),
 c("c_model","h_exact4v","4 vertices given as an edge list with cost and prize dictionaries, any root",labels=["tour","no-tour"]),
 c("c_model","h_exact5","complete graph on 5 vertices, all 1024 edge subsets",labels=["tour","no-tour"]),
 c("c_model","h_exact6","prism on 6 vertices, all 512 edge subsets (pairs of disjoint cycles included)",labels=["tour","no-tour"]),
 c("c_model","h_exact6r","two triangles joined by two edges, the root's triangle last",labels=["tour","no-tour"]),
 c("c_model","h_exact6t","complete graph on 6 vertices, all 32768 edge subsets",labels=["tour","no-tour"],time=300)]),
"P02":dict(title="disjoint subtours are cut off, feasible tours never",runs=[
 c("c_sec","h_secd4","every graph on 4 vertices, LP points of the degree relaxation in quarters",labels=["none"]),
 c("c_sec","h_secd5","complete graph on 5 vertices, LP points in halves",labels=["none"]),
 c("c_sec","h_secd54","complete graph on 5 vertices, LP points in eighths",labels=["none"]),
 c("c_sec","h_secd6","complete graph on 6 vertices, LP points in halves",labels=["detached"],time=200),
 c("c_sec","h_secb6","prism graph on 6 vertices, halves, both separators on",labels=["detached"])]),
"P03":dict(title="minimum cut separation finds violated cut sets, keeps tours",runs=[
 c("c_sec","h_secf4","complete graph on 4 vertices, LP points in quarters",labels=["none"]),
 c("c_sec","h_secf5","complete graph on 5 vertices, halves",labels=["none"],time=200),
 c("c_sec","h_secf6","6 vertices, the root's component next to a detached edge that comes first, halves"),
 c("c_sec","h_secf6r","the same with another edge order"),
 c("c_sec","h_secf64","the same in quarters",time=200),
 c("c_sec","h_secb6","prism graph on 6 vertices, halves, both separators"),
 c("c_sec","h_secb64","prism graph plus an edge, quarters, both separators",thorough=True,time=2000),
 c("c_sec","h_secf54","complete graph on 5 vertices, quarters",thorough=True,time=7000)]),
"P04":dict(title="cycle cover cuts are valid, complete and counted",runs=[
 c("c_sec","h_cycle4","complete graph on 4 vertices, quarters, prizes 0..10^6, any quota",labels=["cover","no-cover"]),
 c("c_sec","h_cycle5","complete graph on 5 vertices, halves",labels=["cover","no-cover"]),
 c("c_sec","h_cycle6","two triangles joined by two edges",labels=["cover","no-cover"])]),
"P05":dict(title="cost cover inequalities forbid exactly the far vertices",runs=[
 c("c_sec","h_cost4","4 vertices, any root, distances and bound 0..10^9",labels=["some","none"]),
 c("c_sec","h_cost5","5 vertices, any root",labels=["some","none"]),
 c("c_sec","h_costev3","two successive incumbents, 3 vertices",labels=["event"]),
 c("c_sec","h_costev4","two successive incumbents, 4 vertices",labels=["event"])]),
"P06":dict(title="shortest path cost cover keeps every affordable tour",runs=[
 c("c_sec","h_sp3","every graph on 3 vertices, costs 0..10^6, any root",labels=E),
 c("c_sec","h_sp4","complete graph on 4 vertices, any root",labels=E),
 c("c_sec","h_sp4o","every graph on 4 vertices, any root",labels=E)]),
"P07":dict(title="heuristic tour becomes the solver's start solution",runs=[
 c("c_model","h_start4","every graph and every tour on up to 4 vertices",labels=["added"]),
 c("c_model","h_start4v","the same through the edge list interface, missing edges included",labels=["added"]),
 c("c_model","h_start5","complete graph on 5 vertices, every tour",labels=["added"])]),
"P08":dict(title="solve options reach the solver as asked",runs=[
 c("c_model","h_opt3","3 vertices, every combination of cut options, separators, frequency, 6 branching strategies, symbolic depth, time limit, distances, costs",labels=E,time=300),
 c("c_model","h_optsec","6 vertices, every setting of both separators, window -1..4, threshold in 64ths, 4 enforcement rounds of any gaps",labels=E)]),
"P09":dict(title="no enabled cut forbids a feasible improving tour",runs=[
 c("c_model","h_optx3","3 vertices, all cut options, with and without start solution, symbolic distances, costs, prizes, quota",labels=E),
 c("c_model","h_optx4","complete graph on 4 vertices, the same",labels=E)]),
"P10":dict(title="returned edges are the best solution, or none",runs=[
 c("c_model","h_ret0","graph interface, 4 vertices, 4 end states, every tour as best solution, solver noise 1e-10",labels=["solution","none"]),
 c("c_model","h_ret1","edge list interface",labels=["solution","none"]),
 c("c_model","h_ret2","full interface",labels=["solution","none"])]),
"P11":dict(title="tailing off is judged per node over the window",runs=[
 c("c_sec","h_tail4","4 gaps in 64ths, window -2..4, any threshold",labels=E),
 c("c_sec","h_tail6","6 gaps",labels=E),
 c("c_sec","h_enftail3","3 enforcement rounds over 3 nodes, symbolic gaps",labels=E),
 c("c_sec","h_enftail4","4 enforcement rounds over 3 nodes",labels=E)]),
"P12":dict(title="cut counters survive every node history",runs=[
 c("c_model","h_nodes4","histories of 4 events (focus, branch, settle, cuts added) over a growing tree",labels=E),
 c("c_model","h_nodes6","histories of 6 events",labels=E),
 c("c_model","h_nodes7","histories of 7 events",labels=E,thorough=True,time=600)]),
"P13":dict(title="summary statistics are the solver's and survive the file",runs=[
 c("c_model","h_summary","all combinations of cut options, symbolic counts, bounds, node numbers",labels=E),
 c("c_model","h_yaml","symbolic values for every field",labels=E)]),
"P14":dict(title="logging levels keep their meaning",runs=[c("c_model","h_log","every int as level",labels=E)]),
"P15":dict(title="records of nodes and bounds are complete in their files",runs=[
 c("c_model","h_nodescsv","up to 2 nodes, every value of each counter, bounds to 10^9 in eighths",labels=E),
 c("c_model","h_boundscsv","up to 2 records, 3 moments, every millisecond of one, 2 time zones, bounds to 10^9 in eighths",labels=E),
 c("c_model","h_bounds","every sequence of up to 4 events, any bounds",labels=["none","records"])]),
# ---- graph and walk utilities
"P20":dict(title="vertex renaming is a bijection",runs=[
 c("c_walk","h_rename2","two edges, names 0..10^6",labels=E),c("c_walk","h_rename3","three edges",labels=E),c("c_walk","h_rename_vertices","four vertices",labels=E)]),
"P21":dict(title="costs and prizes survive the renaming",runs=[c("c_walk","h_mapfill","4 shapes of graph, symbolic names, costs, prizes, either key orientation",labels=E)]),
"P22":dict(title="walk cost, prize and edges add up",runs=[
 c("c_walk","h_walk3","every graph on 3 vertices, walks of up to 4 stops, costs/prizes +-10^6",labels=["walk-ok","walk-missing-edge"]),
 c("c_walk","h_walk4","every graph on 4 vertices, walks of 4 stops",labels=["walk-ok","walk-missing-edge"])]),
"P23":dict(title="tours can be rotated and sliced without loss",runs=[
 c("c_walk","h_reorder","tours of 2..6 vertices with symbolic names, any root",labels=E),
 c("c_walk","h_subpath","cycles of 3..6 vertices, any start and end position",labels=E)]),
"P24":dict(title="bounded searches reach exactly what they should",runs=[
 c("c_walk","h_search3","every graph on 3 vertices, any depth, source and blocked vertex",labels=E),
 c("c_walk","h_search4","every graph on 4 vertices",labels=E),
 c("c_walk","h_search7","a path on 7 vertices with up to 3 chords: deep search trees",labels=E),
 c("c_walk","h_search5","every graph on 5 vertices",labels=E,thorough=True,time=3600)]),
"P25":dict(title="shortest path search avoids forbidden vertices and is optimal",runs=[
 c("c_walk","h_dij4","every graph on 4 vertices, costs 0..10^6, any forbidden set",labels=["found","not-found"]),
 c("c_walk","h_dij5","complete graph on 5 vertices",labels=["found"])]),
"P26":dict(title="component and edge set helpers are exact",runs=[
 c("c_walk","h_components","up to 5 vertices and 4 components",labels=["some","none"]),
 c("c_walk","h_edgesets3","every graph with self loops on 3 vertices, every vertex set in three orders",labels=E)]),
# ---- heuristics
"P30":dict(title="collapse returns a valid, no dearer tour that keeps the quota",runs=[
 c("c_heur","h_collapse44","4 vertices, tour of 4, optional chords, costs 1..12, prizes 0..6",labels=["unchanged","collapsed"]),
 c("c_heur","h_collapse54","5 vertices, tour of 4",labels=["unchanged","collapsed"]),
 c("c_heur","h_collapse55","complete graph on 5 vertices, tour of 5",labels=["unchanged","collapsed"]),
 c("c_heur","h_collapse_sp44","shortest path variant, 4 vertices",labels=["unchanged","collapsed"],time=200),
 c("c_heur","h_collapse44l","the same with a self loop at every vertex",labels=["unchanged","collapsed"]),
 c("c_heur","h_collapse54l","complete graph on 5 vertices, tour of 4, self loops",labels=["unchanged","collapsed"]),
 c("c_heur","h_collapse_sp44l","shortest path variant, 4 vertices, self loops",labels=["unchanged","collapsed"]),
 c("c_heur","h_collapse_sp54","shortest path variant, 5 vertices, tour of 4",labels=["unchanged","collapsed"]),
 c("c_heur","h_collapse_sp54t","the same with optional edges and larger costs",thorough=True,time=3600),
 c("c_heur","h_collapse_sp55t","tour of 5",thorough=True,time=3600)]),
"P31":dict(title="unitary gain extension inserts vertices and keeps a tour",runs=[
 c("c_heur","h_gain43","4 vertices, tour of 3, optional edges, costs 1..8, prizes 0..8",labels=["unchanged","extended"],time=200),
 c("c_heur","h_gain43l","the same with a self loop at every vertex, costs 1..4, prizes 0..4",labels=["unchanged","extended"]),
 c("c_heur","h_gain53","complete graph on 5 vertices, tour of 3",labels=["unchanged","extended"],time=200),
 c("c_heur","h_gain54","complete graph on 5 vertices, tour of 4",labels=["unchanged","extended"],time=300),
 c("c_heur","h_formulas","gain and loss formulas",labels=E),
 c("c_heur","h_gain53t","5 vertices, optional edges",thorough=True,time=3600)]),
"P32":dict(title="extension to the quota stops exactly when it should",runs=[
 c("c_heur","h_until43","4 vertices, tour of 3, optional edges, costs 1..5, prizes 0..5, any quota",labels=["unchanged","extended","short"],time=200),
 c("c_heur","h_until43l","the same with a self loop at every vertex",labels=["unchanged","extended","short"]),
 c("c_heur","h_until53","complete graph on 5 vertices, tour of 3",labels=["unchanged","extended","short"]),
 c("c_heur","h_until54","complete graph on 5 vertices, tour of 4",labels=["unchanged","extended","short"]),
 c("c_heur","h_until63","complete graph on 6 vertices, tour of 3, prizes 1..2",labels=["unchanged","extended","short"]),
 c("c_heur","h_until53t","5 vertices, optional edges",thorough=True,time=3600),
 c("c_heur","h_until54t","5 vertices, tour of 4, optional edges",thorough=True,time=3600)]),
"P33":dict(title="path extension gains prize and keeps a tour through the root",runs=[
 c("c_heur","h_path43","4 vertices, tour of 3, optional edges, costs 1..8",labels=["unchanged","extended"]),
 c("c_heur","h_path43l","the same with a self loop at every vertex",labels=["unchanged","extended"]),
 c("c_heur","h_path54s2l","5 vertices, step 2, depth 3, self loops",labels=["extended"]),
 c("c_heur","h_path53","5 vertices, tour of 3, optional edges",labels=["unchanged","extended"]),
 c("c_heur","h_path54","5 vertices, tour of 4, optional edges",labels=["unchanged","extended"]),
 c("c_heur","h_path54s2","step size 2",labels=["unchanged","extended"],time=200),
 c("c_heur","h_path53d3","path depth 3",labels=["unchanged","extended"],time=200),
 c("c_heur","h_path64d3s2","6 vertices, step 2, depth 3",labels=["extended"]),
 c("c_heur","h_path54d4s2","step 2, depth 4",labels=["unchanged","extended"],time=200)]),
"P34":dict(title="path extension to the quota stops exactly when it should",runs=[
 c("c_heur","h_puntil43","4 vertices, tour of 3, optional edges, any quota",labels=["unchanged","extended"]),
 c("c_heur","h_puntil43l","the same with a self loop at every vertex, depth 3",labels=["unchanged","extended"]),
 c("c_heur","h_puntil53","5 vertices, tour of 3, optional edges",labels=["unchanged","extended"],time=300),
 c("c_heur","h_puntil54s2","step size 2",labels=["unchanged","extended"]),
 c("c_heur","h_puntil53d3","path depth 3",labels=["unchanged","extended"]),
 c("c_heur","h_puntil54d3s3","step 3, depth 3",labels=["unchanged","extended"])]),
"P35":dict(title="path extension and collapse returns a feasible tour or none",runs=[
 c("c_heur","h_pec43","4 vertices, tour of 3, optional edges, costs 1..4",labels=["none","tour"],time=200),
 c("c_heur","h_pec43l","4 vertices, tour of 3, depth 3, a self loop at every vertex",labels=["tour"]),
 c("c_heur","h_pec44l","4 vertices, tour of 4, step 2, depth 3, shortest path collapse, self loops",labels=["tour"]),
 c("c_heur","h_pec44","4 vertices, tour of 4, shortest path collapse",labels=["none","tour"],time=300),
 c("c_heur","h_pec53","complete graph on 5 vertices, tour of 3",labels=["none","tour"],time=300),
 c("c_heur","h_pec54s2","step 2, depth 3, tour of 4",labels=["tour"]),
 c("c_heur","h_pec44t","as h_pec44 with optional edges",thorough=True,time=3600),
 c("c_heur","h_pec53t","as h_pec53 with costs 1..3",thorough=True,time=3600),
 c("c_heur","h_pec54s2t","as h_pec54s2 with costs 1..2",thorough=True,time=3600)]),
# ---- Python bindings
"P36":dict(title="exported heuristics do the heuristic's work on the user's graph",runs=[
 c("c_bind","h_bcollapse","4 vertices, optional edges, symbolic names, weights, quota, either key orientation: equal to the direct call",labels=["unchanged","changed"]),
 c("c_bind","h_bpath","5 vertices, 3 step/depth settings, two roots",labels=["changed"]),
 c("c_bind","h_bpuntil","5 vertices, 3 step/depth settings",labels=["unchanged","changed"]),
 c("c_bind","h_buntil","4 vertices",labels=["unchanged","changed"]),
 c("c_bind","h_bgain","4 vertices",labels=["unchanged","changed"]),
 c("c_bind","h_bpec4","5 vertices, 3 step/depth settings, both collapse variants",labels=["changed"],time=300),
 c("c_bind","h_ncollapse","4 vertices, any order of names and edges: a valid tour of the user's graph",labels=["tour"]),
 c("c_bind","h_npath","the same for path extension",labels=["tour"]),
 c("c_bind","h_npuntil","the same for path extension to the quota",labels=["tour"]),
 c("c_bind","h_nuntil","the same for extension to the quota",labels=["tour"]),
 c("c_bind","h_ngain","the same for unitary gain",labels=["tour"]),
 c("c_bind","h_bformulas","gain and loss formulas",labels=E),
 c("c_bind","h_bempty","empty start tour, 4 vertices, step 1-3, root any of 4",labels=E),
 c("c_bind","h_npec","the same for extension and collapse",labels=["tour","none"],thorough=True,time=1200),
 c("c_bind","h_bpec","extension and collapse, 4 vertices, costs 1..2",labels=["changed"],thorough=True,time=1200)]),
"P37":dict(title="exported solvers solve the user's instance and answer in the user's names",runs=[
 c("c_bind","h_bsolve3","3 vertices, any names in any order, all cut options, symbolic distances, quota, depth, limits",labels=["solution","none"]),
 c("c_bind","h_bsolve4","4 vertices, 4 orders of names",labels=["solution","none"],time=300),
 c("c_bind","h_bsolve4b","basic solver, 4 vertices",labels=["solution","none"]),
 c("c_bind","h_bsec","6 vertices, every setting of both separators, window and threshold",labels=E)]),
# ---- Python: preprocessing, initial tours, wrappers
"P40":dict(title="vertex disjoint paths are disjoint and cheapest",runs=[
 p("p_k4e","4 vertices, 5 edges, any root, costs 1..10^12",labels=["pair"]),
 p("p_k4el","the same with a self loop at every vertex",labels=["pair"]),
 p("p_k4","complete graph on 4 vertices, costs 1..10^12",labels=["pair"]),
 p("p_c5r","5 vertices, 6 edges, costs 1..10^12",labels=["pair"]),
 p("p_sb6s","3 graphs on 6 vertices with unlike fixed costs, 10 choices of two edges that take every cost 1..10^12",labels=["pair"]),
 p("p_sb6sl","2 graphs on 6 vertices with self loops, any one edge of every cost",labels=["pair"]),
 p("p_c5c","the same as p_c5r from every root",labels=["pair"],thorough=True,time=2400),
 p("p_sb6t","24 graphs on 6 vertices, 15 choices of two edges of any cost",labels=["pair"],thorough=True,time=3600),
 p("p_sb7t","20 graphs on 7 vertices, 20 choices of two edges of any cost",labels=["pair"],thorough=True,time=7200),
 p("p_sb4","every graph on 4 vertices (optional edges), any root",labels=["pair"],thorough=True,time=7200),
 p("p_sb5w","5 vertices, 7 edges, any root",labels=["pair"],thorough=True,time=7200)]),
"P41":dict(title="initial tours from disjoint paths are tours of the right kind",runs=[
 p("p_join","every pair of paths over up to 5 vertices",labels=["refused","joined"]),
 p("p_sbl3","disjoint path maps of 3 vertices, symbolic prizes and quota",labels=["tour","none"]),
 p("p_sbl4","the same with 4 vertices",labels=["tour","none"]),
 p("p_init3","every assignment of disjoint path pairs, 3 vertices, symbolic prizes and quota",labels=["none","feasible","short"]),
 p("p_init4","4 vertices",labels=["none","feasible","short"]),
 p("p_start4","the whole route from graph to start tour, 4 vertices",labels=["feasible","none"]),
 p("p_start5","5 vertices",labels=["feasible","none","short"])]),
"P44":dict(title="cycle search finds a simple cycle through the root, if there is one",runs=[
 p("p_cycle4","every graph on 4 vertices, any root",labels=["cycle","none"]),
 p("p_cycle4l","every graph on 4 vertices with any self loops",labels=["cycle","none"]),
 p("p_cycle5","every graph on 5 vertices, any root",labels=["cycle","none"]),
 p("p_ring8","any part of a ring of 8 vertices with a chord",labels=["cycle","none","long"]),
 p("p_ring9","any part of a ring of 9 vertices with two chords",labels=["cycle","none","long"]),
 p("p_cycle6","every graph on 6 vertices",labels=["cycle","none"],thorough=True,time=7200)]),
"P45":dict(title="random tours are tours whatever the dice say",runs=[
 p("p_rand4","every graph on 4 vertices, every outcome of the random draws",labels=["part","full"]),
 p("p_rand5","5 vertices",labels=["part","full"]),
 p("p_randpair","tours from disjoint path maps, every outcome of the random draws",labels=["refused","tour"])]),
"P46":dict(title="preprocessing removes only what no tour can use",runs=[
 p("p_leaves4","every graph with self loops on 4 vertices",labels=["some","none"]),
 p("p_leaves5","every graph on 5 vertices",labels=["some","none"]),
 p("p_components4","every graph with self loops on 4 vertices, any root",labels=["all","some"]),
 p("p_components5","every graph on 5 vertices, any root",labels=["all","some"]),
 p("p_oneconn4","every graph on 4 vertices, any root",labels=["some","root only"]),
 p("p_oneconn4l","every graph with any self loops on 4 vertices",labels=["some","root only"]),
 p("p_oneconn5","every graph on 5 vertices, any root",labels=["some","root only"]),
 p("p_prep4","preprocessing of a vial: every graph on 4 vertices, any root, every combination of steps and flags",labels=["done","refused"]),
 p("p_prep5","the same with 5 vertices, 3 edges fixed",labels=["done","refused"])]),
# ---- Python: experiments
"P47":dict(title="batches cover every vial once",runs=[
 p("p_nbatches","any number of vials and batch size",labels=E),
 p("p_batch","experiments of up to 5 vials, any window",labels=["some","nothing"]),
 p("p_batches","any batch size, batches in any order",labels=E),
 p("p_onlymissing","any set of results already there, batches in order",labels=E)]),
"P48":dict(title="results survive failures and crashes",runs=[
 p("p_missing","each result absent, complete or cut off by a crash at any byte",labels=["absent","cut","complete"]),
 p("p_isolation","any subset of vials fails, in solver or data",labels=["all","some failed"]),
 p("p_expfile","experiments of up to 3 vials, any subset missing",labels=["none","end"])]),
"P49":dict(title="running a vial does what its parameters say",runs=[
 p("p_heur","all eight heuristic names, symbolic quota, step, depth, costs and prizes",labels="unknown refused empty bfs_extension_collapse bfs_path_extension_collapse suurballes_extension_collapse suurballes_heuristic suurballes_path_extension_collapse".split()),
 p("p_runheur","vials with a heuristic, symbolic graph",labels=["heuristic","empty"]),
 p("p_runexact","vials with the exact algorithm, symbolic parameters, every answer of the solver",labels=["none","tour","start","no start"]),
 p("p_runmaps","distances given to the exact solver, symbolic costs",labels=E),
 p("p_runother","algorithm names outside both families",labels=["refused"])]),
"P51":dict(title="an experiment on a cluster is complete after its job scripts",runs=[
 p("p_slurm","up to 5 vials, any time limits up to 3 days, any batch size; script executed by bash",labels=["all","missing"]),
 p("p_history","setup, batches with any failures or cut-off results, list of the missing, second round",labels=["repeated","end"])]),
"P52":dict(title="products of parameters have every combination once",runs=[
 p("p_products","lists of up to 3 values for each parameter",labels=E)]),
"P53":dict(title="the summary of an experiment gives each vial its own result",runs=[
 p("p_summary","up to 3 vials, results in any order, symbolic prize and quota",labels=["feasible","infeasible"])]),
"P55":dict(title="statistics of a dataset are those of its graphs",runs=[
 p("p_stats","every graph on 4 vertices with symbolic costs and prizes",labels=E),
 p("p_dataset","both data sets, one or two graphs, sparsifications and cost functions, one symbolic prize",labels=["londonaq","tsplib"])]),
"P54":dict(title="single runs do what the options say",runs=[
 p("p_tsplib","11 algorithm/heuristic choices, 3 instances, 5 cost settings, 4 alphas; symbolic depth, step, levels, tailing off, gap and time limit",labels=["exact","heuristic"]),
 p("p_londonaq","all algorithms, two data sets, with and without leaf removal; symbolic quota and time limit",labels=["exact","heuristic"])]),
"P57":dict(title="a vial is run on its own data set",runs=[
 p("p_load","two vials of either data set (also of one graph in two generations), 4 cost functions, 3 sparsifications; two symbolic prizes, symbolic quota, one symbolic weight (0..20)",labels=["tsplib","londonaq"])]),
"P56":dict(title="the table of a branch and cut experiment",runs=[
 p("p_branchcut","two vials, results and statistics absent, complete or cut off at every place; symbolic prizes, quotas and costs",labels=["rows","empty"]),
 p("p_csvall","two data sets with three experiments each: absent, without results, complete",labels=E)]),
"P58":dict(title="experiments compare settings on the same instances",runs=[
 p("p_setup","all ten experiment names with both data sets, shortened lists of instances, symbolic quotas that differ from graph to graph",labels=["londonaq","tsplib","refused"]),
 p("p_lab","four experiments on both data sets, symbolic quota, any of the first solver calls fails",labels=["londonaq","tsplib"])]),
"P59":dict(title="commands rerun and list exactly the vials they name",runs=[
 p("p_vial","up to 3 vials, any of them or an unknown one, failing or not, any results before",labels=["run","failed","unknown"]),
 p("p_counts","up to 3 vials, results absent, cut off, complete or without a tour; symbolic quotas, prizes and batch size",labels=E)]),
"P50":dict(title="Python wrappers pass every argument to the right place",runs=[
 p("p_wrap","8 wrapper functions, symbolic costs, prizes, quota, step, depth, level, defaults",labels="collapse path_collapse gain loss until path path_pec path_until".split()),
 p("p_solve","exact solver wrapper: symbolic options, distances, six start tours",labels=["start","withheld"])]),
}
PROGRAMS=sorted({r["prog"] for q in PROPS.values() for r in q["runs"] if r.get("prog")})
if os.environ.get("TRY"):
    pr,hs=os.environ["TRY"].split(":")
    PROPS["X99"]=dict(title="try",runs=[(p(h,"",time=int(os.environ.get("TT","120"))) if pr=="py" else c(pr,h,"",time=int(os.environ.get("TT","120")))) for h in hs.split(",")])
