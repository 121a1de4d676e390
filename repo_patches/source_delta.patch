From 99c8a51c07ca85d8c39ed1fec297bc371b59135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 01/27] fix: copy the non-singular components, not the first
 ones

---
 include/pctsp/data_structures.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pctsp/data_structures.hh b/include/pctsp/data_structures.hh
index f27060f..58683d4 100644
--- a/include/pctsp/data_structures.hh
+++ b/include/pctsp/data_structures.hh
@@ -94,7 +94,7 @@ std::vector<std::vector<TVertex>> getNonSingularConnectedComponentVectors(
     std::vector<std::vector<TVertex>> non_singular_components (n_non_singular_components);
     int i = 0;
     for (auto& component_id : non_singular_component_ids) {
-        auto& component = component_vectors[i];
+        auto& component = component_vectors[component_id];
         non_singular_components[i] = std::vector<TVertex> (component.size());
         std::copy(component.begin(), component.end(), non_singular_components[i].begin());
         i++;
-- 
2.43.0


From 6bfbc97feff876a70868bfa41b8295285812c4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 02/27] fix: stop the path extension once the tour reaches the
 quota

---
 include/pctsp/heuristic.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pctsp/heuristic.hh b/include/pctsp/heuristic.hh
index b4ba7c5..2c243b4 100644
--- a/include/pctsp/heuristic.hh
+++ b/include/pctsp/heuristic.hh
@@ -352,6 +352,7 @@ void pathExtensionUntilPrizeFeasible(
             auto external_path = extension_paths[index_of_smallest_loss];
             int last_index = (index_of_smallest_loss + step_size) % k;
             swapPathsInTour(tour, external_path, index_of_smallest_loss, last_index);
+            prize = totalPrizeOfTour(prize_map, tour);
         }
     }
 }
-- 
2.43.0


From 581a88d83a58c576afa822f2e99e1c21ea58de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 03/27] fix: use the capacity of each root component edge in
 the minimum cut

---
 src/subtour_elimination.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index d50d156..0feaef4 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -334,10 +334,13 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     // only get edges that are in the same connected components as the root
     VertexPairVector edge_vector = getVertexPairVectorFromEdgeSubset(input_graph, solution_edges);
     VertexPairVector root_edge_vector;
+    CapacityVector root_capacity_vector;    // the capacity of each edge in root_edge_vector
 
-    for (auto pair : edge_vector) {
+    for (int i = 0; i < edge_vector.size(); i++) {
+        auto pair = edge_vector[i];
         if (root_component.count(pair.first) >= 1 && root_component.count(pair.second) >= 1) {
             root_edge_vector.push_back(pair);
+            root_capacity_vector.push_back(capacity_vector[i]);
         }
     }
     // create mapping from input vertices to support vertices (they will be renamed)
@@ -351,7 +354,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     auto residual_capacity = boost::get(edge_residual_capacity, support_graph);
     for (int i = 0; i < support_edges.size(); i++) {
         auto pair = support_edges[i];
-        auto cap = capacity_vector[i];
+        auto cap = root_capacity_vector[i];
 
         // add edge in both directions since the graph is undirected
         auto edge1 = boost::add_edge(pair.first, pair.second, cap, support_graph);
-- 
2.43.0


From c72780f2c8516b7f35f2ea2f549c4c08c504d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 04/27] fix: never add a cost cover inequality of the root
 vertex with itself

---
 src/cost_cover.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index a7998b4..d04d059 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -92,6 +92,7 @@ unsigned int separateThenAddCostCoverInequalities(SCIP* scip, std::vector<CostNu
     auto violated_vertices = separateCostCoverPaths(graph, path_distances, cost_upper_bound);
     unsigned int num_conss_added = 0;
     for (auto& vertex: violated_vertices) {
+        if (vertex == root_vertex) continue;    // the root vertex is always in the tour
         num_conss_added ++;
         std::vector<PCTSPvertex> cover_vertices = {root_vertex, vertex};
         addCoverInequalityFromVertices(scip, graph, cover_vertices, edge_variable_map);
-- 
2.43.0


From fa75c154d5312d627f70a7635cbe2d3b8f32b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 05/27] fix: do not overflow when doubling the distance of an
 unreachable vertex

---
 include/pctsp/cost_cover.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pctsp/cost_cover.hh b/include/pctsp/cost_cover.hh
index 3de2913..fd6b211 100644
--- a/include/pctsp/cost_cover.hh
+++ b/include/pctsp/cost_cover.hh
@@ -1,6 +1,7 @@
 #ifndef __PCTSP_COST_COVER__
 #define __PCTSP_COST_COVER__
 
+#include <limits>
 #include <vector>
 
 #include <boost/graph/adjacency_list.hpp>
@@ -152,8 +153,10 @@ SCIP_RETCODE includeShortestPathCostCover(
     );
     // multiply each of the distances by two:
     // when visiting a vertex, we must return to the root vertex
+    // the distance of a vertex that cannot be reached stays at the maximum
+    const int max_distance = std::numeric_limits<int>::max();
     for (int i = 0; i < distances.size(); i++) {
-        distances[i] = distances[i] * 2;
+        distances[i] = distances[i] > max_distance / 2 ? max_distance : distances[i] * 2;
     }
     return includeShortestPathCostCover(scip, distances);
 }
-- 
2.43.0


From 1f05b8b114f06a338c22eed73a6f409e190c9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:15 +0000
Subject: [PATCH 06/27] fix: return the empty edge list when no solution was
 found

---
 src/algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 37dc50f..da92769 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -37,7 +37,7 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
 ) {
     auto edge_var_map = modelPrizeCollectingTSP(scip, graph, heuristic_edges, cost_map, prize_map, quota, root_vertex, name);
     SCIPsolve(scip);
-    if (SCIPgetStatus(scip) != SCIP_STATUS_INFEASIBLE) {
+    if (SCIPgetNSols(scip) > 0) {
         SCIP_SOL* sol = SCIPgetBestSol(scip);
         auto solution_edges = getSolutionEdges(scip, graph, sol, edge_var_map);
         return getVertexPairVectorFromEdgeSubset(graph, solution_edges);
@@ -58,7 +58,7 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
 ) {
     auto edge_var_map = modelPrizeCollectingTSP(scip, graph, edge_list, heuristic_edges, cost_dict, prize_dict, quota, root_vertex, name);
     SCIPsolve(scip);
-    if (SCIPgetStatus(scip) != SCIP_STATUS_INFEASIBLE) {
+    if (SCIPgetNSols(scip) > 0) {
         SCIP_SOL* sol = SCIPgetBestSol(scip);
         auto solution_edges = getSolutionEdges(scip, graph, sol, edge_var_map);
         return getVertexPairVectorFromEdgeSubset(graph, solution_edges);
-- 
2.43.0


From 92928eb3a0de47903e3adadd90281f7834ddce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 07/27] fix: record each branch and bound node once

---
 src/event_handlers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index b2ab5de..b60c6b7 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -90,7 +90,8 @@ SCIP_DECL_EVENTDELETE(NodeEventhdlr::scip_delete) {
 SCIP_DECL_EVENTEXEC(NodeEventhdlr::scip_exec) {
     SCIP_NODE* node = SCIPgetCurrentNode(scip);
     auto node_id = SCIPnodeGetNumber(node);
-    if (node_id >= node_stats_.size()) {
+    // add a node once: events for a node that is already known must not reset its counters
+    if (node_id > node_stats_.size() || node_stats_[node_id - 1].node_id != node_id) {
         addCurrentNode(scip);
     }
     return SCIP_OKAY;
-- 
2.43.0


From 1f1d51ff3fb7d0347197cd09e6bee5a68fe713a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 08/27] fix: read the summary statistics in the order of their
 fields

---
 src/stats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats.cpp b/src/stats.cpp
index cc6395f..449ca92 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -31,8 +31,8 @@ SummaryStats readSummaryStatsFromYaml(std::filesystem::path& filename) {
         stats_yaml["lower_bound"].as<double>(),
         stats_yaml["upper_bound"].as<double>(),
         stats_yaml["num_cost_cover_disjoint_paths"].as<unsigned int>(),
-        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["num_cost_cover_shortest_paths"].as<unsigned int>(),
+        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["nconss_presolve_shortest_paths"].as<unsigned int>(),
         stats_yaml["num_cycle_cover"].as<unsigned int>(),
         stats_yaml["num_nodes"].as<long long>(),
-- 
2.43.0


From 81c315c74384d84d49e0a0557c2fd535afead9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 09/27] fix: do not use the message of a missing-file error
 before it is constructed

---
 include/pctsp/exception.hh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index 3e5ecea..65353e8 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -84,14 +84,11 @@ class TargetVertexFound : public std::exception {
 };
 
 class FileDoesNotExistError : public std::filesystem::filesystem_error {
-    private:
-        const std::string message = "File does not exist: ";
-    
     public:
         FileDoesNotExistError(const std::string& what_arg, const std::filesystem::path& p1, std::error_code ec) : std::filesystem::filesystem_error(what_arg, p1, ec) {};
 
         FileDoesNotExistError(std::filesystem::path& filepath): FileDoesNotExistError(
-            message, filepath, std::make_error_code(std::errc::no_such_file_or_directory)
+            "File does not exist: ", filepath, std::make_error_code(std::errc::no_such_file_or_directory)
         ) {};            
         // const char* what() const throw() {
         //     return message.c_str();
-- 
2.43.0


From 4f4ed06c7c6a0032e7078c778d70171ad2390698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:48 +0000
Subject: [PATCH 10/27] fix: initial tour from disjoint paths is always a
 simple cycle

---
 pctsp/algorithms/heuristic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 5d11a1c..120fbbf 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -88,7 +88,8 @@ def suurballes_tour_initialization(
     for disjoint_paths in vertex_disjoint_paths_map.values():
         tour = tour_from_vertex_disjoint_paths(disjoint_paths)
         prize_of_tour = total_prize_of_tour(prize_map, tour)
-        if prize_of_tour > biggest_prize:
+        # the pair of paths from the root to itself does not form a simple cycle
+        if prize_of_tour > biggest_prize and len(set(tour)) == len(tour) - 1:
             biggest_tour = tour
             biggest_prize = prize_of_tour
     return biggest_tour
-- 
2.43.0


From e4e49ebd42098aabe35d754f8b718bcb52f7658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:48 +0000
Subject: [PATCH 11/27] fix: random tour is made from the pair of paths that
 was accepted

---
 pctsp/algorithms/heuristic.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 120fbbf..139145b 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -185,20 +185,17 @@ def random_tour_from_disjoint_paths_map(
     vertex_choices = list(disjoint_paths_map.keys())
     if root_vertex in vertex_choices:
         vertex_choices.remove(root_vertex)
-    if len(vertex_choices) == 0:
-        error_message = "No vertex disjoint paths to create a cycle from "
-        error_message += "(excluding between the root and itself)"
-        raise ValueError(error_message)
-
-    keep_repeating = True
-    vertex = random.choice(vertex_choices)
-    while len(vertex_choices) >= 0 and keep_repeating:
+    while len(vertex_choices) > 0:
+        vertex = random.choice(vertex_choices)
         first_path = disjoint_paths_map[vertex][0]
         second_path = disjoint_paths_map[vertex][1]
-        keep_repeating = len(first_path) + len(second_path) < 5
+        if len(first_path) + len(second_path) >= 5:
+            return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
         vertex_choices.remove(vertex)
-        vertex = random.choice(vertex_choices)
-    return tour_from_vertex_disjoint_paths(disjoint_paths_map[vertex])
+
+    error_message = "No vertex disjoint paths to create a cycle from "
+    error_message += "(excluding between the root and itself)"
+    raise ValueError(error_message)
 
 
 def find_cycle_from_bfs(G: nx.Graph, root_vertex: Vertex) -> VertexList:
-- 
2.43.0


From 11a17d9a47d40feae0d9706a47bc66a39c2acb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 12/27] fix: path_extension passes step size and depth limit in
 the order of the binding

---
 pctsp/algorithms/path_extension_collapse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/path_extension_collapse.py b/pctsp/algorithms/path_extension_collapse.py
index 815a455..3ae2fd7 100644
--- a/pctsp/algorithms/path_extension_collapse.py
+++ b/pctsp/algorithms/path_extension_collapse.py
@@ -84,8 +84,8 @@ def path_extension(
         cost_dict,
         prize_dict,
         root_vertex,
-        path_depth_limit,
         step_size,
+        path_depth_limit,
         logging_level,
     )
 
-- 
2.43.0


From 5dc5c2f78fccfbabf6f382b9f1f93a27ff66bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 13/27] fix: an empty tour is not extended instead of crashing

---
 include/pctsp/heuristic.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/pctsp/heuristic.hh b/include/pctsp/heuristic.hh
index 2c243b4..cce7ef3 100644
--- a/include/pctsp/heuristic.hh
+++ b/include/pctsp/heuristic.hh
@@ -259,7 +259,7 @@ void pathExtension(
     bool calculate_avg_loss = true;
     float avg_loss = 0.0;
     int i = 0;
-    while (exists_path_with_below_avg_loss && i < boost::num_vertices(graph) && step_size < tour.size() - 1) {
+    while (exists_path_with_below_avg_loss && i < boost::num_vertices(graph) && step_size + 1 < (int) tour.size()) {
         int k = tour.size() - 1;
 
         // define vectors to store unitary loss and paths
@@ -332,7 +332,7 @@ void pathExtensionUntilPrizeFeasible(
     int num_feasible_extensions = 1;
     int i = 0;
 
-    while (prize < quota && num_feasible_extensions > 0 && step_size < tour.size() - 1 && i++ < boost::num_vertices(graph)) {
+    while (prize < quota && num_feasible_extensions > 0 && step_size + 1 < (int) tour.size() && i++ < boost::num_vertices(graph)) {
         int k = tour.size() - 1;
 
         // define vectors to store unitary loss and paths
@@ -445,6 +445,11 @@ typename TGraph::vertex_descriptor findVertexWithBiggestGain(
     typedef typename graph_traits<TGraph>::vertex_iterator vertex_iter;
     std::pair<vertex_iter, vertex_iter> vp;
 
+    // a tour without vertices has no edge to insert a vertex into
+    if (tour.empty()) {
+        throw NoGainVertexFoundException();
+    }
+
     float biggest_gain = 0.0;
     VertexDescriptor biggest_gain_vertex;
     bool found_biggest_gain = false;
-- 
2.43.0


From 7b204869e0bde90412836d2f68549e3a5482bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 14/27] fix: use the tour that was extended until it is prize
 feasible

---
 pctsp/lab/run_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index c0ab4f0..a5bdc48 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -101,7 +101,7 @@ def run_heuristic(
         AlgorithmName.suurballes_extension_collapse,
     ]:
         # run extension with unitary gain then collapse
-        extension_until_prize_feasible(graph, small_tour, quota)
+        small_tour = extension_until_prize_feasible(graph, small_tour, quota)
         tour = extension_unitary_gain_collapse(
             graph,
             small_tour,
-- 
2.43.0


From ff1846f832b69239d3886d5167bd58157ab843d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 15/27] fix: a heuristic vial collapses paths when its
 parameters say so

---
 pctsp/lab/run_algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index a5bdc48..5e66a66 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -183,6 +183,7 @@ def run_algorithm(
             vial.data_config.quota,
             vial.data_config.root,
             vial.model_params.algorithm,
+            collapse_shortest_paths=vial.model_params.collapse_paths,
             disjoint_paths_cost_map=cost_map,
             disjoint_paths_map=vertex_disjoint_paths_map,
             logger=logger,
-- 
2.43.0


From ba640a60eb482ce05ae006e3cedf713db6b50187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 16/27] fix: an incomplete result file does not stop the search
 for infeasible results

---
 pctsp/lab/lab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index 940dae8..baf042e 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -81,7 +81,7 @@ class Lab:
                 )
                 if result.prize < vial.data_config.quota:
                     infeasible.append(vial)
-            except FileNotFoundError:
+            except (FileNotFoundError, json.JSONDecodeError):
                 pass
         return infeasible
 
-- 
2.43.0


From 0aaee33ae0b30abd4964e0cc8df16fdb90635893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 17/27] fix: batches of missing results do not depend on which
 results are there already

---
 pctsp/lab/lab.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index baf042e..45f526a 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -95,10 +95,9 @@ class Lab:
         """Run a batch of experiments in the lab"""
         # get the list of vials, beginning at batch start upto but not including batch end
         batch_end = min(batch_start + batch_size, len(experiment.vials))
-        vial_list = experiment.vials
+        vial_list = experiment.vials[batch_start:batch_end]
         if only_missing_results:
             vial_list = self.missing_vials(experiment, vial_list)
-        vial_list = vial_list[batch_start:batch_end]
         return self.run_experiment_from_vial_list(experiment, vial_list)
 
     def run_experiment(self, experiment: Experiment) -> List[Result]:
-- 
2.43.0


From d0d10a3513c3fc3a1ab24f6b87095753242617e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 18/27] fix: two days are 48 hours

---
 pctsp/apps/main_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 62993f8..4d78f7e 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -278,7 +278,7 @@ def slurm(
     output_filename = f"joboutput_{experiment_name.value}_%j.out"
     error_filename = f"joboutput_{experiment_name.value}_%j.err"
 
-    two_days_in_hours = 2 * 24 * 3600
+    two_days_in_hours = 2 * 24
     expected_cpu_time = math.ceil(float(batch_size) * (time_limit / 3600.0))
     slurm_time_limit_hours = min(expected_cpu_time + 1, two_days_in_hours)
 
-- 
2.43.0


From 62cc95f4a1abbc57b3d4ec3c1eaf8b63d185f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 19/27] fix: keep the offset of the split vertices for the cost
 of disjoint paths

---
 pctsp/apps/dataset_app.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index ca4bf14..f3d62f2 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -144,7 +144,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         tree, biggest_vertex
     )
     biggest_prize = 0
-    biggest_vertex = None
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
         prize = (
@@ -155,7 +154,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         )
         if prize > biggest_prize:
             biggest_prize = prize
-            biggest_vertex = u
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-- 
2.43.0


From e9aa478567d8bc17183e990a33f7e64d50256d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 20/27] fix: the root is not a vertex with disjoint paths in
 the statistics

---
 pctsp/apps/dataset_app.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index f3d62f2..8cf7f8c 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -146,6 +146,8 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
     biggest_prize = 0
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
+        if u == root_vertex:  # the paths of the root to itself are no tour
+            continue
         prize = (
             total_prize(prize_map, path1)
             + total_prize(prize_map, path2)
@@ -157,7 +159,9 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-        vertex_disjoint_cost_map(tree, biggest_vertex).values()
+        cost
+        for u, cost in vertex_disjoint_cost_map(tree, biggest_vertex).items()
+        if u != root_vertex
     )
 
     # preprocessing
-- 
2.43.0


From f8eda0a3b3be0f7f0027b7e5bd723323b04537e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:03 +0000
Subject: [PATCH 21/27] fix: the times of the bounds file are in UTC, with
 three digits of milliseconds

---
 src/event_handlers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index b60c6b7..adf6132 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -106,8 +106,10 @@ std::string timePointToString(TimePointUTC& time_stamp) {
     tm utc_tm = *gmtime(&tt);
     std::string time_zone_string = "Z";
     char mbstr[100];
-    std::strftime(mbstr, sizeof(mbstr), "%FT%T", std::localtime(&tt));
-    std::string all = std::string(mbstr) + "." + std::to_string(ms.count()) + time_zone_string;
+    std::strftime(mbstr, sizeof(mbstr), "%FT%T", &utc_tm);
+    std::string millis = std::to_string(ms.count());
+    millis.insert(0, 3 - millis.size(), '0');
+    std::string all = std::string(mbstr) + "." + millis + time_zone_string;
     return all;
 }
 
-- 
2.43.0


From 7b5bf04d66533e054214d76219e4e9b269be1794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:54 +0000
Subject: [PATCH 22/27] fix: the bounds of the node and bounds files keep all
 their digits

---
 src/stats.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stats.cpp b/src/stats.cpp
index 449ca92..58f21f1 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -1,5 +1,6 @@
 #include "pctsp/exception.hh"
 #include "pctsp/stats.hh"
+#include <limits>
 #include <yaml-cpp/yaml.h>
 
 void writeSummaryStatsToYaml(SummaryStats& summary, std::filesystem::path& filename) {
@@ -61,6 +62,7 @@ unsigned int numMaxflowMincutSECs(std::vector<NodeStats>& node_stats) {
 void writeNodeStatsToCSV(std::vector<NodeStats>& node_stats, std::filesystem::path& file_path) {
     if (std::filesystem::exists(file_path.parent_path())) {
         std::ofstream csv_file(file_path.string());
+        csv_file.precision(std::numeric_limits<SCIP_Real>::max_digits10);
         writeNodeStatsColumnNames(csv_file);
         for (NodeStats& stat : node_stats) {
             writeNodeStatsRow(stat, csv_file);
@@ -89,6 +91,7 @@ void writeNodeStatsColumnNames(std::ofstream& csv_file) {
 void writeBoundsToCSV(std::vector<Bounds>& bounds_vector, std::filesystem::path& file_path) {
     if (std::filesystem::exists(file_path.parent_path())) {
         std::ofstream csv_file(file_path);
+        csv_file.precision(std::numeric_limits<SCIP_Real>::max_digits10);
         writeBoundsColumnsNames(csv_file);
         for (Bounds& bounds : bounds_vector) {
             writeBoundsRow(bounds, csv_file);
-- 
2.43.0


From a1d0e3eab2c77769ae6075ffb9c15c00a2bbd9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:39 +0000
Subject: [PATCH 23/27] fix: the uniform random cost function leaves self loops
 at no cost

---
 pctsp/lab/lab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index 45f526a..2670576 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -155,6 +155,8 @@ class Lab:
             # set a different cost function
             if data_config.cost_function == EdgeWeightType.UNIFORM_RANDOM:
                 new_cost = uniform_random_cost(list(graph.edges()))
+                # visiting a vertex costs nothing
+                new_cost.update({loop: 0 for loop in nx.selfloop_edges(graph)})
                 nx.set_edge_attributes(graph, new_cost, name="cost")
             elif data_config.cost_function == EdgeWeightType.MST:
                 new_cost = mst_cost(graph, cost_attr="cost")
-- 
2.43.0


From 0d396a907758fef657c925a1bcd1937b9aa71231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:39 +0000
Subject: [PATCH 24/27] fix: the options of the path extension heuristics are
 handed to them

---
 pctsp/apps/main_app.py             | 9 +++++----
 pctsp/compare/product_of_params.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 4d78f7e..ab50bd7 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -552,10 +552,11 @@ def tsplib(
         model_params.sec_max_tailing_off_iterations = sec_max_tailing_off_iterations
         model_params.sec_sepafreq = 1
         model_params.time_limit = time_limit
-    if AlgorithmName.bfs_extension_collapse in (
-        model_params.algorithm,
-        model_params.heuristic,
-    ):
+    if {model_params.algorithm, model_params.heuristic} & {
+        AlgorithmName.bfs_extension_collapse,
+        AlgorithmName.bfs_path_extension_collapse,
+        AlgorithmName.suurballes_path_extension_collapse,
+    }:
         model_params.collapse_paths = collapse_paths
         model_params.path_depth_limit = path_depth_limit
         model_params.step_size = step_size
diff --git a/pctsp/compare/product_of_params.py b/pctsp/compare/product_of_params.py
index 8cd9e7c..8dcda1c 100644
--- a/pctsp/compare/product_of_params.py
+++ b/pctsp/compare/product_of_params.py
@@ -144,10 +144,11 @@ def product_of_model_params(
             model_params.sec_max_tailing_off_iterations = -1
             model_params.sec_sepafreq = 1
             model_params.time_limit = time_limit
-        if AlgorithmName.bfs_extension_collapse in (
-            model_params.algorithm,
-            model_params.heuristic,
-        ):
+        if {model_params.algorithm, model_params.heuristic} & {
+            AlgorithmName.bfs_extension_collapse,
+            AlgorithmName.bfs_path_extension_collapse,
+            AlgorithmName.suurballes_path_extension_collapse,
+        }:
             model_params.collapse_paths = collapse_paths
             model_params.path_depth_limit = path_depth_limit
             model_params.step_size = step_size
-- 
2.43.0


From 12b6136796c84625c90f1d7aead2854ed47b243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 25/27] fix: the tables of an experiment without results or
 statistics are empty

---
 pctsp/apps/csv_app.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pctsp/apps/csv_app.py b/pctsp/apps/csv_app.py
index 68ead24..c60a260 100644
--- a/pctsp/apps/csv_app.py
+++ b/pctsp/apps/csv_app.py
@@ -31,7 +31,10 @@ def experiment_summary_df(
 ) -> pd.DataFrame:
     """Get a dataframe summarizing the results of an experiment"""
     vial_df = dataframe_from_vial_list(experiment.vials)
-    result_df = pd.DataFrame(map(lambda x: x.dict(), results))
+    # name the columns for the case that there are no results
+    result_df = pd.DataFrame(
+        map(lambda x: x.dict(), results), columns=list(Result.model_fields)
+    )
     joined_df = vial_df.merge(result_df, left_on="uuid", right_on="vial_uuid")
     joined_df["duration"] = (joined_df["end_time"] - joined_df["start_time"]).apply(
         lambda x: x.total_seconds()
@@ -60,7 +63,10 @@ def summary_stats_df(root_dir: Path, ids: List[UUID]) -> pd.DataFrame:
             stats_list.append(stats_dict)
         except (FileNotFoundError, yaml.YAMLError):
             pass
-    return pd.DataFrame.from_records(stats_list)
+    # name the columns for the case that there are no statistics
+    return pd.DataFrame.from_records(
+        stats_list, columns=list(SummaryStats.model_fields) + ["vial_uuid"]
+    )
 
 
 @csv_app.command(name="heuristics")
-- 
2.43.0


From c352bea71b508f21d7ec992cc57c67ef8a76711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 26/27] fix: statistics that were not written completely do not
 cost the others their table

---
 pctsp/apps/csv_app.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pctsp/apps/csv_app.py b/pctsp/apps/csv_app.py
index c60a260..c5b65a4 100644
--- a/pctsp/apps/csv_app.py
+++ b/pctsp/apps/csv_app.py
@@ -8,6 +8,7 @@ import yaml
 import numpy as np
 import pandas as pd
 import typer
+from pydantic import ValidationError
 
 from ..algorithms import SummaryStats
 from ..constants import PCTSP_SUMMARY_STATS_YAML
@@ -61,8 +62,8 @@ def summary_stats_df(root_dir: Path, ids: List[UUID]) -> pd.DataFrame:
             stats_dict = stats.dict()
             stats_dict["vial_uuid"] = vial_uuid
             stats_list.append(stats_dict)
-        except (FileNotFoundError, yaml.YAMLError):
-            pass
+        except (FileNotFoundError, yaml.YAMLError, TypeError, ValidationError):
+            pass  # there are no statistics or they were not written completely
     # name the columns for the case that there are no statistics
     return pd.DataFrame.from_records(
         stats_list, columns=list(SummaryStats.model_fields) + ["vial_uuid"]
-- 
2.43.0


From c944dacaa6e266a6bc117dc4f5565dbb7d64752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:20 +0000
Subject: [PATCH 27/27] fix: vertices that have a self loop already are not
 given a second one

---
 src/preprocessing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessing.cpp b/src/preprocessing.cpp
index 6936ec4..4b7ee05 100644
--- a/src/preprocessing.cpp
+++ b/src/preprocessing.cpp
@@ -2,7 +2,8 @@
 
 void addSelfLoopsToGraph(PCTSPgraph& graph) {
     for (auto vertex : boost::make_iterator_range(vertices(graph))) {
-        boost::add_edge(vertex, vertex, graph);
+        if (! boost::edge(vertex, vertex, graph).second)
+            boost::add_edge(vertex, vertex, graph);
     }
 }
 
-- 
2.43.0

