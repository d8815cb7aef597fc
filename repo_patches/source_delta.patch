From 162b9b7d6d8f34f39172375c640bdb6dd34f08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:12 +0000
Subject: [PATCH 01/13] fix: keep wrapped radii in 64 bits so that distances
 beyond 2^31 do not overflow

A region growing further than 2^31 (possible on a path of more than 128 edges
of maximal weight) truncated its wrapped radius to 32 bits, which made the
decoder loop forever.
---
 src/pymatching/sparse_blossom/flooder/detector_node.cc | 4 ++--
 src/pymatching/sparse_blossom/flooder/detector_node.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.cc b/src/pymatching/sparse_blossom/flooder/detector_node.cc
index 3e90c71..733a7b3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.cc
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.cc
@@ -20,11 +20,11 @@
 
 namespace pm {
 
-int32_t DetectorNode::compute_wrapped_radius() const {
+cumulative_time_int DetectorNode::compute_wrapped_radius() const {
     if (reached_from_source == nullptr) {
         return 0;
     }
-    int32_t total = 0;
+    cumulative_time_int total = 0;
     auto r = region_that_arrived;
     while (r != region_that_arrived_top) {
         total += r->radius.y_intercept();
diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.h b/src/pymatching/sparse_blossom/flooder/detector_node.h
index 446de58..deb4bb3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.h
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.h
@@ -51,7 +51,7 @@ class DetectorNode {
     GraphFillRegion* region_that_arrived_top;
     /// Stores the latest value of `compute_wrapped_radius` so it doesn't need to be recomputed
     /// as much. Updated whenever region_that_arrived_top changes.
-    int32_t wrapped_radius_cached;
+    cumulative_time_int wrapped_radius_cached;
     /// Of the detection events within the owning region, which one is this node linked to.
     DetectorNode* reached_from_source;
     /// Which observables are crossed, travelling from this node to the source
@@ -95,7 +95,7 @@ class DetectorNode {
     /// sum of the radius of (always frozen) not-top-level regions containing this node. It is a
     /// useful intermediate value for quickly computing the local radius of the node, because it
     /// accounts for everything except the (potentially varying) top level region.
-    int32_t compute_wrapped_radius() const;
+    cumulative_time_int compute_wrapped_radius() const;
 
     /// It works out the local radius of the node, but bounds it to not go beyond the given bounding
     /// region. This is useful for understanding the internal structure of the blossoms.
-- 
2.43.0


From e31b0229e5e870fec9b8baa2e125d44e4d674896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:03 +0000
Subject: [PATCH 02/13] fix: reject a second boundary edge before recording its
 negative weight

MatchingGraph::add_boundary_edge toggled the negative-weight detection
events and observables and lowered negative_weight_sum before throwing
"Max one boundary edge.", so a rejected negative edge still changed every
later decoding with that graph.
---
 src/pymatching/sparse_blossom/flooder/graph.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/graph.cc b/src/pymatching/sparse_blossom/flooder/graph.cc
index 5c1b885..7fa5158 100644
--- a/src/pymatching/sparse_blossom/flooder/graph.cc
+++ b/src/pymatching/sparse_blossom/flooder/graph.cc
@@ -87,6 +87,11 @@ void MatchingGraph::add_boundary_edge(
             std::to_string(num_nodes) + ")");
     }
 
+    auto& n = nodes[u];
+    if (!n.neighbors.empty() && n.neighbors[0] == nullptr) {
+        throw std::invalid_argument("Max one boundary edge.");
+    }
+
     pm::obs_int obs_mask = 0;
     if (num_observables <= sizeof(pm::obs_int) * 8) {
         for (auto obs : observables)
@@ -99,10 +104,6 @@ void MatchingGraph::add_boundary_edge(
         negative_weight_sum += weight;
     }
 
-    auto& n = nodes[u];
-    if (!n.neighbors.empty() && n.neighbors[0] == nullptr) {
-        throw std::invalid_argument("Max one boundary edge.");
-    }
     n.neighbors.insert(n.neighbors.begin(), 1, nullptr);
     n.neighbor_weights.insert(n.neighbor_weights.begin(), 1, std::abs(weight));
     n.neighbor_observables.insert(n.neighbor_observables.begin(), 1, obs_mask);
-- 
2.43.0


From 14db4ffbd25ce1dc628539af1d8d88302a6ed214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:03 +0000
Subject: [PATCH 03/13] fix: keep reweighting state when a SearchGraph is moved

The move constructor dropped previous_weights (so undo_reweights after a
move restored nothing) and edges_to_implied_weights_unconverted (so
convert_implied_weights after a move read past the end of empty vectors).
---
 src/pymatching/sparse_blossom/search/search_graph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/search/search_graph.cc b/src/pymatching/sparse_blossom/search/search_graph.cc
index d4be3ae..56ec2e6 100644
--- a/src/pymatching/sparse_blossom/search/search_graph.cc
+++ b/src/pymatching/sparse_blossom/search/search_graph.cc
@@ -27,7 +27,9 @@ pm::SearchGraph::SearchGraph(size_t num_nodes) : num_nodes(num_nodes) {
 pm::SearchGraph::SearchGraph(pm::SearchGraph&& graph) noexcept
     : nodes(std::move(graph.nodes)),
       num_nodes(graph.num_nodes),
-      negative_weight_edges(std::move(graph.negative_weight_edges)) {
+      negative_weight_edges(std::move(graph.negative_weight_edges)),
+      previous_weights(std::move(graph.previous_weights)),
+      edges_to_implied_weights_unconverted(std::move(graph.edges_to_implied_weights_unconverted)) {
 }
 
 void pm::SearchGraph::add_edge(
-- 
2.43.0


From d0972f0e1604e76af55d7efee954e7bcba39f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:18 +0000
Subject: [PATCH 04/13] fix: reject an edge to node SIZE_MAX instead of
 indexing with it

larger_node + 1 wraps to 0 for SIZE_MAX (the value used elsewhere for the
boundary), so add_edge accepted it and wrote outside the node vector.
---
 src/pymatching/sparse_blossom/flooder/graph.cc       | 2 +-
 src/pymatching/sparse_blossom/search/search_graph.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/graph.cc b/src/pymatching/sparse_blossom/flooder/graph.cc
index 7fa5158..049881f 100644
--- a/src/pymatching/sparse_blossom/flooder/graph.cc
+++ b/src/pymatching/sparse_blossom/flooder/graph.cc
@@ -31,7 +31,7 @@ void MatchingGraph::add_edge(
     const std::vector<size_t>& observables,
     const std::vector<ImpliedWeightUnconverted>& implied_weights_for_other_edges) {
     size_t larger_node = std::max(u, v);
-    if (larger_node + 1 > nodes.size()) {
+    if (larger_node >= nodes.size()) {
         throw std::invalid_argument(
             "Node " + std::to_string(larger_node) +
             " exceeds number of nodes "
diff --git a/src/pymatching/sparse_blossom/search/search_graph.cc b/src/pymatching/sparse_blossom/search/search_graph.cc
index 56ec2e6..2d9adc4 100644
--- a/src/pymatching/sparse_blossom/search/search_graph.cc
+++ b/src/pymatching/sparse_blossom/search/search_graph.cc
@@ -39,7 +39,7 @@ void pm::SearchGraph::add_edge(
     const std::vector<size_t>& observables,
     const std::vector<ImpliedWeightUnconverted>& implied_weights_for_other_edges) {
     size_t larger_node = std::max(u, v);
-    if (larger_node + 1 > nodes.size()) {
+    if (larger_node >= nodes.size()) {
         throw std::invalid_argument(
             "Node " + std::to_string(larger_node) +
             " exceeds number of nodes "
-- 
2.43.0


From 3a5c7dbf0ed63e183bc1717507ca9413e3b91779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:18 +0000
Subject: [PATCH 05/13] fix: count the observables of an edge that replaces a
 parallel edge

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 3133439..36328db 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -99,8 +99,13 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         // Update the existing edge weight and probability in the adjacency list of `node`
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
-        if (use_new_observables)
+        if (use_new_observables) {
             neighbor.edge_it->observable_indices = parallel_observables;
+            for (auto& obs : parallel_observables) {
+                if (obs + 1 > _num_observables)
+                    _num_observables = obs + 1;
+            }
+        }
 
         _mwpm_needs_updating = true;
         if (new_error_probability < 0 || new_error_probability > 1)
-- 
2.43.0


From 60799fcaa7b728484783d83f64682842b2a29b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:18 +0000
Subject: [PATCH 06/13] fix: reject an out-of-range detection event before
 changing the decoder's state

---
 .../sparse_blossom/driver/mwpm_decoding.cc      | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 3f08c37..8efde38 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -83,16 +83,19 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
     if (!mwpm.flooder.queue.empty()) {
         throw std::invalid_argument("!mwpm.flooder.queue.empty()");
     }
+    // Reject invalid detection events before anything in the decoder is changed
+    for (auto& detection : detection_events) {
+        if (detection >= mwpm.flooder.graph.nodes.size())
+            throw std::invalid_argument(
+                "The detection event with index " + std::to_string(detection) +
+                " does not correspond to a node in the graph, which only has " +
+                std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
+    }
     mwpm.flooder.queue.cur_time = 0;
 
     if (mwpm.flooder.negative_weight_detection_events.empty()) {
         // Just add detection events if graph has no negative weights
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
-                throw std::invalid_argument(
-                    "The detection event with index " + std::to_string(detection) +
-                    " does not correspond to a node in the graph, which only has " +
-                    std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
             if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                 !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
                 mwpm.create_detection_event(&mwpm.flooder.graph.nodes[detection]);
@@ -106,10 +109,6 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
 
         // Now add detection events for unmarked nodes
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
-                throw std::invalid_argument(
-                    "Detection event index `" + std::to_string(detection) +
-                    "` is larger than any detector node index in the graph.");
             if (!mwpm.flooder.graph.nodes[detection].radius_of_arrival) {
                 if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                     !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
-- 
2.43.0


From 9c8f71980d9f709c9884ac30907ae5cd1e9486ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:18 +0000
Subject: [PATCH 07/13] fix: check the node range before looking up boundary
 nodes of a path query

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 36328db..edf2539 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -371,12 +371,12 @@ void pm::UserGraph::handle_dem_instruction_include_correlations(
 
 void pm::UserGraph::get_nodes_on_shortest_path_from_source(size_t src, size_t dst, std::vector<size_t>& out_nodes) {
     auto& mwpm = get_mwpm_with_search_graph();
-    bool src_is_boundary = is_boundary_node(src);
-    bool dst_is_boundary = is_boundary_node(dst);
     if (src != SIZE_MAX && src >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(src) + " is not in the graph");
     if (dst != SIZE_MAX && dst >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(dst) + " is not in the graph");
+    bool src_is_boundary = is_boundary_node(src);
+    bool dst_is_boundary = is_boundary_node(dst);
     if (!src_is_boundary) {
         size_t dst_tmp = dst_is_boundary ? SIZE_MAX : dst;
         mwpm.search_flooder.iter_edges_on_shortest_path_from_source(src, dst_tmp, [&](const pm::SearchGraphEdge edge) {
-- 
2.43.0


From 4eec9c25bab5b787168e2c222853ec3587dd80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:36 +0000
Subject: [PATCH 08/13] fix: report a missing path instead of dereferencing a
 null collision

---
 src/pymatching/sparse_blossom/search/search_flooder.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pymatching/sparse_blossom/search/search_flooder.h b/src/pymatching/sparse_blossom/search/search_flooder.h
index 6f3f60b..6a25797 100644
--- a/src/pymatching/sparse_blossom/search/search_flooder.h
+++ b/src/pymatching/sparse_blossom/search/search_flooder.h
@@ -15,6 +15,8 @@
 #ifndef PYMATCHING2_SEARCH_FLOODER_H
 #define PYMATCHING2_SEARCH_FLOODER_H
 
+#include <stdexcept>
+
 #include "pymatching/sparse_blossom/search/search_graph.h"
 #include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
 
@@ -85,6 +87,10 @@ template <typename Callable>
 void SearchFlooder::iter_edges_on_shortest_path_from_middle(size_t src, size_t dst, Callable handle_edge) {
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(&graph.nodes[src], loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("No path was found between the source and the destination.");
+    }
     iter_edges_tracing_back_from_collision_edge(collision_edge, handle_edge);
     reset();
 }
@@ -105,6 +111,10 @@ void SearchFlooder::iter_edges_on_shortest_path_from_source(size_t src, size_t d
     SearchDetectorNode* loc_from_ptr = &graph.nodes[src];
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(loc_from_ptr, loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("No path was found between the source and the destination.");
+    }
 
     std::vector<SearchGraphEdge> path_edges_1;
     iter_edges_on_path_traced_back_from_node(
-- 
2.43.0


From 4a2a31abad2420638a1aa68556718ec2112d0212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:36 +0000
Subject: [PATCH 09/13] fix: shift observable bits in 64 bits when packing a
 bit vector

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 8efde38..87d776d 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -65,7 +65,7 @@ pm::obs_int pm::bit_vector_to_obs_mask(const std::vector<uint8_t>& bit_vector) {
         throw std::invalid_argument("Too many observables");
     pm::obs_int obs_mask = 0;
     for (size_t i = 0; i < num_observables; i++)
-        obs_mask ^= bit_vector[i] << i;
+        obs_mask ^= (pm::obs_int)bit_vector[i] << i;
     return obs_mask;
 }
 
-- 
2.43.0


From 646f394a3a6e831a702e81542fbc32090662361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:36 +0000
Subject: [PATCH 10/13] fix: rebuild the decoder after implied edge weights are
 added

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index edf2539..c9e464a 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -523,6 +523,7 @@ pm::UserGraph pm::detector_error_model_to_user_graph(
 
 void pm::UserGraph::populate_implied_edge_weights(
     std::map<std::pair<size_t, size_t>, std::map<std::pair<size_t, size_t>, double>>& joint_probabilites) {
+    _mwpm_needs_updating = true;
     for (auto& edge : edges) {
         std::pair<size_t, size_t> current_edge_nodes = std::minmax(edge.node1, edge.node2);
         auto it = joint_probabilites.find(current_edge_nodes);
-- 
2.43.0


From b8d08aa917e030bfdcf3fcde9c424af1c224173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:48 +0000
Subject: [PATCH 11/13] fix: add the solution weight to the argument for up to
 64 observables too, as documented

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 87d776d..ba782cf 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -237,7 +237,7 @@ void pm::decode_detection_events(
         // Translate observable mask into bit vector
         fill_bit_vector_from_obs_mask(bit_packed_res.obs_mask, obs_begin_ptr, num_observables);
         // Add negative weight sum to blossom solution weight
-        weight = bit_packed_res.weight + mwpm.flooder.negative_weight_sum;
+        weight += bit_packed_res.weight + mwpm.flooder.negative_weight_sum;
     }
 
     if (edge_correlations) {
-- 
2.43.0


From 5c13c57fb93ce6ad6fedc3b3982bc82457007788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:37 +0000
Subject: [PATCH 12/13] fix: count_mistakes silently counted against no
 observables when none were given

The guard compared --obs_in with nullptr, but its default is stdin, which is
never read for observables: every shot was compared with an empty observable
mask instead of being rejected.
---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 760e621..a59cd09 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -118,7 +118,7 @@ int main_count_mistakes(int argc, const char **argv) {
     bool enable_correlations = stim::find_bool_argument("--enable_correlations", argc, argv);
 
     bool time = stim::find_bool_argument("--time", argc, argv);
-    if (!append_obs && obs_in == nullptr) {
+    if (!append_obs && obs_in == stdin) {
         throw std::invalid_argument("Must specify --in_includes_appended_observables or --obs_in.");
     }
 
-- 
2.43.0


From c268859cded458f5147dfe6c5e174108360e28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:17 +0000
Subject: [PATCH 13/13] fix: the installed command ignored the exit status of
 the run

cli_argv() dropped the value returned by pymatching.cli, so a failed run of the
console script (unknown command, unreadable input) still exited with status 0.
---
 src/pymatching/_cli_argv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/_cli_argv.py b/src/pymatching/_cli_argv.py
index e9fbd93..bd33c1d 100644
--- a/src/pymatching/_cli_argv.py
+++ b/src/pymatching/_cli_argv.py
@@ -4,4 +4,4 @@ import pymatching
 
 
 def cli_argv():
-    pymatching.cli(command_line_args=sys.argv[1:])
+    return pymatching.cli(command_line_args=sys.argv[1:])
-- 
2.43.0

