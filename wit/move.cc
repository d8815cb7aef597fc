//! property: R09
//! target: move construction of MatchingGraph, GraphFlooder, SearchGraph, SearchFlooder, Mwpm; GraphFlooder::sync_negative_weight_observables_and_detection_events
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=2 -DVP_MAPCAP=2
// Moving a decoder (or a part of it) into place keeps everything that was loaded into it.
#include "mw.h"
static void fill(MatchingGraph& g) {
    g.nodes.resize(2);
    g.nodes[0].neighbors.push_back(&g.nodes[1]);
    g.nodes[0].neighbor_weights.push_back(any_u32<1>());
    g.nodes[0].neighbor_observables.push_back(any_u64<2>());
    g.nodes[0].neighbor_implied_weights.push_back({});
    g.nodes[0].neighbor_implied_weights[0].push_back(ImpliedWeight{any_ptr<3, weight_int>(), any_ptr<4, weight_int>(), any_u32<5>()});
    g.negative_weight_detection_events_set.insert(1);
    g.negative_weight_observables_set.insert(7);
    g.negative_weight_sum = any_time<6>();
    g.is_user_graph_boundary_node.push_back(false);
    g.is_user_graph_boundary_node.push_back(true);
    g.num_nodes = any_u64<7>();
    g.num_observables = any_u64<8>();
    g.normalising_constant = 3.5;
    g.previous_weights.emplace_back(any_ptr<9, weight_int>(), any_u32<10>());
    g.edges_to_implied_weights_unconverted[0].emplace_back();
    g.edges_to_implied_weights_unconverted[0][0].push_back({1, 2, 0.25});
    g.loaded_from_dem_without_correlations = any_u64<11>() & 1;
}
#define SAME_GRAPH(h, other)                                                                                                            \
    CHECK(h.nodes.size() == 2 && h.nodes[0].neighbors.size() == 1 && h.nodes[0].neighbors[0] == other && h.nodes[1].neighbors.empty());   \
    CHECK(h.nodes[0].neighbor_weights.size() == 1 && h.nodes[0].neighbor_weights[0] == any_u32<1>());                                    \
    CHECK(h.nodes[0].neighbor_observables.size() == 1 && h.nodes[0].neighbor_observables[0] == any_u64<2>());                            \
    CHECK(h.nodes[0].neighbor_implied_weights.size() == 1 && h.nodes[0].neighbor_implied_weights[0].size() == 1);                        \
    CHECK(h.nodes[0].neighbor_implied_weights[0][0].edge0_ptr == any_ptr<3, weight_int>());                                              \
    CHECK(h.nodes[0].neighbor_implied_weights[0][0].edge1_ptr == any_ptr<4, weight_int>());                                              \
    CHECK(h.nodes[0].neighbor_implied_weights[0][0].implied_weight == any_u32<5>());                                                     \
    CHECK(h.negative_weight_detection_events_set.size() == 1 && h.negative_weight_detection_events_set.count(1) == 1);                   \
    CHECK(h.negative_weight_observables_set.size() == 1 && h.negative_weight_observables_set.count(7) == 1);                             \
    CHECK(h.negative_weight_sum == any_time<6>());                                                                                       \
    CHECK(h.is_user_graph_boundary_node.size() == 2 && !h.is_user_graph_boundary_node[0] && h.is_user_graph_boundary_node[1]);           \
    CHECK(h.num_nodes == any_u64<7>() && h.num_observables == any_u64<8>() && h.normalising_constant == 3.5);                            \
    CHECK(h.previous_weights.size() == 1 && h.previous_weights[0].ptr == (any_ptr<9, weight_int>()) && h.previous_weights[0].val == any_u32<10>()); \
    CHECK(h.edges_to_implied_weights_unconverted.size() == 1 && h.edges_to_implied_weights_unconverted[0].size() == 1);                  \
    CHECK(h.edges_to_implied_weights_unconverted[0][0].size() == 1 && h.edges_to_implied_weights_unconverted[0][0][0].node1 == 1 &&      \
          h.edges_to_implied_weights_unconverted[0][0][0].node2 == 2 && h.edges_to_implied_weights_unconverted[0][0][0].implied_weight == 0.25); \
    CHECK(h.loaded_from_dem_without_correlations == (bool)(any_u64<11>() & 1))
static void fill(SearchGraph& g) {
    g.nodes.resize(2);
    g.nodes[0].neighbors.push_back(&g.nodes[1]);
    g.nodes[0].neighbor_weights.push_back(any_u32<21>());
    g.nodes[0].neighbor_observable_indices.push_back({(size_t)any_u64<22>()});
    g.nodes[0].neighbor_markers.push_back((uint8_t)any_u32<23>());
    g.nodes[0].neighbor_implied_weights.push_back({});
    g.nodes[0].neighbor_implied_weights[0].push_back(ImpliedWeight{any_ptr<24, weight_int>(), any_ptr<25, weight_int>(), any_u32<26>()});
    g.num_nodes = any_u64<27>();
    g.negative_weight_edges.push_back({any_u64<28>(), any_u64<29>()});
    g.previous_weights.emplace_back(any_ptr<30, weight_int>(), any_u32<31>());
    g.edges_to_implied_weights_unconverted[0].emplace_back();
    g.edges_to_implied_weights_unconverted[0][0].push_back({1, 2, 0.25});
}
#define SAME_SEARCH(h, other)                                                                                                           \
    CHECK(h.nodes.size() == 2 && h.nodes[0].neighbors.size() == 1 && h.nodes[0].neighbors[0] == other && h.nodes[1].neighbors.empty());   \
    CHECK(h.nodes[0].neighbor_weights.size() == 1 && h.nodes[0].neighbor_weights[0] == any_u32<21>());                                   \
    CHECK(h.nodes[0].neighbor_observable_indices.size() == 1 && h.nodes[0].neighbor_observable_indices[0].size() == 1 &&                 \
          h.nodes[0].neighbor_observable_indices[0][0] == any_u64<22>());                                                                \
    CHECK(h.nodes[0].neighbor_markers.size() == 1 && h.nodes[0].neighbor_markers[0] == (uint8_t)any_u32<23>());                          \
    CHECK(h.nodes[0].neighbor_implied_weights.size() == 1 && h.nodes[0].neighbor_implied_weights[0].size() == 1);                        \
    CHECK(h.nodes[0].neighbor_implied_weights[0][0].edge0_ptr == any_ptr<24, weight_int>());                                             \
    CHECK(h.nodes[0].neighbor_implied_weights[0][0].edge1_ptr == any_ptr<25, weight_int>());                                             \
    CHECK(h.nodes[0].neighbor_implied_weights[0][0].implied_weight == any_u32<26>());                                                    \
    CHECK(h.num_nodes == any_u64<27>());                                                                                                 \
    CHECK(h.negative_weight_edges.size() == 1 && h.negative_weight_edges[0].first == any_u64<28>() && h.negative_weight_edges[0].second == any_u64<29>()); \
    CHECK(h.previous_weights.size() == 1 && h.previous_weights[0].ptr == (any_ptr<30, weight_int>()) && h.previous_weights[0].val == any_u32<31>()); \
    CHECK(h.edges_to_implied_weights_unconverted.size() == 1 && h.edges_to_implied_weights_unconverted[0].size() == 1);                  \
    CHECK(h.edges_to_implied_weights_unconverted[0][0].size() == 1 && h.edges_to_implied_weights_unconverted[0][0][0].node2 == 2)
static void fill(GraphFlooder& f) {
    f.match_edges.push_back(CompressedEdge{nullptr, nullptr, any_u64<41>()});
    f.negative_weight_detection_events.push_back(any_u64<42>());
    f.negative_weight_observables.push_back(any_u64<43>());
    f.negative_weight_obs_mask = any_u64<44>();
    f.negative_weight_sum = any_time<45>();
    f.queue.cur_time = any_time<46>();
}
#define SAME_FLOODER(h)                                                                                                                 \
    CHECK(h.match_edges.size() == 1 && h.match_edges[0].obs_mask == any_u64<41>());                                                      \
    CHECK(h.negative_weight_detection_events.size() == 1 && h.negative_weight_detection_events[0] == any_u64<42>());                     \
    CHECK(h.negative_weight_observables.size() == 1 && h.negative_weight_observables[0] == any_u64<43>());                               \
    CHECK(h.negative_weight_obs_mask == any_u64<44>() && h.negative_weight_sum == any_time<45>() && h.queue.cur_time == any_time<46>())
//@ moving a matching graph keeps its nodes, edges, negative-weight bookkeeping, boundary marks, scaling and reweighting state
WITNESS(m_graph) {
    OBJ(MatchingGraph, g);
    fill(g);
    DetectorNode* n = &g.nodes[1];
    OBJ(MatchingGraph, h, std::move(g));
    SAME_GRAPH(h, n);
    REACH();
}
//@ moving a search graph keeps its nodes, edges, negative edges and reweighting state
WITNESS(m_search_graph) {
    OBJ(SearchGraph, g);
    fill(g);
    SearchDetectorNode* n = &g.nodes[1];
    OBJ(SearchGraph, h, std::move(g));
    SAME_SEARCH(h, n);
    REACH();
}
//@ a flooder built from a graph holds that graph
WITNESS(m_flooder_from_graph) {
    OBJ(MatchingGraph, g);
    fill(g);
    DetectorNode* n = &g.nodes[1];
    OBJ(GraphFlooder, f, std::move(g));
    SAME_GRAPH(f.graph, n);
    CHECK(f.negative_weight_obs_mask == 0 && f.negative_weight_sum == 0);
    CHECK(f.negative_weight_detection_events.empty() && f.negative_weight_observables.empty() && f.match_edges.empty());
    REACH();
}
//@ moving a flooder keeps its graph and the compiled negative-weight data
WITNESS(m_flooder) {
    OBJ(GraphFlooder, f);
    fill(f.graph);
    fill(f);
    DetectorNode* n = &f.graph.nodes[1];
    OBJ(GraphFlooder, h, std::move(f));
    SAME_GRAPH(h.graph, n);
    SAME_FLOODER(h);
    REACH();
}
//@ a search flooder built from a search graph holds that graph
WITNESS(m_search_from_graph) {
    OBJ(SearchGraph, g);
    fill(g);
    SearchDetectorNode* n = &g.nodes[1];
    OBJ(SearchFlooder, f, std::move(g));
    SAME_SEARCH(f.graph, n);
    REACH();
}
//@ moving a search flooder keeps its graph, queue clock, reached nodes and target
WITNESS(m_search) {
    OBJ(SearchFlooder, f);
    fill(f.graph);
    SearchDetectorNode* n = &f.graph.nodes[1];
    f.reached_nodes.push_back(n);
    f.target_type = BOUNDARY;
    f.queue.cur_time = any_time<50>();
    OBJ(SearchFlooder, h, std::move(f));
    SAME_SEARCH(h.graph, n);
    CHECK(h.reached_nodes.size() == 1 && h.reached_nodes[0] == n && h.target_type == BOUNDARY && h.queue.cur_time == any_time<50>());
    REACH();
}
//@ a decoder built from its two flooders holds both
WITNESS(m_mwpm_from_parts) {
    OBJ(GraphFlooder, f);
    fill(f.graph);
    fill(f);
    OBJ(SearchFlooder, s);
    fill(s.graph);
    DetectorNode* n = &f.graph.nodes[1];
    SearchDetectorNode* m = &s.graph.nodes[1];
    OBJ(Mwpm, w, std::move(f), std::move(s));
    SAME_GRAPH(w.flooder.graph, n);
    SAME_FLOODER(w.flooder);
    SAME_SEARCH(w.search_flooder.graph, m);
    REACH();
}
//@ moving a decoder keeps everything in it
WITNESS(m_mwpm) {
    OBJ(Mwpm, v);
    fill(v.flooder.graph);
    fill(v.flooder);
    fill(v.search_flooder.graph);
    DetectorNode* n = &v.flooder.graph.nodes[1];
    SearchDetectorNode* m = &v.search_flooder.graph.nodes[1];
    OBJ(Mwpm, w, std::move(v));
    SAME_GRAPH(w.flooder.graph, n);
    SAME_FLOODER(w.flooder);
    SAME_SEARCH(w.search_flooder.graph, m);
    REACH();
}
//@ move-assigning a decoder keeps everything in the new one
WITNESS(m_mwpm_assign) {
    OBJ(Mwpm, v);
    fill(v.flooder.graph);
    fill(v.flooder);
    fill(v.search_flooder.graph);
    DetectorNode* n = &v.flooder.graph.nodes[1];
    SearchDetectorNode* m = &v.search_flooder.graph.nodes[1];
    OBJ(Mwpm, w);
    w = std::move(v);
    SAME_GRAPH(w.flooder.graph, n);
    SAME_FLOODER(w.flooder);
    SAME_SEARCH(w.search_flooder.graph, m);
    REACH();
}
