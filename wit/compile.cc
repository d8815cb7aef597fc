//! property: R15
//! target: pm::UserGraph::to_matching_graph / to_search_graph / to_mwpm
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY
// From the user's graph to the decoder's graphs: every edge arrives once, in both graphs alike, with its observables and its
// weight scaled by the common constant, rounded and doubled.
#include "driver.h"
#include "reject.h"
inline void at_throw(int mode) {
}
// The scale factor is decided separately (wit/scale.cc); here it is arbitrary.
double UserGraph::get_edge_weight_normalising_constant(size_t) {
    return any_d<99>();
}
// weight after scaling, rounding and doubling; the caller's weights are such that this fits
inline signed_weight_int scaled(double w) {
    return (signed_weight_int)__builtin_round(w * any_d<99>()) * 2;
}
// get_edge_weight_normalising_constant keeps every scaled weight below the number of distinct weights, 1 << 24 (wit/scale.cc)
inline void fits(double w) {
    auto t = (signed_weight_int)__builtin_round(w * any_d<99>());
    ASSUME(t > -(1 << 28) && t < (1 << 28));
}
inline weight_int mag(signed_weight_int w) {
    return w < 0 ? -w : w;
}
//@ a plain edge in the matching graph
WITNESS(c_edge) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    size_t o = any_u64<3>() & 31;
    g.add_or_merge_edge(2, 1, {o}, any_d<1>(), 0.1, DISALLOW);
    g.set_min_num_observables(40);
    auto m = g.to_matching_graph(any_u32<4>());
    fits(any_d<1>());
    CHECK(m.nodes.size() == 3 && m.num_observables == 40 && bits(m.normalising_constant, any_d<99>() * 2));
    CHECK(m.nodes[0].neighbors.size() == 0 && m.nodes[1].neighbors.size() == 1 && m.nodes[2].neighbors.size() == 1);
    CHECK(m.nodes[1].neighbors[0] - m.nodes[2].neighbors[0] == 1);
    CHECK(m.nodes[1].neighbor_weights[0] == mag(scaled(any_d<1>())) && m.nodes[2].neighbor_weights[0] == mag(scaled(any_d<1>())));
    CHECK((m.nodes[1].neighbor_weights[0] & 1) == 0);
    CHECK(m.nodes[1].neighbor_observables[0] == (obs_int)1 << o && m.nodes[2].neighbor_observables[0] == (obs_int)1 << o);
    REACH();
}
//@ a plain edge in the search graph
WITNESS(c_search_edge) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_edge(2, 1, {any_obs<3>(), any_obs<4>()}, any_d<1>(), 0.1, DISALLOW);
    auto m = g.to_search_graph(any_u32<4>());
    fits(any_d<1>());
    CHECK(m.nodes.size() == 3);
    CHECK(m.nodes[0].neighbors.size() == 0 && m.nodes[1].neighbors.size() == 1 && m.nodes[2].neighbors.size() == 1);
    CHECK(m.nodes[1].neighbors[0] - m.nodes[2].neighbors[0] == 1);
    CHECK(m.nodes[1].neighbor_weights[0] == mag(scaled(any_d<1>())) && m.nodes[2].neighbor_weights[0] == mag(scaled(any_d<1>())));
    CHECK((m.nodes[1].neighbor_weights[0] & 1) == 0);
    auto& o1 = m.nodes[1].neighbor_observable_indices[0];
    auto& o2 = m.nodes[2].neighbor_observable_indices[0];
    CHECK(o1.size() == 2 && o1[0] == any_obs<3>() && o1[1] == any_obs<4>());
    CHECK(o2.size() == 2 && o2[0] == any_obs<3>() && o2[1] == any_obs<4>());
    REACH();
}
//@ boundary edge, and an edge to a boundary node given in either order, in the matching graph
inline void is_boundary_of(DetectorNode& n, double w, obs_int o) {
    fits(w);
    CHECK(n.neighbors.size() == 1 && n.neighbors[0] == nullptr);
    CHECK(n.neighbor_weights[0] == mag(scaled(w)));
    CHECK(n.neighbor_observables[0] == o);
}
WITNESS(c_boundary) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_boundary_edge(1, {5}, any_d<1>(), 0.1, DISALLOW);
    auto m = g.to_matching_graph(any_u32<4>());
    CHECK(m.nodes.size() == 2 && m.nodes[0].neighbors.size() == 0 && m.num_observables == 6);
    is_boundary_of(m.nodes[1], any_d<1>(), 32);
    CHECK(m.is_user_graph_boundary_node.size() == 0);
    REACH();
}
WITNESS(c_boundary_node) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_edge(0, 2, {5}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_edge(2, 1, {6}, any_d<2>(), 0.1, DISALLOW);
    g.set_boundary({2});
    ASSUME(scaled(any_d<1>()) >= 0 && scaled(any_d<2>()) >= 0);
    auto m = g.to_matching_graph(any_u32<4>());
    CHECK(m.nodes.size() == 3 && m.nodes[2].neighbors.size() == 0);
    is_boundary_of(m.nodes[0], any_d<1>(), 32);
    is_boundary_of(m.nodes[1], any_d<2>(), 64);
    CHECK(m.is_user_graph_boundary_node.size() == 3 && !m.is_user_graph_boundary_node[0] && !m.is_user_graph_boundary_node[1] && m.is_user_graph_boundary_node[2]);
    REACH();
}
//@ an edge inside the boundary vanishes
WITNESS(c_boundary_inside) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_edge(0, 2, {5}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(2, {6}, any_d<2>(), 0.1, DISALLOW);
    g.set_boundary({0, 2});
    auto m = g.to_matching_graph(any_u32<4>());
    CHECK(m.nodes.size() == 3 && m.nodes[0].neighbors.size() == 0 && m.nodes[1].neighbors.size() == 0 && m.nodes[2].neighbors.size() == 0);
    CHECK(m.negative_weight_sum == 0);
    REACH();
}
WITNESS(c_search_boundary_node) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_edge(0, 2, {any_obs<5>()}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(1, {any_obs<6>()}, any_d<2>(), 0.1, DISALLOW);
    g.set_boundary({2});
    auto m = g.to_search_graph(any_u32<4>());
    fits(any_d<1>());
    fits(any_d<2>());
    CHECK(m.nodes.size() == 3 && m.nodes[2].neighbors.size() == 0);
    CHECK(m.nodes[0].neighbors.size() == 1 && m.nodes[0].neighbors[0] == nullptr && m.nodes[0].neighbor_weights[0] == mag(scaled(any_d<1>())));
    CHECK(m.nodes[0].neighbor_observable_indices[0].size() == 1 && m.nodes[0].neighbor_observable_indices[0][0] == any_obs<5>());
    CHECK(m.nodes[1].neighbors.size() == 1 && m.nodes[1].neighbors[0] == nullptr && m.nodes[1].neighbor_weights[0] == mag(scaled(any_d<2>())));
    CHECK(m.nodes[1].neighbor_observable_indices[0].size() == 1 && m.nodes[1].neighbor_observable_indices[0][0] == any_obs<6>());
    REACH();
}
//@ of several edges from a detector to the boundary, the lightest is used, whatever the order
WITNESS(c_parallel_boundary) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_boundary_edge(0, {1}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_edge(0, 2, {2}, any_d<2>(), 0.1, DISALLOW);
    g.set_boundary({2});
    auto a = scaled(any_d<1>()), b = scaled(any_d<2>());
    ASSUME(a >= 0 && b >= 0);
    auto m = g.to_matching_graph(any_u32<4>());
    auto& n = m.nodes[0];
    CHECK(n.neighbors.size() == 1 && n.neighbors[0] == nullptr);
    if (a < b)
        CHECK(n.neighbor_weights[0] == a && n.neighbor_observables[0] == 2);
    else if (b < a)
        CHECK(n.neighbor_weights[0] == b && n.neighbor_observables[0] == 4);
    else
        CHECK(n.neighbor_weights[0] == a);
    REACH();
}
// NA, NB: the first / second of two such edges has a negative weight
template <bool NA, bool NB>
inline void parallel_signed() {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_boundary_edge(0, {1}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_edge(0, 2, {2}, any_d<2>(), 0.1, DISALLOW);
    g.set_boundary({2});
    auto a = scaled(any_d<1>()), b = scaled(any_d<2>());
    ASSUME((uint32_t)a >> 30 == (NA ? 3 : 0) && (uint32_t)b >> 30 == (NB ? 3 : 0) && (NA ? a < b : b < a));
    auto m = g.to_matching_graph(any_u32<4>());
    auto& n = m.nodes[0];
    CHECK(n.neighbors.size() == 1 && n.neighbors[0] == nullptr);
    if (NA)
        CHECK(n.neighbor_weights[0] == -a && n.neighbor_observables[0] == 2 && m.negative_weight_sum == a);
    else
        CHECK(n.neighbor_weights[0] == -b && n.neighbor_observables[0] == 4 && m.negative_weight_sum == b);
    CHECK(m.negative_weight_detection_events_set.size() == 1 && m.negative_weight_observables_set.size() == 1);
    REACH();
}
//@ ... also among negative weights, which are lighter than all others
WITNESS(c_parallel_negative_first) { parallel_signed<true, false>(); }
WITNESS(c_parallel_negative_second) { parallel_signed<false, true>(); }
WITNESS(c_parallel_negative_both) { parallel_signed<true, true>(); }
WITNESS(c_parallel_boundary_search) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_boundary_edge(0, {1}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_edge(0, 2, {2}, any_d<2>(), 0.1, DISALLOW);
    g.set_boundary({2});
    auto a = scaled(any_d<1>()), b = scaled(any_d<2>());
    ASSUME(a >= 0 && b >= 0);
    auto m = g.to_search_graph(any_u32<4>());
    auto& n = m.nodes[0];
    CHECK(n.neighbors.size() == 1 && n.neighbors[0] == nullptr && n.neighbor_observable_indices[0].size() == 1);
    if (a < b)
        CHECK(n.neighbor_weights[0] == a && n.neighbor_observable_indices[0][0] == 1);
    else if (b < a)
        CHECK(n.neighbor_weights[0] == b && n.neighbor_observable_indices[0][0] == 2);
    else
        CHECK(n.neighbor_weights[0] == a);
    REACH();
}
//@ boundary edges of different detectors do not mix
WITNESS(c_two_boundaries) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_boundary_edge(1, {1}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(0, {2}, any_d<2>(), 0.1, DISALLOW);
    ASSUME(scaled(any_d<1>()) >= 0 && scaled(any_d<2>()) >= 0);
    auto m = g.to_matching_graph(any_u32<4>());
    is_boundary_of(m.nodes[1], any_d<1>(), 2);
    is_boundary_of(m.nodes[0], any_d<2>(), 4);
    REACH();
}
//@ correlations travel with their edge, scaled alike, in both graphs, and refer to the stored weights of the implied edge
inline weight_int scaled_implied(double w) {
    return mag((signed_weight_int)__builtin_round(w * (any_d<99>() * 2 / 2)) * 2);
}
template <class N>
inline void implies(N& n, size_t k, weight_int* a, weight_int* b, double w) {
    auto& iw = n.neighbor_implied_weights[k];
    CHECK(iw.size() == 1);
    CHECK((iw[0].edge0_ptr == a && iw[0].edge1_ptr == b) || (b && iw[0].edge0_ptr == b && iw[0].edge1_ptr == a));
    fits(w);
    CHECK(iw[0].implied_weight == scaled_implied(w));
    CHECK((iw[0].implied_weight & 1) == 0);
}
template <class GRAPH>
inline GRAPH build(UserGraph& g) {
    if constexpr (std::is_same_v<GRAPH, MatchingGraph>)
        return g.to_matching_graph(any_u32<4>());
    else
        return g.to_search_graph(any_u32<4>());
}
template <class GRAPH>
inline void implied_edge() {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_edge(0, 1, {}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_edge(1, 2, {}, any_d<2>(), 0.1, DISALLOW);
    g.edges.front().implied_weights_for_other_edges.push_back({1, 2, any_d<3>()});
    ASSUME(scaled(any_d<1>()) >= 0 && scaled(any_d<2>()) >= 0);
    auto m = build<GRAPH>(g);
    implies(m.nodes[0], 0, &m.nodes[1].neighbor_weights[1], &m.nodes[2].neighbor_weights[0], any_d<3>());
    implies(m.nodes[1], 0, &m.nodes[1].neighbor_weights[1], &m.nodes[2].neighbor_weights[0], any_d<3>());
    CHECK(m.nodes[1].neighbor_implied_weights[1].size() == 0 && m.nodes[2].neighbor_implied_weights[0].size() == 0);
    REACH();
}
WITNESS(c_implied) { implied_edge<MatchingGraph>(); }
WITNESS(c_implied_search) { implied_edge<SearchGraph>(); }
//@ ... between an edge and a boundary edge, both ways
template <class GRAPH>
inline void implied_boundary() {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(0, 1, {}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(1, {}, any_d<2>(), 0.1, DISALLOW);
    g.edges.front().implied_weights_for_other_edges.push_back({1, SIZE_MAX, any_d<3>()});
    g.edges.back().implied_weights_for_other_edges.push_back({0, 1, any_d<5>()});
    ASSUME(scaled(any_d<1>()) >= 0 && scaled(any_d<2>()) >= 0);
    auto m = build<GRAPH>(g);
    implies(m.nodes[0], 0, &m.nodes[1].neighbor_weights[0], nullptr, any_d<3>());
    implies(m.nodes[1], 1, &m.nodes[1].neighbor_weights[0], nullptr, any_d<3>());
    implies(m.nodes[1], 0, &m.nodes[0].neighbor_weights[0], &m.nodes[1].neighbor_weights[1], any_d<5>());
    REACH();
}
WITNESS(c_implied_boundary) { implied_boundary<MatchingGraph>(); }
WITNESS(c_implied_boundary_search) { implied_boundary<SearchGraph>(); }
//@ ... carried by an edge to a boundary node
template <class GRAPH, bool FIRST>
inline void implied_boundary_node() {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_edge(FIRST ? 2 : 0, FIRST ? 0 : 2, {}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_edge(0, 1, {}, any_d<2>(), 0.1, DISALLOW);
    g.edges.front().implied_weights_for_other_edges.push_back({0, 1, any_d<3>()});
    g.set_boundary({2});
    ASSUME(scaled(any_d<1>()) >= 0 && scaled(any_d<2>()) >= 0);
    auto m = build<GRAPH>(g);
    CHECK(m.nodes[0].neighbors[0] == nullptr && m.nodes[0].neighbors.size() == 2);
    implies(m.nodes[0], 0, &m.nodes[0].neighbor_weights[1], &m.nodes[1].neighbor_weights[0], any_d<3>());
    CHECK(m.nodes[0].neighbor_implied_weights[1].size() == 0 && m.nodes[1].neighbor_implied_weights[0].size() == 0);
    REACH();
}
WITNESS(c_implied_boundary_node) { implied_boundary_node<MatchingGraph, false>(); }
WITNESS(c_implied_boundary_node_first) { implied_boundary_node<MatchingGraph, true>(); }
WITNESS(c_implied_boundary_node_search) { implied_boundary_node<SearchGraph, true>(); }
//@ ... of parallel boundary edges, those of the edge that is used and no others
template <class GRAPH, bool SECOND, bool ONLY>
inline void implied_parallel() {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_boundary_edge(0, {}, any_d<1>(), 0.1, DISALLOW);
    if (!ONLY || !SECOND)
        g.edges.back().implied_weights_for_other_edges.push_back({0, 1, any_d<3>()});
    g.add_or_merge_edge(0, 2, {}, any_d<2>(), 0.1, DISALLOW);
    if (!ONLY || SECOND)
        g.edges.back().implied_weights_for_other_edges.push_back({0, 1, any_d<5>()});
    g.add_or_merge_edge(0, 1, {}, any_d<7>(), 0.1, DISALLOW);
    g.set_boundary({2});
    auto a = scaled(any_d<1>()), b = scaled(any_d<2>());
    ASSUME(a >= 0 && b >= 0 && scaled(any_d<7>()) >= 0 && (SECOND ? b < a : a < b));
    auto m = build<GRAPH>(g);
    CHECK(m.nodes[0].neighbors[0] == nullptr && m.nodes[0].neighbors.size() == 2);
    if (SECOND)
        implies(m.nodes[0], 0, &m.nodes[0].neighbor_weights[1], &m.nodes[1].neighbor_weights[0], any_d<5>());
    else
        implies(m.nodes[0], 0, &m.nodes[0].neighbor_weights[1], &m.nodes[1].neighbor_weights[0], any_d<3>());
    CHECK(m.nodes[0].neighbor_implied_weights[1].size() == 0 && m.nodes[1].neighbor_implied_weights[0].size() == 0);
    REACH();
}
WITNESS(c_implied_parallel_first) { implied_parallel<MatchingGraph, false, false>(); }
WITNESS(c_implied_parallel_second) { implied_parallel<MatchingGraph, true, false>(); }
WITNESS(c_implied_parallel_first_only) { implied_parallel<MatchingGraph, false, true>(); }
WITNESS(c_implied_parallel_second_only) { implied_parallel<MatchingGraph, true, true>(); }
WITNESS(c_implied_parallel_search) { implied_parallel<SearchGraph, true, false>(); }
//@ ... none when the edge that is used implies nothing
WITNESS(c_implied_parallel_none) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_boundary_edge(0, {}, any_d<1>(), 0.1, DISALLOW);
    g.edges.back().implied_weights_for_other_edges.push_back({0, 1, any_d<3>()});
    g.add_or_merge_edge(0, 2, {}, any_d<2>(), 0.1, DISALLOW);
    g.add_or_merge_edge(0, 1, {}, any_d<7>(), 0.1, DISALLOW);
    g.set_boundary({2});
    auto a = scaled(any_d<1>()), b = scaled(any_d<2>());
    ASSUME(a >= 0 && b >= 0 && scaled(any_d<7>()) >= 0 && b < a);
    auto m = g.to_matching_graph(any_u32<4>());
    CHECK(m.nodes[0].neighbor_implied_weights[0].size() == 0);
    REACH();
}
//@ the decoder is built from both graphs when it must be, and knows about negative weights
WITNESS(c_mwpm_plain) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(0, 1, {7}, any_d<1>(), 0.1, DISALLOW);
    g.loaded_from_dem_without_correlations = any_u64<5>() & 1;
    ASSUME(scaled(any_d<1>()) >= 0);
    auto m = g.to_mwpm(any_u32<4>(), false);
    CHECK(m.flooder.graph.nodes.size() == 2 && m.search_flooder.graph.nodes.size() == 0 && m.flooder.graph.num_observables == 8);
    CHECK(m.flooder.graph.loaded_from_dem_without_correlations == (any_u64<5>() & 1));
    CHECK(m.flooder.negative_weight_detection_events.size() == 0 && m.flooder.negative_weight_obs_mask == 0 && m.flooder.negative_weight_sum == 0);
    REACH();
}
WITNESS(c_mwpm_plain_negative) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(0, 1, {7}, any_d<1>(), 0.1, DISALLOW);
    g.loaded_from_dem_without_correlations = any_u64<5>() & 1;
    signed_weight_int w = scaled(any_d<1>());
    ASSUME(w < 0 && w > -(1 << 30));
    auto m = g.to_mwpm(any_u32<4>(), false);
    CHECK(m.flooder.graph.nodes.size() == 2 && m.search_flooder.graph.nodes.size() == 0 && m.flooder.graph.num_observables == 8);
    CHECK(m.flooder.graph.loaded_from_dem_without_correlations == (any_u64<5>() & 1));
    CHECK(m.flooder.negative_weight_detection_events.size() == 2 && m.flooder.negative_weight_obs_mask == 128 && m.flooder.negative_weight_sum == w);
    CHECK(m.flooder.negative_weight_observables.size() == 1 && m.flooder.negative_weight_observables[0] == 7);
    REACH();
}
WITNESS(c_mwpm_search) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(0, 1, {7}, any_d<1>(), 0.1, DISALLOW);
    g.loaded_from_dem_without_correlations = any_u64<5>() & 1;
    ASSUME(scaled(any_d<1>()) >= 0);
    auto m = g.to_mwpm(any_u32<4>(), true);
    CHECK(m.flooder.graph.nodes.size() == 2 && m.search_flooder.graph.nodes.size() == 2);
    CHECK(m.flooder.graph.loaded_from_dem_without_correlations == (any_u64<5>() & 1));
    CHECK(m.search_flooder.graph.nodes[0].neighbor_weights[0] == m.flooder.graph.nodes[0].neighbor_weights[0]);
    CHECK(m.flooder.negative_weight_detection_events.size() == 0 && m.flooder.negative_weight_obs_mask == 0 && m.flooder.negative_weight_sum == 0);
    CHECK(m.search_flooder.graph.negative_weight_edges.size() == 0);
    REACH();
}
WITNESS(c_mwpm_search_negative) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(0, 1, {7}, any_d<1>(), 0.1, DISALLOW);
    g.loaded_from_dem_without_correlations = any_u64<5>() & 1;
    signed_weight_int w = scaled(any_d<1>());
    ASSUME(w < 0 && w > -(1 << 30));
    auto m = g.to_mwpm(any_u32<4>(), true);
    CHECK(m.flooder.graph.nodes.size() == 2 && m.search_flooder.graph.nodes.size() == 2);
    CHECK(m.flooder.graph.loaded_from_dem_without_correlations == (any_u64<5>() & 1));
    CHECK(m.search_flooder.graph.nodes[0].neighbor_weights[0] == m.flooder.graph.nodes[0].neighbor_weights[0]);
    CHECK(m.flooder.negative_weight_detection_events.size() == 2 && m.flooder.negative_weight_obs_mask == 128 && m.flooder.negative_weight_sum == w);
    CHECK(m.search_flooder.graph.negative_weight_edges.size() == 1);
    REACH();
}
//@ more than 64 observables need the search graph
WITNESS(c_mwpm_many) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(0, 1, {64}, any_d<1>(), 0.1, DISALLOW);
    ASSUME(scaled(any_d<1>()) >= 0);
    auto m = g.to_mwpm(any_u32<4>(), false);
    CHECK(m.flooder.graph.nodes.size() == 2 && m.search_flooder.graph.nodes.size() == 2);
    CHECK(m.search_flooder.graph.nodes[0].neighbor_observable_indices[0].size() == 1 && m.search_flooder.graph.nodes[0].neighbor_observable_indices[0][0] == 64);
    REACH();
}
