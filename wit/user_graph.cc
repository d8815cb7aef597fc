//! property: R12
//! target: pm::UserGraph edges and merging
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY
// The user's graph: what was added is what is there, parallel edges follow the chosen strategy, a rejected edge changes
// nothing, and every change is noted for the next decoding.
#include "driver.h"
#include "reject.h"
static UserGraph* G;
// the first edge of every merge witness
constexpr size_t A = 0, B = 1;
// a graph with one edge (or boundary edge) of weight any_d<1>, probability any_d<2>, observable any_obs<3>
inline void first(UserGraph& g, bool boundary) {
    if (boundary)
        g.add_or_merge_boundary_edge(A, {any_obs<3>()}, any_d<1>(), any_d<2>(), DISALLOW);
    else
        g.add_or_merge_edge(A, B, {any_obs<3>()}, any_d<1>(), any_d<2>(), DISALLOW);
    mark_built(g);
}
inline void second(UserGraph& g, bool boundary, MERGE_STRATEGY s) {
    if (boundary)
        g.add_or_merge_boundary_edge(A, {any_obs<6>(), any_obs<7>()}, any_d<4>(), any_d<5>(), s);
    else
        g.add_or_merge_edge(A, B, {any_obs<6>(), any_obs<7>()}, any_d<4>(), any_d<5>(), s);
}
inline void second_reversed(UserGraph& g, MERGE_STRATEGY s) {
    g.add_or_merge_edge(B, A, {any_obs<6>(), any_obs<7>()}, any_d<4>(), any_d<5>(), s);
}
inline void is_original(UserGraph& g) {
    auto& e = g.edges.front();
    CHECK(g.edges.size() == 1 && g.nodes[A].neighbors.size() == 1);
    CHECK(bits(e.weight, any_d<1>()) && bits(e.error_probability, any_d<2>()));
    CHECK(e.observable_indices.size() == 1 && e.observable_indices[0] == any_obs<3>());
    CHECK(g.get_num_observables() == any_obs<3>() + 1);
}
inline void is_replaced(UserGraph& g) {
    auto& e = g.edges.front();
    CHECK(g.edges.size() == 1 && g.nodes[A].neighbors.size() == 1);
    CHECK(bits(e.weight, any_d<4>()) && bits(e.error_probability, any_d<5>()));
    CHECK(e.observable_indices.size() == 2 && e.observable_indices[0] == any_obs<6>() && e.observable_indices[1] == any_obs<7>());
    CHECK(rebuilds(g));
}
inline void counts_observables(UserGraph& g) {
    size_t n = g.get_num_observables() - 1;
    CHECK(n >= any_obs<3>() && n >= any_obs<6>() && n >= any_obs<7>());
    if (any_obs<3>() <= any_obs<6>() && any_obs<7>() <= any_obs<6>())
        CHECK(n == any_obs<6>());
}
inline void at_throw(int mode) {
    is_original(*G);
}
inline bool valid(double p) {
    return p >= 0 && p <= 1;
}

//@ a new edge: recorded once with the given data, visible from both ends
WITNESS(u_edge) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    mark_built(g);
    g.add_or_merge_edge(2, 1, {any_obs<3>(), any_obs<4>()}, any_d<1>(), any_d<2>(), INDEPENDENT);
    CHECK(g.edges.size() == 1 && g.nodes.size() == 3 && g.get_num_edges() == 1 && g.get_num_nodes() == 3);
    auto& e = g.edges.front();
    CHECK(e.node1 == 2 && e.node2 == 1 && bits(e.weight, any_d<1>()) && bits(e.error_probability, any_d<2>()));
    CHECK(e.observable_indices.size() == 2 && e.observable_indices[0] == any_obs<3>() && e.observable_indices[1] == any_obs<4>());
    CHECK(e.implied_weights_for_other_edges.size() == 0);
    CHECK(g.has_edge(2, 1) && g.has_edge(1, 2) && !g.has_edge(0, 1) && !g.has_edge(2, 0) && !g.has_edge(2, 2) && !g.has_edge(1, 1));
    CHECK(!g.has_boundary_edge(0) && !g.has_boundary_edge(1) && !g.has_boundary_edge(2));
    CHECK(g.nodes[0].neighbors.size() == 0 && g.nodes[1].neighbors.size() == 1 && g.nodes[2].neighbors.size() == 1);
    CHECK(rebuilds(g));
    CHECK(g.get_num_observables() == later(any_obs<3>(), any_obs<4>()) + 1);
    double w;
    CHECK(g.get_edge_or_boundary_edge_weight(1, 2, w) && bits(w, any_d<1>()));
    CHECK(!g.get_edge_or_boundary_edge_weight(1, SIZE_MAX, w));
    REACH();
}
//@ an edge to a node not there yet creates it
WITNESS(u_edge_grows) {
    on_throw = 0;
    OBJ(UserGraph, g, 1);
    g.add_or_merge_edge(3, 0, {}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.get_num_nodes() == 4 && g.get_num_detectors() == 4 && g.has_edge(0, 3) && g.has_edge(3, 0));
    CHECK(!g.is_boundary_node(0) && !g.is_boundary_node(1) && !g.is_boundary_node(2) && !g.is_boundary_node(3));
    CHECK(g.get_num_observables() == 0);
    g.add_or_merge_boundary_edge(4, {}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.get_num_nodes() == 5 && g.has_boundary_edge(4) && !g.has_boundary_edge(3) && g.edges.size() == 2);
    CHECK(!g.has_edge(5, 0) && !g.has_edge(0, 5) && !g.has_boundary_edge(5));
    REACH();
}
//@ ... also when it is just beyond the last one, at either end
WITNESS(u_edge_next) {
    on_throw = 0;
    OBJ(UserGraph, g, 1);
    g.add_or_merge_edge(0, 1, {}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.get_num_nodes() == 2 && g.has_edge(0, 1) && g.has_edge(1, 0));
    g.add_or_merge_edge(2, 1, {}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.get_num_nodes() == 3 && g.has_edge(1, 2) && g.has_edge(2, 1));
    g.add_or_merge_boundary_edge(3, {}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.get_num_nodes() == 4 && g.has_boundary_edge(3) && g.edges.size() == 3);
    REACH();
}
//@ a self-loop is recorded once
WITNESS(u_self_loop) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(1, 1, {}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.edges.size() == 1 && g.nodes[1].neighbors.size() == 1 && g.has_edge(1, 1) && !g.has_edge(0, 1) && !g.has_edge(1, 0));
    REACH();
}
//@ a new boundary edge
WITNESS(u_boundary_edge) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    mark_built(g);
    g.add_or_merge_boundary_edge(1, {any_obs<3>()}, any_d<1>(), any_d<2>(), INDEPENDENT);
    CHECK(g.edges.size() == 1 && g.nodes.size() == 2);
    auto& e = g.edges.front();
    CHECK(e.node1 == 1 && e.node2 == SIZE_MAX && bits(e.weight, any_d<1>()) && bits(e.error_probability, any_d<2>()));
    CHECK(e.observable_indices.size() == 1 && e.observable_indices[0] == any_obs<3>());
    CHECK(g.has_boundary_edge(1) && !g.has_boundary_edge(0) && !g.has_edge(0, 1) && !g.has_edge(1, 0));
    CHECK(g.nodes[1].neighbors.size() == 1 && g.nodes[0].neighbors.size() == 0);
    CHECK(rebuilds(g) && g.get_num_observables() == any_obs<3>() + 1);
    double w;
    CHECK(g.get_edge_or_boundary_edge_weight(1, SIZE_MAX, w) && bits(w, any_d<1>()));
    REACH();
}
//@ distinct edges at one node do not merge, whatever the strategy
WITNESS(u_distinct) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    auto s = (MERGE_STRATEGY)(any_u64<9>() % 5);
    g.add_or_merge_edge(0, 1, {}, any_d<1>(), 0.1, s);
    g.add_or_merge_edge(2, 0, {}, any_d<2>(), 0.1, s);
    g.add_or_merge_boundary_edge(0, {}, any_d<3>(), 0.1, s);
    CHECK(g.edges.size() == 3 && g.nodes[0].neighbors.size() == 3 && g.nodes[1].neighbors.size() == 1 && g.nodes[2].neighbors.size() == 1);
    double w = 0;
    CHECK(g.get_edge_or_boundary_edge_weight(0, 1, w) && bits(w, any_d<1>()));
    CHECK(g.get_edge_or_boundary_edge_weight(1, 0, w) && bits(w, any_d<1>()));
    CHECK(g.get_edge_or_boundary_edge_weight(0, 2, w) && bits(w, any_d<2>()));
    CHECK(g.get_edge_or_boundary_edge_weight(2, 0, w) && bits(w, any_d<2>()));
    CHECK(g.get_edge_or_boundary_edge_weight(0, SIZE_MAX, w) && bits(w, any_d<3>()));
    CHECK(!g.get_edge_or_boundary_edge_weight(1, 2, w) && !g.get_edge_or_boundary_edge_weight(7, 0, w));
    REACH();
}
//@ disallow: a parallel edge is rejected and changes nothing
WITNESS(u_disallow) {
    OBJ(UserGraph, g, 2);
    first(g, false);
    G = &g;
    on_throw = 1;
    second(g, false, DISALLOW);
    ACCEPTED();
}
WITNESS(u_disallow_reversed) {
    OBJ(UserGraph, g, 2);
    first(g, false);
    G = &g;
    on_throw = 1;
    second_reversed(g, DISALLOW);
    ACCEPTED();
}
WITNESS(u_disallow_boundary) {
    OBJ(UserGraph, g, 2);
    first(g, true);
    G = &g;
    on_throw = 1;
    second(g, true, DISALLOW);
    ACCEPTED();
}
//@ keep-original: the first edge stays
WITNESS(u_keep) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, false);
    second(g, false, KEEP_ORIGINAL);
    is_original(g);
    CHECK(g.nodes[B].neighbors.size() == 1);
    REACH();
}
WITNESS(u_keep_boundary) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, true);
    second(g, true, KEEP_ORIGINAL);
    is_original(g);
    REACH();
}
//@ replace: the second edge takes over weight, probability and observables
WITNESS(u_replace) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, false);
    second(g, false, REPLACE);
    is_replaced(g);
    CHECK(g.nodes[B].neighbors.size() == 1);
    counts_observables(g);
    REACH();
}
WITNESS(u_replace_reversed) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, false);
    second_reversed(g, REPLACE);
    is_replaced(g);
    counts_observables(g);
    REACH();
}
WITNESS(u_replace_boundary) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, true);
    second(g, true, REPLACE);
    is_replaced(g);
    CHECK(g.edges.front().node1 == A && g.edges.front().node2 == SIZE_MAX);
    counts_observables(g);
    REACH();
}
//@ smallest-weight: the lighter edge wins
WITNESS(u_smallest_keeps) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, any_u64<8>() & 1);
    ASSUME(any_d<4>() >= any_d<1>());
    second(g, any_u64<8>() & 1, SMALLEST_WEIGHT);
    is_original(g);
    REACH();
}
WITNESS(u_smallest_takes) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, false);
    ASSUME(any_d<4>() < any_d<1>());
    second(g, false, SMALLEST_WEIGHT);
    is_replaced(g);
    counts_observables(g);
    REACH();
}
WITNESS(u_smallest_takes_boundary) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, true);
    ASSUME(any_d<4>() < any_d<1>());
    second(g, true, SMALLEST_WEIGHT);
    is_replaced(g);
    REACH();
}
//@ independent: weights merge, probabilities combine to the chance of exactly one of the two, observables stay
WITNESS(u_independent) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, false);
    ASSUME(valid(any_d<2>()) && valid(any_d<5>()));
    second(g, false, INDEPENDENT);
    auto& e = g.edges.front();
    CHECK(g.edges.size() == 1 && g.nodes[A].neighbors.size() == 1 && g.nodes[B].neighbors.size() == 1);
    CHECK(e.observable_indices.size() == 1 && e.observable_indices[0] == any_obs<3>());
    CHECK(rebuilds(g));
    REACH();
}
// log((1 - p) / p) for the values used below
constexpr double W_8 = 1.9459101490553132, W_4 = 1.0986122886681098, W_5_16 = 0.78845736036427016941;
inline bool near(double a, double b) {
    return a - b < 1e-9 && b - a < 1e-9;
}
//@ independent: the merged weight and probability, at fixed probabilities 1/8 and 1/4 (5/16 for exactly one of them), both orders and signs
WITNESS(u_independent_value) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(A, B, {}, W_8, 0.125, DISALLOW);
    g.add_or_merge_edge(B, A, {}, W_4, 0.25, INDEPENDENT);
    CHECK(near(g.edges.front().error_probability, 0.3125));
    CHECK(near(g.edges.front().weight, W_5_16));
    g.add_or_merge_boundary_edge(A, {}, W_4, 0.25, DISALLOW);
    g.add_or_merge_boundary_edge(A, {}, W_8, 0.125, INDEPENDENT);
    CHECK(near(g.edges.back().error_probability, 0.3125));
    CHECK(near(g.edges.back().weight, W_5_16));
    CHECK(g.all_edges_have_error_probabilities());
    REACH();
}
WITNESS(u_independent_value_negative) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(A, B, {}, -W_8, 0.875, DISALLOW);
    g.add_or_merge_edge(A, B, {}, W_4, 0.25, INDEPENDENT);
    CHECK(near(g.edges.front().error_probability, 0.6875));
    CHECK(near(g.edges.front().weight, -W_5_16));
    g.add_or_merge_boundary_edge(A, {}, -W_8, 0.875, DISALLOW);
    g.add_or_merge_boundary_edge(A, {}, -W_4, 0.75, INDEPENDENT);
    CHECK(near(g.edges.back().error_probability, 0.3125));
    CHECK(near(g.edges.back().weight, W_5_16));
    REACH();
}
//@ independent: large weights neither overflow nor vanish
WITNESS(u_independent_value_large) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(A, B, {}, 400, 0, DISALLOW);
    g.add_or_merge_edge(A, B, {}, 200, 0, INDEPENDENT);
    CHECK(near(g.edges.front().weight, 200));
    g.add_or_merge_boundary_edge(A, {}, 200, 0, DISALLOW);
    g.add_or_merge_boundary_edge(A, {}, -400, 1, INDEPENDENT);
    CHECK(near(g.edges.back().weight, -200));
    CHECK(near(g.edges.back().error_probability, 1));
    REACH();
}
//@ an edge without a known probability is remembered
WITNESS(u_unknown_probability) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    CHECK(g.all_edges_have_error_probabilities());
    g.add_or_merge_edge(0, 1, {}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.all_edges_have_error_probabilities() == !(any_d<2>() < 0 || any_d<2>() > 1));
    REACH();
}
WITNESS(u_unknown_probability_boundary) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_boundary_edge(0, {}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.all_edges_have_error_probabilities() == !(any_d<2>() < 0 || any_d<2>() > 1));
    REACH();
}
WITNESS(u_unknown_probability_replace) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, false);
    ASSUME(valid(any_d<2>()) && (any_d<5>() < 0 || any_d<5>() > 1));
    CHECK(g.all_edges_have_error_probabilities());
    second(g, false, REPLACE);
    CHECK(!g.all_edges_have_error_probabilities());
    REACH();
}
WITNESS(u_unknown_probability_merge) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    first(g, false);
    ASSUME(valid(any_d<2>()) && (any_d<5>() < 0 || any_d<5>() > 1));
    CHECK(g.all_edges_have_error_probabilities());
    second(g, false, INDEPENDENT);
    CHECK(!g.all_edges_have_error_probabilities());
    CHECK(g.edges.front().error_probability < 0);
    REACH();
}
//@ the number of observables can be raised, never lowered
WITNESS(u_min_observables) {
    on_throw = 0;
    OBJ(UserGraph, g, 3, 5);
    g.set_min_num_observables(2);
    CHECK(g.get_num_observables() == 5);
    g.set_min_num_observables(9);
    CHECK(g.get_num_observables() == 9);
    g.set_min_num_observables(0);
    CHECK(g.get_num_observables() == 9);
    g.add_or_merge_edge(A, B, {12}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.get_num_observables() == 13);
    g.set_min_num_observables(12);
    CHECK(g.get_num_observables() == 13);
    g.set_min_num_observables(14);
    CHECK(g.get_num_observables() == 14);
    g.add_or_merge_edge(A, 2, {13}, any_d<1>(), any_d<2>(), DISALLOW);
    g.add_or_merge_boundary_edge(A, {0}, any_d<1>(), any_d<2>(), DISALLOW);
    CHECK(g.get_num_observables() == 14);
    REACH();
}
