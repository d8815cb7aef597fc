//! property: R09
//! target: pm::MatchingGraph construction
// The decoder's graph: every edge appears at both ends with its magnitude and observables; negative edges are
// accounted for by flipping detection events, observables and weight; moving a graph keeps all of it.
#include "mw.h"
#include "reject.h"
static MatchingGraph* G;
static void* S1;
inline void at_throw(int mode) {
    if (mode == 1) {
        CHECK(G->nodes[0].neighbors.size() == 1);
        CHECK(G->nodes[0].neighbor_weights.size() == 1 && G->nodes[0].neighbor_observables.size() == 1);
        CHECK(G->negative_weight_sum == any_time<900>());
        CHECK(G->negative_weight_detection_events_set.size() == 0);
        CHECK(G->negative_weight_observables_set.size() == 0);
    }
}
#define GRAPH(g, n, obs)               \
    OBJ(MatchingGraph, g);             \
    g.nodes.resize(n);                 \
    g.num_nodes = n;                   \
    g.num_observables = obs;           \
    g.negative_weight_sum = any_time<900>()
inline obs_int bit(uint64_t k) {
    return (obs_int)1 << k;
}
inline weight_int mag(int32_t w) {
    return w < 0 ? 0u - (uint32_t)w : (uint32_t)w;
}
//@ a positive edge: same magnitude and observables at both ends, nothing counted as negative
WITNESS(g_edge) {
    GRAPH(g, 3, 64);
    int32_t w = any_u32<1>();
    ASSUME(w >= 0);
    uint64_t o = any_u64<2>() & 63, p = any_u64<3>() & 63;
    g.add_edge(0, 2, w, {o, p});
    auto &a = g.nodes[0], &b = g.nodes[2];
    CHECK(a.neighbors.size() == 1 && b.neighbors.size() == 1 && g.nodes[1].neighbors.size() == 0);
    CHECK(a.neighbors[0] == &b && b.neighbors[0] == &a);
    CHECK(a.neighbor_weights.size() == 1 && b.neighbor_weights.size() == 1 && a.neighbor_weights[0] == w && b.neighbor_weights[0] == w);
    CHECK(a.neighbor_observables.size() == 1 && b.neighbor_observables.size() == 1);
    CHECK(a.neighbor_observables[0] == (bit(o) ^ bit(p)) && b.neighbor_observables[0] == (bit(o) ^ bit(p)));
    CHECK(g.negative_weight_sum == any_time<900>() && g.negative_weight_detection_events_set.size() == 0 && g.negative_weight_observables_set.size() == 0);
    REACH();
}
//@ a negative edge: magnitude at both ends, both detection events and its observables flipped, weight accounted for
WITNESS(g_edge_negative) {
    GRAPH(g, 3, 64);
    int32_t w = any_u32<1>();
    ASSUME(w < 0 && w > -(1 << 30));
    uint64_t o = any_u64<2>() & 63;
    g.add_edge(0, 2, w, {o});
    auto &a = g.nodes[0], &b = g.nodes[2];
    CHECK(a.neighbor_weights[0] == mag(w) && b.neighbor_weights[0] == mag(w));
    CHECK(a.neighbor_observables[0] == bit(o) && b.neighbor_observables[0] == bit(o));
    CHECK(g.negative_weight_sum == any_time<900>() + (int64_t)w);
    CHECK(g.negative_weight_detection_events_set.size() == 2 && g.negative_weight_detection_events_set.count(0) == 1 && g.negative_weight_detection_events_set.count(2) == 1);
    CHECK(g.negative_weight_observables_set.size() == 1 && g.negative_weight_observables_set.count(o) == 1);
    REACH();
}
//@ two negative edges at one node with a common observable: shared flips cancel
WITNESS(g_edge_negative_twice) {
    GRAPH(g, 3, 64);
    int32_t w = any_u32<1>(), x = any_u32<4>();
    ASSUME(w < 0 && x < 0);
    g.add_edge(0, 1, w, {3});
    g.add_edge(1, 2, x, {3, 5});
    CHECK(g.negative_weight_sum == any_time<900>() + (int64_t)w + (int64_t)x);
    CHECK(g.negative_weight_detection_events_set.size() == 2 && g.negative_weight_detection_events_set.count(0) == 1 && g.negative_weight_detection_events_set.count(2) == 1);
    CHECK(g.negative_weight_observables_set.size() == 1 && g.negative_weight_observables_set.count(5) == 1);
    REACH();
}
//@ an observable listed twice on one edge is flipped twice, which is not at all; several observables combine
WITNESS(g_observable_repeated) {
    GRAPH(g, 3, 64);
    int32_t w = any_u32<1>(), x = any_u32<4>();
    ASSUME(w >= 0 && x >= 0);
    g.add_edge(0, 1, w, {3, 5, 3});
    g.add_boundary_edge(2, x, {7, 63, 7, 0});
    CHECK(g.nodes[0].neighbor_observables[0] == bit(5) && g.nodes[1].neighbor_observables[0] == bit(5));
    CHECK(g.nodes[2].neighbor_observables[0] == (bit(63) | bit(0)));
    REACH();
}
//@ ... likewise on negative edges
WITNESS(g_observable_repeated_negative) {
    GRAPH(g, 3, 64);
    int32_t w = any_u32<1>(), x = any_u32<4>();
    ASSUME(w < 0 && x < 0);
    g.add_edge(0, 1, w, {3, 5, 3});
    CHECK(g.negative_weight_observables_set.size() == 1 && g.negative_weight_observables_set.count(5) == 1);
    g.add_boundary_edge(2, x, {5, 7, 5});
    CHECK(g.negative_weight_observables_set.size() == 2 && g.negative_weight_observables_set.count(5) == 1 && g.negative_weight_observables_set.count(7) == 1);
    REACH();
}
//@ a self loop never enters the graph; a negative one still flips its observables and counts
WITNESS(g_loop) {
    GRAPH(g, 2, 64);
    int32_t w = any_u32<1>();
    ASSUME(w >= 0);
    g.add_edge(1, 1, w, {3});
    CHECK(g.nodes[1].neighbors.size() == 0 && g.nodes[1].neighbor_weights.size() == 0 && g.negative_weight_sum == any_time<900>());
    CHECK(g.negative_weight_detection_events_set.size() == 0 && g.negative_weight_observables_set.size() == 0);
    REACH();
}
//@ a negative self loop
WITNESS(g_loop_negative) {
    GRAPH(g, 2, 64);
    int32_t w = any_u32<1>();
    ASSUME(w < 0);
    g.add_edge(1, 1, w, {3});
    CHECK(g.nodes[1].neighbors.size() == 0 && g.nodes[1].neighbor_weights.size() == 0 && g.negative_weight_sum == any_time<900>() + (int64_t)w);
    CHECK(g.negative_weight_detection_events_set.size() == 0);
    CHECK(g.negative_weight_observables_set.size() == 1 && g.negative_weight_observables_set.count(3) == 1);
    REACH();
}
//@ a boundary edge comes first, whatever was there before, and every other edge keeps its data
WITNESS(g_boundary) {
    GRAPH(g, 2, 64);
    int32_t w = any_u32<1>(), x = any_u32<4>();
    ASSUME(w >= 0 && x >= 0);
    uint64_t o = any_u64<2>() & 63, p = any_u64<3>() & 63;
    g.add_edge(0, 1, w, {o});
    g.add_boundary_edge(0, x, {p});
    auto& a = g.nodes[0];
    CHECK(a.neighbors.size() == 2 && a.neighbors[0] == nullptr && a.neighbors[1] == &g.nodes[1]);
    CHECK(a.neighbor_weights.size() == 2 && a.neighbor_weights[0] == x && a.neighbor_weights[1] == w);
    CHECK(a.neighbor_observables.size() == 2 && a.neighbor_observables[0] == bit(p) && a.neighbor_observables[1] == bit(o));
    CHECK(g.nodes[1].neighbors.size() == 1 && g.nodes[1].neighbors[0] == &a);
    CHECK(g.negative_weight_sum == any_time<900>() && g.negative_weight_detection_events_set.size() == 0 && g.negative_weight_observables_set.size() == 0);
    REACH();
}
//@ a negative boundary edge flips its one detection event
WITNESS(g_boundary_negative) {
    GRAPH(g, 2, 64);
    int32_t w = any_u32<1>();
    ASSUME(w < 0 && w > -(1 << 30));
    uint64_t o = any_u64<2>() & 63;
    g.add_boundary_edge(1, w, {o});
    auto& a = g.nodes[1];
    CHECK(a.neighbors.size() == 1 && a.neighbors[0] == nullptr && a.neighbor_weights[0] == mag(w) && a.neighbor_observables[0] == bit(o));
    CHECK(g.negative_weight_sum == any_time<900>() + (int64_t)w);
    CHECK(g.negative_weight_detection_events_set.size() == 1 && g.negative_weight_detection_events_set.count(1) == 1);
    CHECK(g.negative_weight_observables_set.size() == 1 && g.negative_weight_observables_set.count(o) == 1);
    REACH();
}
//@ with more than 64 observables no mask is formed (parities come from the search graph), negatives still counted
WITNESS(g_many_observables) {
    GRAPH(g, 2, 65);
    int32_t w = any_u32<1>();
    ASSUME(w < 0);
    g.add_edge(0, 1, w, {64});
    CHECK(g.nodes[0].neighbor_observables[0] == 0 && g.nodes[1].neighbor_observables[0] == 0);
    CHECK(g.negative_weight_observables_set.size() == 1 && g.negative_weight_observables_set.count(64) == 1);
    REACH();
}
//@ an edge to a node beyond the graph is rejected, and nothing changed
WITNESS(g_reject_edge) {
    GRAPH(g, 2, 64);
    g.add_edge(0, 1, 5, {});
    G = &g;
    on_throw = 1;
    uint64_t v = any_u64<1>();
    ASSUME(v >= 2);
    g.add_edge(0, v, (int32_t)any_u32<2>(), {3});
    ACCEPTED();
}
//@ ... in the other position
WITNESS(g_reject_edge_first) {
    GRAPH(g, 2, 64);
    g.add_edge(0, 1, 5, {});
    G = &g;
    on_throw = 1;
    uint64_t v = any_u64<1>();
    ASSUME(v >= 2);
    g.add_edge(v, 0, (int32_t)any_u32<2>(), {3});
    ACCEPTED();
}
//@ a boundary edge at a node beyond the graph is rejected, and nothing changed
WITNESS(g_reject_boundary) {
    GRAPH(g, 2, 64);
    g.add_edge(0, 1, 5, {});
    G = &g;
    on_throw = 1;
    uint64_t v = any_u64<1>();
    ASSUME(v >= 2);
    g.add_boundary_edge(v, (int32_t)any_u32<2>(), {3});
    ACCEPTED();
}
//@ a second boundary edge at a node is rejected, and nothing changed
WITNESS(g_reject_second_boundary) {
    GRAPH(g, 2, 64);
    g.add_boundary_edge(0, 5, {});
    G = &g;
    on_throw = 1;
    g.add_boundary_edge(0, (int32_t)any_u32<2>(), {3});
    ACCEPTED();
}
//@ compiling the negative-weight bookkeeping: sorted events and observables, their mask and the weight, replacing stale data
WITNESS(g_sync) {
    OBJ(GraphFlooder, f);
    f.graph.num_observables = 64;
    f.graph.negative_weight_detection_events_set.insert(9);
    f.graph.negative_weight_detection_events_set.insert(4);
    uint64_t o = any_u64<2>() & 31, p = 32 + (any_u64<3>() & 31);
    f.graph.negative_weight_observables_set.insert(p);
    f.graph.negative_weight_observables_set.insert(o);
    f.graph.negative_weight_sum = any_time<900>();
    f.negative_weight_detection_events.push_back(any_u64<4>());
    f.negative_weight_observables.push_back(any_u64<5>());
    f.negative_weight_obs_mask = any_u64<6>();
    f.negative_weight_sum = any_time<901>();
    f.sync_negative_weight_observables_and_detection_events();
    CHECK(f.negative_weight_detection_events.size() == 2 && f.negative_weight_detection_events[0] == 4 && f.negative_weight_detection_events[1] == 9);
    CHECK(f.negative_weight_observables.size() == 2 && f.negative_weight_observables[0] == o && f.negative_weight_observables[1] == p);
    CHECK(f.negative_weight_obs_mask == (bit(o) ^ bit(p)));
    CHECK(f.negative_weight_sum == any_time<900>());
    REACH();
}
//@ ... with more than 64 observables: indices kept, no mask
WITNESS(g_sync_many) {
    OBJ(GraphFlooder, f);
    uint64_t n = any_u64<1>();
    ASSUME(n > 64);
    f.graph.num_observables = n;
    f.graph.negative_weight_observables_set.insert(70);
    f.graph.negative_weight_sum = any_time<900>();
    f.negative_weight_obs_mask = any_u64<6>();
    f.sync_negative_weight_observables_and_detection_events();
    CHECK(f.negative_weight_observables.size() == 1 && f.negative_weight_observables[0] == 70);
    CHECK(f.negative_weight_obs_mask == 0 && f.negative_weight_sum == any_time<900>() && f.negative_weight_detection_events.size() == 0);
    REACH();
}
