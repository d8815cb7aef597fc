//! property: R11
//! target: pm::apply_reweights, MatchingGraph / SearchGraph convert_implied_weights, reweight_for_edge(s), undo_reweights
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=6 -DVP_MAPCAP=5
// Correlated decoding: a reweight lowers exactly the implied edges, at both ends, in both graphs alike, and undoing
// restores every weight exactly.
#include "mw.h"
#include "reject.h"
static MatchingGraph* G;
inline void at_throw(int mode) {
    CHECK(G->previous_weights.size() == 0 && G->nodes[0].neighbor_weights[0] == 100 && G->nodes[1].neighbor_weights[0] == 100);
}
//@ a lower implied weight replaces the weight at both ends and the old ones are remembered
WITNESS(w_apply) {
    weight_int a = any_u32<1>(), b = a;
    weight_int* p = &a;
    weight_int* q = &b;
    OBJ(std::vector<ImpliedWeight>, v);
    OBJ(std::vector<PreviousWeight>, prev);
    weight_int n = any_u32<2>();
    v.push_back(ImpliedWeight{p, q, n});
    apply_reweights(v, prev);
    if (n < any_u32<1>()) {
        CHECK(a == n && b == n);
    } else {
        CHECK(a == any_u32<1>() && b == any_u32<1>());
    }
    REACH();
}
//@ ... for an edge to the boundary
WITNESS(w_apply_boundary) {
    weight_int a = any_u32<1>();
    OBJ(std::vector<ImpliedWeight>, v);
    OBJ(std::vector<PreviousWeight>, prev);
    weight_int n = any_u32<2>();
    v.push_back(ImpliedWeight{&a, nullptr, n});
    apply_reweights(v, prev);
    if (n < any_u32<1>()) {
        CHECK(a == n);
    } else {
        CHECK(a == any_u32<1>());
    }
    REACH();
}
//@ several rules on one edge: the lowest wins whatever their order
WITNESS(w_apply_lowest) {
    weight_int a = any_u32<1>(), b = a;
    OBJ(std::vector<ImpliedWeight>, v);
    OBJ(std::vector<PreviousWeight>, prev);
    weight_int n = any_u32<2>(), m = any_u32<3>();
    v.push_back(ImpliedWeight{&a, &b, n});
    v.push_back(ImpliedWeight{&a, &b, m});
    apply_reweights(v, prev);
    CHECK(a == b);
    weight_int lo = any_u32<1>();
    lo = n < lo ? n : lo;
    lo = m < lo ? m : lo;
    CHECK(a == lo);
    REACH();
}
// C: which of the three rules lower a weight (bit set)
template <class GRAPH, int C>
inline void undo() {
    weight_int w = any_u32<1>(), n = any_u32<2>(), m = any_u32<3>(), x = any_u32<4>(), y = any_u32<5>();
    ASSUME((n < w) == !!(C & 1));
    ASSUME((y < x) == !!(C & 2));
    ASSUME((m < (C & 1 ? n : w)) == !!(C & 4));
    OBJ(GRAPH, g);
    g.nodes.resize(3);
    weight_int &a = g.nodes[0].neighbor_weights.emplace_back(any_u32<1>()), &b = g.nodes[1].neighbor_weights.emplace_back(any_u32<1>());
    weight_int& c = g.nodes[2].neighbor_weights.emplace_back(any_u32<4>());
    OBJ(std::vector<ImpliedWeight>, v);
    v.push_back(ImpliedWeight{&a, &b, any_u32<2>()});
    v.push_back(ImpliedWeight{&c, nullptr, any_u32<5>()});
    v.push_back(ImpliedWeight{&b, &a, any_u32<3>()});
    g.reweight(v);
    g.undo_reweights();
    CHECK(a == any_u32<1>() && b == any_u32<1>() && c == any_u32<4>());
    CHECK(g.previous_weights.size() == 0);
    REACH();
}
//@ undoing restores every weight, also when one edge was lowered twice
WITNESS(w_undo) { undo<MatchingGraph, 7>(); }
//@ ... only the first rule lowered its edge
WITNESS(w_undo_1) { undo<MatchingGraph, 1>(); }
//@ ... the first rule did not
WITNESS(w_undo_6) { undo<MatchingGraph, 6>(); }
//@ ... the boundary edge kept its weight
WITNESS(w_undo_5) { undo<MatchingGraph, 5>(); }
//@ ... in the search graph
WITNESS(w_undo_search) { undo<SearchGraph, 7>(); }
//@ ... in the search graph, the boundary edge kept its weight
WITNESS(w_undo_search_5) { undo<SearchGraph, 5>(); }
//@ ... in the search graph, the first rule did not lower its edge
WITNESS(w_undo_search_6) { undo<SearchGraph, 6>(); }
//@ undoing without a reweight changes nothing
WITNESS(w_undo_nothing) {
    OBJ(MatchingGraph, g);
    OBJ(SearchGraph, h);
    g.nodes.resize(1);
    h.nodes.resize(1);
    g.nodes[0].neighbor_weights.push_back(any_u32<1>());
    h.nodes[0].neighbor_weights.push_back(any_u32<2>());
    g.undo_reweights();
    h.undo_reweights();
    CHECK(g.nodes[0].neighbor_weights[0] == any_u32<1>() && h.nodes[0].neighbor_weights[0] == any_u32<2>());
    CHECK(g.previous_weights.size() == 0 && h.previous_weights.size() == 0);
    REACH();
}
// triangle 0-1-2 and a boundary edge at 1; edge (0,1) implies (1,2), edge (1,boundary) implies (0,1), (1,2) implies (1,boundary)
template <class GRAPH>
inline void rules(GRAPH& g) {
    g.nodes.resize(3);
    g.num_nodes = 3;
    g.add_edge(0, 2, 40, {}, {});
    g.add_edge(0, 1, 100, {}, {{1, 2, 1.0}});
    g.add_edge(1, 2, 60, {}, {{1, SIZE_MAX, 2.0}});
    g.add_boundary_edge(1, 80, {}, {{0, 1, 3.0}});
}
template <class GRAPH>
inline void converted() {
    OBJ(GRAPH, g);
    rules(g);
    g.convert_implied_weights(10.0);
    auto &n0 = g.nodes[0], &n1 = g.nodes[1], &n2 = g.nodes[2];
    // neighbours: n0: [2, 1]; n1: [B, 0, 2]; n2: [0, 1]
    CHECK(n0.neighbor_implied_weights.size() == 2 && n0.neighbor_implied_weights[0].size() == 0 && n0.neighbor_implied_weights[1].size() == 1);
    CHECK(n1.neighbor_implied_weights.size() == 3 && n1.neighbor_implied_weights[0].size() == 1 && n1.neighbor_implied_weights[1].size() == 1 && n1.neighbor_implied_weights[2].size() == 1);
    CHECK(n2.neighbor_implied_weights.size() == 2 && n2.neighbor_implied_weights[0].size() == 0 && n2.neighbor_implied_weights[1].size() == 1);
    // (0,1) -> (1,2)
    CHECK(n0.neighbor_implied_weights[1][0].edge0_ptr == &n1.neighbor_weights[2] && n0.neighbor_implied_weights[1][0].edge1_ptr == &n2.neighbor_weights[1] && n0.neighbor_implied_weights[1][0].implied_weight == 10);
    CHECK(n1.neighbor_implied_weights[1][0].edge0_ptr == &n1.neighbor_weights[2] && n1.neighbor_implied_weights[1][0].edge1_ptr == &n2.neighbor_weights[1] && n1.neighbor_implied_weights[1][0].implied_weight == 10);
    // (1,2) -> (1,B)
    CHECK(n1.neighbor_implied_weights[2][0].edge0_ptr == &n1.neighbor_weights[0] && n1.neighbor_implied_weights[2][0].edge1_ptr == nullptr && n1.neighbor_implied_weights[2][0].implied_weight == 20);
    CHECK(n2.neighbor_implied_weights[1][0].edge0_ptr == &n1.neighbor_weights[0] && n2.neighbor_implied_weights[1][0].edge1_ptr == nullptr && n2.neighbor_implied_weights[1][0].implied_weight == 20);
    // (1,B) -> (0,1)
    CHECK(n1.neighbor_implied_weights[0][0].edge0_ptr == &n0.neighbor_weights[1] && n1.neighbor_implied_weights[0][0].edge1_ptr == &n1.neighbor_weights[1] && n1.neighbor_implied_weights[0][0].implied_weight == 30);
    REACH();
}
//@ rules are compiled onto the right edges, at both ends, boundary edges included
WITNESS(w_convert) { converted<MatchingGraph>(); }
//@ ... in the search graph
WITNESS(w_convert_search) { converted<SearchGraph>(); }
//@ an implied weight is rounded to the nearest multiple of the scale's resolution
template <class GRAPH>
inline void rounded() {
    OBJ(GRAPH, g);
    g.nodes.resize(2);
    g.num_nodes = 2;
    g.add_edge(0, 1, 400, {}, {{0, 1, 0.29}, {0, 1, 0.21}, {0, 1, 7.5}, {0, 1, 0.96}});
    g.convert_implied_weights(20.0);
    for (int i = 0; i < 2; i++) {
        auto& r = g.nodes[i].neighbor_implied_weights[0];
        CHECK(r.size() == 4 && r[0].implied_weight == 6 && r[1].implied_weight == 4 && r[2].implied_weight == 150 && r[3].implied_weight == 20);
    }
    REACH();
}
WITNESS(w_rounded) { rounded<MatchingGraph>(); }
WITNESS(w_rounded_search) { rounded<SearchGraph>(); }
// any implied weight and scale: even, and the same in both graphs
//@ an implied weight of any size and scale compiles to the same even weight in both graphs
WITNESS(w_convert_even) {
    OBJ(MatchingGraph, g);
    OBJ(SearchGraph, h);
    uint64_t wb = any_u64<1>(), nb = any_u64<2>();
    double w = __builtin_bit_cast(double, wb), n = __builtin_bit_cast(double, nb);
    g.nodes.resize(2);
    h.nodes.resize(2);
    g.num_nodes = h.num_nodes = 2;
    g.add_edge(0, 1, 40, {}, {{0, 1, w}});
    h.add_edge(0, 1, 40, {}, {{0, 1, w}});
    g.convert_implied_weights(n);
    h.convert_implied_weights(n);
    CHECK((g.nodes[0].neighbor_implied_weights[0][0].implied_weight & 1) == 0);
    CHECK((h.nodes[0].neighbor_implied_weights[0][0].implied_weight & 1) == 0);
    CHECK((g.nodes[1].neighbor_implied_weights[0][0].implied_weight & 1) == 0);
    CHECK(g.nodes[0].neighbor_implied_weights[0][0].implied_weight == h.nodes[0].neighbor_implied_weights[0][0].implied_weight);
    CHECK(g.nodes[1].neighbor_implied_weights[0][0].implied_weight == h.nodes[1].neighbor_implied_weights[0][0].implied_weight);
    REACH();
}
template <class GRAPH>
inline void one_edge() {
    OBJ(GRAPH, g);
    rules(g);
    g.convert_implied_weights(10.0);
    auto &n0 = g.nodes[0], &n1 = g.nodes[1], &n2 = g.nodes[2];
    g.reweight_for_edge(0, 1);
    CHECK(n1.neighbor_weights[2] == 10 && n2.neighbor_weights[1] == 10);
    CHECK(n0.neighbor_weights[0] == 40 && n0.neighbor_weights[1] == 100 && n1.neighbor_weights[0] == 80 && n1.neighbor_weights[1] == 100 && n2.neighbor_weights[0] == 40);
    g.reweight_for_edge(1, -1);
    CHECK(n0.neighbor_weights[1] == 30 && n1.neighbor_weights[1] == 30);
    CHECK(n0.neighbor_weights[0] == 40 && n1.neighbor_weights[0] == 80 && n1.neighbor_weights[2] == 10);
    g.undo_reweights();
    CHECK(n0.neighbor_weights[1] == 100 && n1.neighbor_weights[1] == 100 && n1.neighbor_weights[2] == 60 && n2.neighbor_weights[1] == 60);
    REACH();
}
//@ an error on one edge reweights exactly the edges it implies
WITNESS(w_edge) { one_edge<MatchingGraph>(); }
//@ ... in the search graph
WITNESS(w_edge_search) { one_edge<SearchGraph>(); }
template <class GRAPH, int ORDER = 0>
inline void edge_list() {
    OBJ(GRAPH, g);
    rules(g);
    g.convert_implied_weights(10.0);
    auto &n0 = g.nodes[0], &n1 = g.nodes[1], &n2 = g.nodes[2];
    std::vector<int64_t> es{2, 1, 1, -1};
    if (ORDER == 1)
        es = {1, 2, 1, -1};
    if (ORDER == 2)
        es = {1, -1, 1, 2};
    if (ORDER == 3)
        es = {1, -1, 2, 1};
    g.reweight_for_edges(es);
    CHECK(n1.neighbor_weights[0] == 20);
    CHECK(n0.neighbor_weights[1] == 30 && n1.neighbor_weights[1] == 30);
    CHECK(n0.neighbor_weights[0] == 40 && n1.neighbor_weights[2] == 60 && n2.neighbor_weights[1] == 60 && n2.neighbor_weights[0] == 40);
    REACH();
}
//@ a list of edges is read as pairs and every edge of it counts
WITNESS(w_edges) { edge_list<MatchingGraph>(); }
//@ ... in the search graph
WITNESS(w_edges_search) { edge_list<SearchGraph>(); }
//@ ... in whichever order and direction the edges are listed
WITNESS(w_edges_1) { edge_list<MatchingGraph, 1>(); }
WITNESS(w_edges_2) { edge_list<MatchingGraph, 2>(); }
WITNESS(w_edges_3) { edge_list<MatchingGraph, 3>(); }
WITNESS(w_edges_search_1) { edge_list<SearchGraph, 1>(); }
WITNESS(w_edges_search_2) { edge_list<SearchGraph, 2>(); }
WITNESS(w_edges_search_3) { edge_list<SearchGraph, 3>(); }
inline weight_int lower(weight_int a, weight_int b) {
    return a < b ? a : b;
}
// whatever the weights are when the rules are applied: they only go down, and come back
template <class GRAPH, int E>
inline void never_raised() {
    OBJ(GRAPH, g);
    rules(g);
    g.convert_implied_weights(10.0);
    auto &n0 = g.nodes[0], &n1 = g.nodes[1], &n2 = g.nodes[2];
    weight_int w01 = any_u32<1>(), w12 = any_u32<2>(), w1b = any_u32<3>();
    n0.neighbor_weights[1] = n1.neighbor_weights[1] = w01;
    n1.neighbor_weights[2] = n2.neighbor_weights[1] = w12;
    n1.neighbor_weights[0] = w1b;
    std::vector<int64_t> es;
    if (E == 0)
        es = {0, 1};
    else if (E == 1)
        es = {2, 1};
    else
        es = {1, -1};
    g.reweight_for_edges(es);
    weight_int x12 = E == 0 ? lower(w12, 10) : w12, x1b = E == 1 ? lower(w1b, 20) : w1b, x01 = E == 2 ? lower(w01, 30) : w01;
    CHECK(n0.neighbor_weights[1] == x01 && n1.neighbor_weights[1] == x01);
    CHECK(n1.neighbor_weights[2] == x12 && n2.neighbor_weights[1] == x12);
    CHECK(n1.neighbor_weights[0] == x1b);
    CHECK(n0.neighbor_weights[0] == 40 && n2.neighbor_weights[0] == 40);
    g.undo_reweights();
    CHECK(n0.neighbor_weights[1] == w01 && n1.neighbor_weights[1] == w01 && n1.neighbor_weights[2] == w12 && n2.neighbor_weights[1] == w12 && n1.neighbor_weights[0] == w1b);
    REACH();
}
//@ an implied weight never raises the weight it meets: inner edge
WITNESS(w_never_raised) { never_raised<MatchingGraph, 0>(); }
//@ ... boundary edge
WITNESS(w_never_raised_boundary) { never_raised<MatchingGraph, 1>(); }
//@ ... implied by a boundary edge
WITNESS(w_never_raised_by_boundary) { never_raised<MatchingGraph, 2>(); }
//@ ... in the search graph
WITNESS(w_never_raised_search) { never_raised<SearchGraph, 0>(); }
WITNESS(w_never_raised_boundary_search) { never_raised<SearchGraph, 1>(); }
WITNESS(w_never_raised_by_boundary_search) { never_raised<SearchGraph, 2>(); }
// two used edges imply one edge (TO = 2) or boundary edge (TO = SIZE_MAX), with weights that depend on which comes first
template <class GRAPH, size_t TO, bool SWAP>
inline void twice() {
    OBJ(GRAPH, g);
    g.nodes.resize(5);
    g.num_nodes = 5;
    g.add_edge(0, 3, 100, {}, {{1, TO, 1.0}});
    g.add_edge(3, 4, 100, {}, {{1, TO, 2.0}, {0, 3, 4.0}});
    if (TO == SIZE_MAX)
        g.add_boundary_edge(1, 60, {}, {});
    else
        g.add_edge(1, 2, 60, {}, {});
    g.convert_implied_weights(10.0);
    std::vector<int64_t> es;
    if (SWAP)
        es = {4, 3, 0, 3};
    else
        es = {0, 3, 4, 3};
    g.reweight_for_edges(es);
    auto &n1 = g.nodes[1], &n2 = g.nodes[2];
    CHECK(n1.neighbor_weights[0] == 10 && (TO == SIZE_MAX || n2.neighbor_weights[0] == 10));
    CHECK(g.nodes[0].neighbor_weights[0] == 40 && g.nodes[3].neighbor_weights[0] == 40 && g.nodes[3].neighbor_weights[1] == 100 && g.nodes[4].neighbor_weights[0] == 100);
    g.undo_reweights();
    CHECK(n1.neighbor_weights[0] == 60 && (TO == SIZE_MAX || n2.neighbor_weights[0] == 60));
    CHECK(g.nodes[0].neighbor_weights[0] == 100 && g.nodes[3].neighbor_weights[0] == 100);
    REACH();
}
//@ an edge implied by two used edges takes the lower weight, in either order, and gets its own weight back
WITNESS(w_twice) { twice<MatchingGraph, 2, false>(); }
WITNESS(w_twice_swapped) { twice<MatchingGraph, 2, true>(); }
WITNESS(w_twice_boundary) { twice<MatchingGraph, SIZE_MAX, false>(); }
WITNESS(w_twice_boundary_swapped) { twice<MatchingGraph, SIZE_MAX, true>(); }
WITNESS(w_twice_search) { twice<SearchGraph, 2, false>(); }
WITNESS(w_twice_search_swapped) { twice<SearchGraph, 2, true>(); }
WITNESS(w_twice_boundary_search) { twice<SearchGraph, SIZE_MAX, false>(); }
WITNESS(w_twice_boundary_search_swapped) { twice<SearchGraph, SIZE_MAX, true>(); }
//@ a graph loaded without correlations refuses to reweight, and nothing changed
WITNESS(w_refuse) {
    OBJ(MatchingGraph, g);
    g.nodes.resize(2);
    g.num_nodes = 2;
    g.add_edge(0, 1, 100, {}, {{0, 1, 1.0}});
    g.loaded_from_dem_without_correlations = true;
    G = &g;
    on_throw = 1;
    std::vector<int64_t> es{0, 1};
    g.reweight_for_edges(es);
    ACCEPTED();
}
//@ ... even when there is nothing to reweight for
WITNESS(w_refuse_empty) {
    OBJ(MatchingGraph, g);
    g.nodes.resize(2);
    g.num_nodes = 2;
    g.add_edge(0, 1, 100, {}, {{0, 1, 1.0}});
    g.loaded_from_dem_without_correlations = true;
    G = &g;
    on_throw = 1;
    std::vector<int64_t> es;
    g.reweight_for_edges(es);
    ACCEPTED();
}
