//! property: R10
//! target: pm::SearchGraph, pm::SearchFlooder
//! defs: -DVP_COLLAPSE_ARRAY
// Shortest-path search: the graph holds the edges given; every step of the bidirectional search is exact; the traced
// path consists of the edges between the two ends, in order where promised; nothing is left behind.
#include "mw.h"
#include "reject.h"
static SearchGraph* G;
inline void at_throw(int mode) {
    CHECK(G->nodes.size() == 2 && G->nodes[0].neighbors.size() == 1 && G->nodes[1].neighbors.size() == 1);
    CHECK(G->nodes[0].neighbor_weights.size() == 1 && G->nodes[0].neighbor_observable_indices.size() == 1 && G->nodes[0].neighbor_markers.size() == 1);
    CHECK(G->negative_weight_edges.size() == 0);
}
constexpr cumulative_time_int NEVER = std::numeric_limits<cumulative_time_int>::max();
inline weight_int mag(int32_t w) {
    return w < 0 ? 0u - (uint32_t)w : (uint32_t)w;
}
inline void slink(SearchDetectorNode& a, SearchDetectorNode& b, weight_int w) {
    a.neighbors.push_back(&b);
    a.neighbor_weights.push_back(w);
    b.neighbors.push_back(&a);
    b.neighbor_weights.push_back(w);
}
inline void slink_boundary(SearchDetectorNode& a, weight_int w) {
    a.neighbors.insert(a.neighbors.begin(), 1, nullptr);
    a.neighbor_weights.insert(a.neighbor_weights.begin(), 1, w);
}
#define SF(f)              \
    OBJ(SearchFlooder, f); \
    f.queue.cur_time = any_time<900>()
#define N(n) OBJ(SearchDetectorNode, n)

//@ an edge of either sign: magnitude, observables and sign mark at both ends; a negative edge is listed once
WITNESS(s_edge) {
    OBJ(SearchGraph, g, 3);
    int32_t w = any_u32<1>();
    ASSUME(w > -(1 << 30));
    g.add_edge(0, 2, w, {any_u64<2>(), any_u64<3>()});
    auto &a = g.nodes[0], &b = g.nodes[2];
    CHECK(a.neighbors.size() == 1 && b.neighbors.size() == 1 && g.nodes[1].neighbors.size() == 0);
    CHECK(a.neighbors[0] == &b && b.neighbors[0] == &a);
    CHECK(a.neighbor_weights.size() == 1 && b.neighbor_weights.size() == 1 && a.neighbor_weights[0] == mag(w) && b.neighbor_weights[0] == mag(w));
    CHECK(a.neighbor_observable_indices.size() == 1 && b.neighbor_observable_indices.size() == 1);
    CHECK(a.neighbor_observable_indices[0].size() == 2 && a.neighbor_observable_indices[0][0] == any_u64<2>() && a.neighbor_observable_indices[0][1] == any_u64<3>());
    CHECK(b.neighbor_observable_indices[0].size() == 2 && b.neighbor_observable_indices[0][0] == any_u64<2>() && b.neighbor_observable_indices[0][1] == any_u64<3>());
    CHECK(a.neighbor_markers.size() == 1 && b.neighbor_markers.size() == 1);
    CHECK(a.neighbor_markers[0] == (w < 0 ? WEIGHT_SIGN : 0) && b.neighbor_markers[0] == (w < 0 ? WEIGHT_SIGN : 0));
    if (w < 0) {
        CHECK(g.negative_weight_edges.size() == 1 && g.negative_weight_edges[0].first == 0 && g.negative_weight_edges[0].second == 2);
    } else {
        CHECK(g.negative_weight_edges.size() == 0);
    }
    REACH();
}
//@ a boundary edge comes first, other edges keep their data
WITNESS(s_boundary_edge) {
    OBJ(SearchGraph, g, 2);
    int32_t w = any_u32<1>(), x = any_u32<2>();
    ASSUME(w > -(1 << 30) && x >= 0);
    g.add_edge(0, 1, x, {any_u64<3>()});
    g.add_boundary_edge(0, w, {any_u64<4>()});
    auto& a = g.nodes[0];
    CHECK(a.neighbors.size() == 2 && a.neighbors[0] == nullptr && a.neighbors[1] == &g.nodes[1]);
    CHECK(a.neighbor_weights.size() == 2 && a.neighbor_weights[0] == mag(w) && a.neighbor_weights[1] == x);
    CHECK(a.neighbor_observable_indices.size() == 2 && a.neighbor_observable_indices[0].size() == 1 && a.neighbor_observable_indices[0][0] == any_u64<4>());
    CHECK(a.neighbor_observable_indices[1].size() == 1 && a.neighbor_observable_indices[1][0] == any_u64<3>());
    CHECK(a.neighbor_markers.size() == 2 && a.neighbor_markers[0] == (w < 0 ? WEIGHT_SIGN : 0) && a.neighbor_markers[1] == 0);
    CHECK(g.nodes[1].neighbors.size() == 1 && g.nodes[1].neighbor_weights.size() == 1);
    if (w < 0) {
        CHECK(g.negative_weight_edges.size() == 1 && g.negative_weight_edges[0].first == 0 && g.negative_weight_edges[0].second == SIZE_MAX);
    } else {
        CHECK(g.negative_weight_edges.size() == 0);
    }
    REACH();
}
//@ self loops never enter
WITNESS(s_loop) {
    OBJ(SearchGraph, g, 2);
    g.add_edge(1, 1, (int32_t)any_u32<1>(), {3});
    CHECK(g.nodes[1].neighbors.size() == 0 && g.nodes[1].neighbor_weights.size() == 0 && g.nodes[1].neighbor_markers.size() == 0);
    CHECK(g.negative_weight_edges.size() == 0);
    REACH();
}
//@ an edge to a node beyond the graph is rejected, and nothing changed
WITNESS(s_reject_edge) {
    OBJ(SearchGraph, g, 2);
    g.add_edge(0, 1, 5, {});
    G = &g;
    on_throw = 1;
    uint64_t v = any_u64<1>();
    ASSUME(v >= 2);
    if (any_u64<3>() & 1)
        g.add_edge(0, v, (int32_t)any_u32<2>(), {3});
    else
        g.add_edge(v, 1, (int32_t)any_u32<2>(), {3});
    ACCEPTED();
}
//@ a boundary edge beyond the graph is rejected, and nothing changed
WITNESS(s_reject_boundary) {
    OBJ(SearchGraph, g, 2);
    g.add_edge(0, 1, 5, {});
    G = &g;
    on_throw = 1;
    uint64_t v = any_u64<1>();
    ASSUME(v >= 2);
    g.add_boundary_edge(v, (int32_t)any_u32<2>(), {3});
    ACCEPTED();
}

enum Kind { UNREACHED, OTHER, SAME };
template <Kind K>
inline void place(SearchDetectorNode& m, SearchDetectorNode& mine, SearchDetectorNode& theirs, int64_t d) {
    if (K == UNREACHED)
        return;
    m.reached_from_source = K == SAME ? &mine : &theirs;
    m.distance_from_source = d;
}
template <Kind K>
inline int64_t arrive(uint32_t half_w, int64_t half_mine, int64_t half_other) {
    if (K == UNREACHED)
        return 2 * half_mine + 2 * (int64_t)(uint64_t)half_w;
    if (K == OTHER)
        return half_mine + half_other + (int64_t)(uint64_t)half_w;
    return NEVER;
}
// the next event of a reached node is the earliest over its edges, and the boundary counts only when it is the target
template <Kind A, Kind B, bool BND, TargetType T>
inline void next_event() {
    SF(f);
    N(src); N(dst); N(n); N(m0); N(m1);
    uint32_t h0 = any_u32<10>() >> 1, h1 = any_u32<11>() >> 1, hb = any_u32<12>() >> 1;
    slink(n, m0, 2 * h0);
    slink(n, m1, 2 * h1);
    if (BND)
        slink_boundary(n, 2 * hb);
    f.target_type = T;
    int64_t d = any_time<13>(), d0 = any_time<14>(), d1 = any_time<15>();
    n.reached_from_source = &src;
    n.distance_from_source = 2 * d;
    place<A>(m0, src, dst, 2 * d0);
    place<B>(m1, src, dst, 2 * d1);
    int64_t c0 = arrive<A>(h0, d, d0), c1 = arrive<B>(h1, d, d1), cb = BND && T == BOUNDARY ? 2 * d + 2 * (int64_t)(uint64_t)hb : NEVER;
    auto x = f.find_next_event_at_node_returning_neighbor_index_and_time(n);
    CHECK(x.second <= c0);
    CHECK(x.second <= c1);
    CHECK(x.second <= cb);
    if (x.first == SIZE_MAX) {
        CHECK(x.second == NEVER);
    } else {
        CHECK(x.first < 2 + BND);
        if (BND && x.first == 0)
            CHECK(T == BOUNDARY && x.second == cb);
        if (x.first == BND)
            CHECK(x.second == c0);
        if (x.first == BND + 1)
            CHECK(x.second == c1);
    }
    REACH();
}
//@ next event of a search node: two unreached neighbours and the boundary as target
WITNESS(s_next_uu_b) { next_event<UNREACHED, UNREACHED, true, BOUNDARY>(); }
//@ ... the boundary is not the target
WITNESS(s_next_uu_d) { next_event<UNREACHED, UNREACHED, true, DETECTOR_NODE>(); }
//@ ... one neighbour reached from the other end
WITNESS(s_next_uo) { next_event<UNREACHED, OTHER, true, DETECTOR_NODE>(); }
//@ ... both neighbours reached from the other end, no boundary edge
WITNESS(s_next_oo) { next_event<OTHER, OTHER, false, DETECTOR_NODE>(); }
//@ ... one neighbour reached from the same end
WITNESS(s_next_su) { next_event<SAME, UNREACHED, false, DETECTOR_NODE>(); }
//@ ... and the boundary as target
WITNESS(s_next_us_b) { next_event<UNREACHED, SAME, true, BOUNDARY>(); }
//@ ... nothing left
WITNESS(s_next_ss) { next_event<SAME, SAME, true, DETECTOR_NODE>(); }
//@ ... only a boundary edge
template <TargetType T>
inline void next_only_boundary() {
    SF(f);
    N(src); N(n);
    uint32_t w = any_u32<12>() >> 1;
    slink_boundary(n, w);
    f.target_type = T;
    n.reached_from_source = &src;
    n.distance_from_source = any_time<13>();
    auto x = f.find_next_event_at_node_returning_neighbor_index_and_time(n);
    if (T == BOUNDARY)
        CHECK(x.first == 0 && x.second == n.distance_from_source + (int64_t)(uint64_t)w);
    else
        CHECK(x.first == SIZE_MAX && x.second == NEVER);
    REACH();
}
WITNESS(s_next_b) { next_only_boundary<BOUNDARY>(); }
WITNESS(s_next_d) { next_only_boundary<DETECTOR_NODE>(); }
//@ starting a search: the source is reached from itself at distance zero, remembered for clean-up and scheduled
WITNESS(s_start) {
    SF(f);
    N(n); N(m);
    uint32_t w = any_u32<10>();
    slink(n, m, w);
    f.queue.cur_time = 0;
    f.target_type = DETECTOR_NODE;
    f.do_search_starting_at_empty_search_detector_node(&n);
    CHECK(n.reached_from_source == &n && n.index_of_predecessor == SIZE_MAX && n.distance_from_source == 0);
    CHECK(f.reached_nodes.size() == 1 && f.reached_nodes[0] == &n);
    CHECK(wakes_at(n.node_event_tracker, w));
    CHECK(m.reached_from_source == nullptr);
    REACH();
}
//@ exploring a node: source, predecessor and exact distance recorded, remembered for clean-up, scheduled for its next event
WITNESS(s_explore) {
    SF(f);
    N(src); N(n); N(m); N(k);
    uint32_t w = any_u32<10>(), x = any_u32<11>();
    slink(k, m, x);
    slink(n, m, w);
    f.target_type = DETECTOR_NODE;
    n.reached_from_source = &src;
    n.distance_from_source = any_time<12>();
    f.do_search_exploring_empty_detector_node(m, 1);
    CHECK(m.reached_from_source == &src && m.index_of_predecessor == 1);
    CHECK(m.distance_from_source == any_time<12>() + (int64_t)(uint64_t)w);
    CHECK(f.reached_nodes.size() == 1 && f.reached_nodes[0] == &m);
    CHECK(wakes_at(m.node_event_tracker, any_time<12>() + (int64_t)(uint64_t)w + (int64_t)(uint64_t)x));
    CHECK(k.reached_from_source == nullptr && n.reached_from_source == &src && n.distance_from_source == any_time<12>());
    REACH();
}
//@ looking at a node when its edge to an unreached node is exhausted: that node is explored and the search goes on, looking again at once
WITNESS(s_look_explore) {
    SF(f);
    N(src); N(n); N(m); N(k);
    uint32_t w = any_u32<10>();
    slink(k, m, any_u32<11>());
    slink(n, m, w);
    f.target_type = DETECTOR_NODE;
    n.reached_from_source = &src;
    int64_t d = any_time<12>();
    n.distance_from_source = d;
    f.queue.cur_time = d + (int64_t)(uint64_t)w;
    auto e = f.do_look_at_node_event(n);
    CHECK(e.detector_node == nullptr);
    CHECK(m.reached_from_source == &src && m.index_of_predecessor == 1 && m.distance_from_source == d + (int64_t)(uint64_t)w);
    CHECK(f.reached_nodes.size() == 1 && f.reached_nodes[0] == &m);
    CHECK(wakes_at(n.node_event_tracker, d + (int64_t)(uint64_t)w));
    REACH();
}
//@ looking at a node before its edge is exhausted: nothing explored, woken at the exact time
WITNESS(s_look_early) {
    SF(f);
    N(src); N(n); N(m);
    uint32_t w = any_u32<10>();
    slink(n, m, w);
    f.target_type = DETECTOR_NODE;
    n.reached_from_source = &src;
    int64_t d = any_time<12>();
    n.distance_from_source = d;
    ASSUME(f.queue.cur_time != d + (int64_t)(uint64_t)w);
    auto e = f.do_look_at_node_event(n);
    CHECK(e.detector_node == nullptr && m.reached_from_source == nullptr && f.reached_nodes.size() == 0);
    CHECK(wakes_at(n.node_event_tracker, d + (int64_t)(uint64_t)w));
    REACH();
}
//@ the two searches meet on an edge: that edge is returned and nothing else changes
WITNESS(s_look_collide) {
    SF(f);
    N(src); N(dst); N(n); N(m);
    uint32_t h = any_u32<10>() >> 1;
    slink(n, m, 2 * h);
    f.target_type = DETECTOR_NODE;
    n.reached_from_source = &src;
    m.reached_from_source = &dst;
    int64_t d = any_time<12>(), c = any_time<13>();
    n.distance_from_source = 2 * d;
    m.distance_from_source = 2 * c;
    m.index_of_predecessor = any_u64<14>();
    f.queue.cur_time = d + c + (int64_t)(uint64_t)h;
    auto e = f.do_look_at_node_event(n);
    CHECK(e.detector_node == &n && e.neighbor_index == 0);
    CHECK(m.reached_from_source == &dst && m.distance_from_source == 2 * c && m.index_of_predecessor == any_u64<14>() && f.reached_nodes.size() == 0);
    REACH();
}
//@ the search reaches the boundary it was sent to
WITNESS(s_look_boundary) {
    SF(f);
    N(src); N(n); N(m);
    uint32_t w = any_u32<10>(), x = any_u32<11>();
    slink(n, m, w);
    slink_boundary(n, x);
    f.target_type = BOUNDARY;
    n.reached_from_source = &src;
    m.reached_from_source = &src;
    n.distance_from_source = any_time<12>();
    f.queue.cur_time = any_time<12>() + (int64_t)(uint64_t)x;
    auto e = f.do_look_at_node_event(n);
    CHECK(e.detector_node == &n && e.neighbor_index == 0 && f.reached_nodes.size() == 0);
    REACH();
}
//@ a node with nothing left to do is not woken again
WITNESS(s_look_done) {
    SF(f);
    N(src); N(n); N(m);
    slink(n, m, any_u32<10>());
    slink_boundary(n, any_u32<11>());
    f.target_type = DETECTOR_NODE;
    n.reached_from_source = &src;
    m.reached_from_source = &src;
    auto e = f.do_look_at_node_event(n);
    CHECK(e.detector_node == nullptr && f.reached_nodes.size() == 0 && !n.node_event_tracker.has_queued_time && f.queue.empty());
    REACH();
}
//@ rescheduling: withdrawn when nothing is left
WITNESS(s_resched_none) {
    SF(f);
    N(src); N(n); N(m);
    slink(n, m, any_u32<10>());
    f.target_type = DETECTOR_NODE;
    n.reached_from_source = m.reached_from_source = &src;
    n.node_event_tracker.has_desired_time = true;
    f.reschedule_events_at_search_detector_node(n);
    CHECK(!n.node_event_tracker.has_desired_time && f.queue.empty());
    REACH();
}
//@ clean-up: every reached node is pristine, the list is empty, the queue and its clock are reset
WITNESS(s_reset) {
    SF(f);
    N(src); N(n); N(m);
    slink(n, m, any_u32<10>());
    n.reached_from_source = &src;
    m.reached_from_source = &n;
    n.index_of_predecessor = any_u64<11>();
    m.index_of_predecessor = any_u64<12>();
    n.node_event_tracker.set_desired_event({&n, cyclic_time_int{(uint32_t)any_u32<13>()}}, f.queue);
    m.node_event_tracker.set_desired_event({&m, cyclic_time_int{(uint32_t)any_u32<14>()}}, f.queue);
    f.reached_nodes.push_back(&n);
    f.reached_nodes.push_back(&m);
    f.reset();
    CHECK(n.reached_from_source == nullptr && m.reached_from_source == nullptr);
    CHECK(n.index_of_predecessor == SIZE_MAX && m.index_of_predecessor == SIZE_MAX);
    CHECK(!n.node_event_tracker.has_desired_time && !n.node_event_tracker.has_queued_time);
    CHECK(!m.node_event_tracker.has_desired_time && !m.node_event_tracker.has_queued_time);
    CHECK(f.reached_nodes.size() == 0 && f.queue.empty() && f.queue.cur_time == 0);
    CHECK(n.neighbors.size() == 1 && n.neighbors[0] == &m && n.neighbor_weights[0] == any_u32<10>());
    REACH();
}
