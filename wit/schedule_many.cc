//! property: R04
//! target: pm::GraphFlooder event scheduling
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=12
// Nodes with many edges and regions with many nodes: nothing depends on how many there are or where the earliest one is.
#include "mw.h"

// Growing node with N unreached neighbours, the one at place K at an arbitrary distance nearer than all others.
template <int N, int K, bool BND>
inline void nearest() {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    OBJ(GraphFillRegion, r);
    uint32_t w = any_u32<10>() >> 8;  // less than the others, all of which exceed 2^24
#pragma clang loop unroll(full)
    for (int i = 0; i < N; i++) {
        n.neighbors.push_back(&m);
        n.neighbor_weights.push_back(i == K ? w : 0x1000001u * (i % 3 + 1) + i);
        n.neighbor_observables.push_back(0);
    }
    if (BND)
        link_boundary(n, 0x70000000u, 0);
    n.region_that_arrived = n.region_that_arrived_top = &r;
    r.radius = VaryingCT::growing_varying_with_zero_distance_at_time(40);
    n.wrapped_radius_cached = 6;
    auto x = fl.find_next_event_at_node_returning_neighbor_index_and_time(n);
    CHECK(x.first == K + BND && x.second == (int64_t)(uint64_t)w - n.local_radius().y_intercept());
    REACH();
}
//@ earliest of ten meetings is the first
WITNESS(sm_near_0) { nearest<10, 0, false>(); }
//@ earliest of ten meetings is the fifth
WITNESS(sm_near_4) { nearest<10, 4, true>(); }
//@ earliest of ten meetings is the eighth
WITNESS(sm_near_7) { nearest<10, 7, false>(); }
//@ earliest of ten meetings is the last
WITNESS(sm_near_9) { nearest<10, 9, true>(); }
// Unreached node with N neighbours, of which the one at place K is growing.
template <int N, int K, bool BND>
inline void approached() {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    OBJ(DetectorNode, f);
    OBJ(GraphFillRegion, r);
    uint32_t w = any_u32<10>();
#pragma clang loop unroll(full)
    for (int i = 0; i < N; i++) {
        n.neighbors.push_back(i == K ? &m : &f);
        n.neighbor_weights.push_back(i == K ? w : i);
        n.neighbor_observables.push_back(0);
    }
    if (BND)
        link_boundary(n, 1, 0);
    m.region_that_arrived = m.region_that_arrived_top = &r;
    r.radius = growing_r<16>();
    m.wrapped_radius_cached = any_time<17>();
    auto x = fl.find_next_event_at_node_returning_neighbor_index_and_time(n);
    CHECK(x.first == K + BND && x.second == (int64_t)(uint64_t)w - m.local_radius().y_intercept());
    REACH();
}
//@ only the sixth of ten neighbours grows
WITNESS(sm_approach_5) { approached<10, 5, false>(); }
//@ only the last of ten neighbours grows
WITNESS(sm_approach_9) { approached<10, 9, true>(); }
// A region with six nodes, each with an unreached neighbour at its own distance.
#define MEMBER(i)                                                \
    OBJ(DetectorNode, n##i);                                     \
    n##i.neighbors.push_back(&m); n##i.neighbor_weights.push_back(100 + i); n##i.neighbor_observables.push_back(0);                                \
    n##i.region_that_arrived = n##i.region_that_arrived_top = &r;\
    n##i.reached_from_source = &n0;                              \
    n##i.wrapped_radius_cached = -i;                             \
    r.shell_area.push_back(&n##i);
#define MEMBERS                     \
    FLOODER(fl);                    \
    OBJ(DetectorNode, m);           \
    OBJ(GraphFillRegion, r);        \
    fl.queue.cur_time = 10;          \
    r.radius = VaryingCT::frozen(50);
//@ a region with four nodes starts growing: each node is rescheduled
WITNESS(sm_grow) {
    MEMBERS
    MEMBER(0) MEMBER(1) MEMBER(2) MEMBER(3)
    fl.set_region_growing(r);
#define AT(i) wakes_at(n##i.node_event_tracker, 100 + i - (r.radius.y_intercept() - i))
    CHECK(AT(0)); CHECK(AT(1)); CHECK(AT(2)); CHECK(AT(3));
    REACH();
}
//@ a region with six nodes starts shrinking: none waits for a meeting
WITNESS(sm_shrink) {
    MEMBERS
    MEMBER(0) MEMBER(1) MEMBER(2) MEMBER(3) MEMBER(4) MEMBER(5)
#define WAIT(i) n##i.node_event_tracker.has_desired_time = true;
    WAIT(0) WAIT(1) WAIT(2) WAIT(3) WAIT(4) WAIT(5)
    fl.set_region_shrinking(r);
#define NOT(i) CHECK(!n##i.node_event_tracker.has_desired_time)
    NOT(0); NOT(1); NOT(2); NOT(3); NOT(4); NOT(5);
    REACH();
}
