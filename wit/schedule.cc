//! property: R04
//! target: pm::GraphFlooder event scheduling
//! defs: -DVP_COLLAPSE_ARRAY
// The next interaction of a node is the earliest one over all its edges, and whenever a region starts growing,
// shrinking or standing still every node it contains is (re)scheduled for what can now happen to it.
#include "mw.h"

enum Kind { EMPTY, GROW, FROZEN, SHRINK, SAME, SAME_TOP, GROW_IN };
constexpr cumulative_time_int NEVER = std::numeric_limits<cumulative_time_int>::max();

struct World {
    DetectorNode &n, *m[2];
    GraphFillRegion &r, *s[2], &inner;
};
#define WORLD(w)                \
    OBJ(DetectorNode, w##n);    \
    OBJ(DetectorNode, w##m0);   \
    OBJ(DetectorNode, w##m1);   \
    OBJ(GraphFillRegion, w##r); \
    OBJ(GraphFillRegion, w##s0);\
    OBJ(GraphFillRegion, w##s1);\
    OBJ(GraphFillRegion, w##in);\
    World w{w##n, {&w##m0, &w##m1}, w##r, {&w##s0, &w##s1}, w##in}

template <Kind K>
inline void place(World& w, int i, int64_t y, int64_t cached) {
    DetectorNode& m = *w.m[i];
    if (K == EMPTY)
        return;
    GraphFillRegion* r = K == SAME || K == SAME_TOP ? &w.r : w.s[i];
    m.region_that_arrived = m.region_that_arrived_top = r;
    if (K == SAME_TOP || K == GROW_IN) {  // reached by a region now inside r
        m.region_that_arrived = &w.inner;
        w.inner.blossom_parent = w.inner.blossom_parent_top = r;
        w.inner.radius = frozen_r<30>();
    }
    m.wrapped_radius_cached = cached;
    if (K == GROW || K == GROW_IN)
        r->radius = VaryingCT::from_base_and_growth(y, 1);
    if (K == FROZEN)
        r->radius = VaryingCT::from_base_and_growth(y, 0);
    if (K == SHRINK)
        r->radius = VaryingCT::from_base_and_growth(y, -1);
}
// when the growing node n (radius y1 + t) meets the neighbour over an edge of weight w
template <Kind K>
inline cumulative_time_int meet_growing(uint32_t w, VaryingCT l1, VaryingCT l2) {
    if (K == EMPTY || K == FROZEN)
        return (int64_t)(uint64_t)w - l1.y_intercept() - l2.y_intercept();
    if (K == GROW || K == GROW_IN)
        return ((int64_t)(uint64_t)w - l1.y_intercept() - l2.y_intercept()) >> 1;
    return NEVER;
}
template <Kind K>
inline cumulative_time_int meet_still(uint32_t w, VaryingCT l1, VaryingCT l2) {
    if (K == GROW || K == GROW_IN)
        return (int64_t)(uint64_t)w - l1.y_intercept() - l2.y_intercept();
    return NEVER;
}
// node owned by a growing region
template <Kind A, Kind B, bool BND>
inline void growing() {
    FLOODER(fl);
    WORLD(w);
    uint32_t w0 = any_u32<10>(), w1 = any_u32<11>(), wb = any_u32<12>();
    link(w.n, *w.m[0], w0, any_u64<13>());
    link(w.n, *w.m[1], w1, any_u64<14>());
    if (BND)
        link_boundary(w.n, wb, any_u64<15>());
    w.n.region_that_arrived = w.n.region_that_arrived_top = &w.r;
    w.r.radius = growing_r<16>();
    w.n.wrapped_radius_cached = any_time<17>();
    place<A>(w, 0, any_time<18>(), any_time<19>());
    place<B>(w, 1, any_time<20>(), any_time<21>());
    VaryingCT ln = w.n.local_radius();
    cumulative_time_int c0 = meet_growing<A>(w0, ln, w.m[0]->local_radius()), c1 = meet_growing<B>(w1, ln, w.m[1]->local_radius());
    cumulative_time_int cb = BND ? (int64_t)(uint64_t)wb - ln.y_intercept() : NEVER;
    bool odd0 = (A == GROW || A == GROW_IN) && ((w0 - ln.y_intercept() - w.m[0]->local_radius().y_intercept()) & 1);
    bool odd1 = (B == GROW || B == GROW_IN) && ((w1 - ln.y_intercept() - w.m[1]->local_radius().y_intercept()) & 1);
    auto x = fl.find_next_event_at_node_returning_neighbor_index_and_time(w.n);
    CHECK(odd0 || x.second <= c0);
    CHECK(odd1 || x.second <= c1);
    CHECK(x.second <= cb);
    if (x.first == SIZE_MAX) {
        CHECK(x.second == NEVER);
    } else {
        CHECK(x.first < 2 + BND);
        if (BND && x.first == 0)
            CHECK(x.second == cb);
        if (x.first == BND)
            CHECK(odd0 || x.second == c0);
        if (x.first == BND + 1)
            CHECK(odd1 || x.second == c1);
    }
    REACH();
}
// node not owned, or owned by a region that stands still or shrinks
template <Kind N, Kind A, Kind B, bool BND>
inline void still() {
    FLOODER(fl);
    WORLD(w);
    uint32_t w0 = any_u32<10>(), w1 = any_u32<11>(), wb = any_u32<12>();
    link(w.n, *w.m[0], w0, any_u64<13>());
    link(w.n, *w.m[1], w1, any_u64<14>());
    if (BND)
        link_boundary(w.n, wb, any_u64<15>());
    if (N != EMPTY) {
        w.n.region_that_arrived = w.n.region_that_arrived_top = &w.r;
        w.r.radius = frozen_r<16>();
        w.n.wrapped_radius_cached = any_time<17>();
    }
    place<A>(w, 0, any_time<18>(), any_time<19>());
    place<B>(w, 1, any_time<20>(), any_time<21>());
    VaryingCT ln = w.n.local_radius();
    cumulative_time_int c0 = meet_still<A>(w0, ln, w.m[0]->local_radius()), c1 = meet_still<B>(w1, ln, w.m[1]->local_radius());
    auto x = fl.find_next_event_at_node_returning_neighbor_index_and_time(w.n);
    CHECK(x.second <= c0);
    CHECK(x.second <= c1);
    if (x.first == SIZE_MAX) {
        CHECK(x.second == NEVER);
    } else {
        CHECK(x.first >= BND && x.first < 2 + BND);
        if (x.first == BND)
            CHECK(x.second == c0);
        if (x.first == BND + 1)
            CHECK(x.second == c1);
    }
    REACH();
}
//@ earliest meeting: growing node, neighbours empty / empty
WITNESS(s_g_ee) { growing<EMPTY, EMPTY, false>(); }
//@ earliest meeting: growing node, neighbours growing / standing still, boundary
WITNESS(s_g_gf_b) { growing<GROW, FROZEN, true>(); }
//@ earliest meeting: growing node, neighbours standing still / growing
WITNESS(s_g_fg) { growing<FROZEN, GROW, false>(); }
//@ earliest meeting: growing node, neighbours growing / growing
WITNESS(s_g_gg) { growing<GROW, GROW, false>(); }
//@ earliest meeting: growing node, neighbours standing still / empty, boundary
WITNESS(s_g_fe_b) { growing<FROZEN, EMPTY, true>(); }
//@ earliest meeting: growing node, a shrinking neighbour never meets it
WITNESS(s_g_sg) { growing<SHRINK, GROW, false>(); }
//@ earliest meeting: growing node, a shrinking neighbour never meets it (2nd place), boundary
WITNESS(s_g_es_b) { growing<EMPTY, SHRINK, true>(); }
//@ earliest meeting: growing node, a node of the same region never meets it
WITNESS(s_g_ig) { growing<SAME, GROW, false>(); }
//@ earliest meeting: growing node, a node of the same region never meets it (2nd place), boundary
WITNESS(s_g_fi_b) { growing<FROZEN, SAME, true>(); }
//@ earliest meeting: growing blossom, a node reached by a region inside it never meets it
WITNESS(s_g_ng) { growing<SAME_TOP, GROW, false>(); }
//@ earliest meeting: growing blossom, a node reached by a region inside it never meets it (2nd place), boundary
WITNESS(s_g_en_b) { growing<EMPTY, SAME_TOP, true>(); }
//@ earliest meeting: growing node, a neighbour deep inside a growing blossom
WITNESS(s_g_df) { growing<GROW_IN, FROZEN, false>(); }
//@ earliest meeting: standing node, a neighbour deep inside a growing blossom
WITNESS(s_f_gd) { still<FROZEN, GROW, GROW_IN, false>(); }
//@ earliest meeting: empty node, a neighbour deep inside a growing blossom
WITNESS(s_e_db) { still<EMPTY, GROW_IN, SHRINK, true>(); }
//@ earliest meeting: nothing around but its own region and shrinking ones
WITNESS(s_g_is) { growing<SAME, SHRINK, false>(); }
//@ earliest meeting: only the boundary
WITNESS(s_g_is_b) { growing<SAME, SHRINK, true>(); }
//@ earliest meeting: standing node, growing neighbours
WITNESS(s_f_gg) { still<FROZEN, GROW, GROW, false>(); }
//@ earliest meeting: standing node, one growing neighbour; the boundary does not come to it
WITNESS(s_f_ge_b) { still<FROZEN, GROW, EMPTY, true>(); }
//@ earliest meeting: standing node, one growing neighbour in 2nd place
WITNESS(s_f_fg_b) { still<FROZEN, FROZEN, GROW, true>(); }
//@ earliest meeting: standing node, shrinking and growing neighbours
WITNESS(s_f_sg) { still<FROZEN, SHRINK, GROW, false>(); }
//@ earliest meeting: empty node, growing neighbours
WITNESS(s_e_gg) { still<EMPTY, GROW, GROW, false>(); }
//@ earliest meeting: empty node, growing and standing neighbours, boundary
WITNESS(s_e_gf_b) { still<EMPTY, GROW, FROZEN, true>(); }
//@ earliest meeting: empty node, nothing growing around
WITNESS(s_e_fs_b) { still<EMPTY, FROZEN, SHRINK, true>(); }
#define LASTEV fl.queue.bit_buckets[0].back()
// node n of region r next to node m of a growing region: the growing region reaches n at time `t`
#define APPROACHED(n, m, g, w, y)                                         \
    link(n, m, w, 0);                                                     \
    m.region_that_arrived = m.region_that_arrived_top = &g;               \
    g.radius = VaryingCT::from_base_and_growth(y, 1)

//@ rescheduling a node wakes it at its next interaction
WITNESS(s_resched_some) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    OBJ(GraphFillRegion, g);
    uint32_t w = any_u32<1>();
    APPROACHED(n, m, g, w, any_time<2>());
    int64_t t = (int64_t)(uint64_t)w - any_time<2>();
    fl.reschedule_events_at_detector_node(n);
    CHECK(wakes_at(n.node_event_tracker, t));
    CHECK(fl.queue.size() == 1 && LASTEV == FloodCheckEvent(&n, cyclic_time_int{t}));
    REACH();
}
//@ rescheduling a node nothing can happen to withdraws its wake-up
WITNESS(s_resched_none) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    link(n, m, any_u32<1>(), 0);
    n.node_event_tracker.has_desired_time = true;
    n.node_event_tracker.desired_time = cyclic_time_int{any_u32<2>()};
    n.node_event_tracker.has_queued_time = true;
    n.node_event_tracker.queued_time = cyclic_time_int{any_u32<3>()};
    fl.reschedule_events_at_detector_node(n);
    CHECK(!n.node_event_tracker.has_desired_time && n.node_event_tracker.has_queued_time && n.node_event_tracker.queued_time.value == any_u32<3>());
    CHECK(fl.queue.size() == 0);
    REACH();
}
//@ looking at a node too early: it is looked at again when something happens
WITNESS(s_look_later) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    OBJ(GraphFillRegion, g);
    uint32_t w = any_u32<1>();
    APPROACHED(n, m, g, w, any_time<2>());
    int64_t t = (int64_t)(uint64_t)w - any_time<2>();
    ASSUME(t != fl.queue.cur_time);
    MwpmEvent ev = fl.do_look_at_node_event(n);
    CHECK(ev.event_type == NO_EVENT);
    CHECK(wakes_at(n.node_event_tracker, t));
    CHECK(n.region_that_arrived == nullptr);
    REACH();
}
//@ looking at an empty node exactly when a region arrives: it arrives, and the node is looked at once more
WITNESS(s_look_now_arrive) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    OBJ(GraphFillRegion, g);
    uint32_t w = any_u32<1>();
    link(n, m, w, any_u64<3>());
    m.region_that_arrived = m.region_that_arrived_top = &g;
    m.reached_from_source = &m;
    g.radius = VaryingCT::from_base_and_growth((int64_t)(uint64_t)w - fl.queue.cur_time, 1);
    MwpmEvent ev = fl.process_tentative_event_returning_mwpm_event(FloodCheckEvent(&n, cyclic_time_int{fl.queue.cur_time}));
    CHECK(ev.event_type == NO_EVENT);
    CHECK(n.region_that_arrived == &g && n.reached_from_source == &m);
    CHECK(g.shell_area.size() == 1 && g.shell_area[0] == &n);
    REACH();
}
//@ looking at a node exactly when two regions meet: collision reported, node to be looked at again at once
WITNESS(s_look_now_collide) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    OBJ(GraphFillRegion, r);
    OBJ(GraphFillRegion, g);
    uint32_t w = any_u32<1>();
    link(n, m, w, any_u64<3>());
    m.region_that_arrived = m.region_that_arrived_top = &g;
    n.region_that_arrived = n.region_that_arrived_top = &r;
    m.reached_from_source = &m;
    n.reached_from_source = &n;
    r.radius = VaryingCT::frozen(0);
    g.radius = VaryingCT::from_base_and_growth((int64_t)(uint64_t)w - fl.queue.cur_time, 1);
    MwpmEvent ev = fl.process_tentative_event_returning_mwpm_event(FloodCheckEvent(&n, cyclic_time_int{fl.queue.cur_time}));
    CHECK(ev.event_type == REGION_HIT_REGION);
    CHECK(ev.region_hit_region_event_data.region1 == &r && ev.region_hit_region_event_data.region2 == &g);
    CHECK(edge_is(ev.region_hit_region_event_data.edge, &n, &m, any_u64<3>()));
    CHECK(wakes_at(n.node_event_tracker, fl.queue.cur_time));
    REACH();
}
//@ looking at a node exactly when its region meets the boundary
WITNESS(s_look_now_boundary) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    OBJ(GraphFillRegion, r);
    uint32_t w = any_u32<1>();
    link(n, m, any_u32<5>(), any_u64<3>());
    link_boundary(n, w, any_u64<4>());
    m.region_that_arrived = m.region_that_arrived_top = &r;
    n.region_that_arrived = n.region_that_arrived_top = &r;
    n.reached_from_source = &n;
    r.radius = VaryingCT::from_base_and_growth((int64_t)(uint64_t)w - fl.queue.cur_time, 1);
    MwpmEvent ev = fl.do_look_at_node_event(n);
    CHECK(ev.event_type == REGION_HIT_BOUNDARY);
    CHECK(ev.region_hit_boundary_event_data.region == &r && edge_is(ev.region_hit_boundary_event_data.edge, &n, nullptr, any_u64<4>()));
    CHECK(wakes_at(n.node_event_tracker, fl.queue.cur_time));
    REACH();
}
//@ looking at a node nothing will happen to: nothing reported, nothing scheduled
WITNESS(s_look_never) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    link(n, m, any_u32<5>(), any_u64<3>());
    MwpmEvent ev = fl.do_look_at_node_event(n);
    CHECK(ev.event_type == NO_EVENT && fl.queue.size() == 0 && !n.node_event_tracker.has_queued_time);
    REACH();
}
//@ a region event looks at the region
WITNESS(s_dispatch_region) {
    FLOODER(fl);
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, b);
    OBJ(GraphFillRegion, r);
    r.radius = shrinking_r<1>();
    own(a, r, r, a, 0, any_time<3>());
    own(b, r, r, a, any_u64<4>(), any_time<5>());
    MwpmEvent ev = fl.process_tentative_event_returning_mwpm_event(FloodCheckEvent(&r, cyclic_time_int{fl.queue.cur_time}));
    CHECK(ev.event_type == NO_EVENT && r.shell_area.size() == 1 && b.region_that_arrived == nullptr);
    REACH();
}
//@ node events are judged by the node's tracker
WITNESS(s_decide_node) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    uint32_t t = any_u32<1>();
    n.node_event_tracker.has_desired_time = n.node_event_tracker.has_queued_time = true;
    n.node_event_tracker.desired_time = n.node_event_tracker.queued_time = cyclic_time_int{t};
    CHECK(fl.dequeue_decision(FloodCheckEvent(&n, cyclic_time_int{t})));
    CHECK(!n.node_event_tracker.has_desired_time && !n.node_event_tracker.has_queued_time);
    CHECK(!fl.dequeue_decision(FloodCheckEvent(&n, cyclic_time_int{t})));
    REACH();
}
//@ region events are judged by the region's tracker
WITNESS(s_decide_region) {
    FLOODER(fl);
    OBJ(GraphFillRegion, r);
    uint32_t t = any_u32<1>();
    r.shrink_event_tracker.has_desired_time = r.shrink_event_tracker.has_queued_time = true;
    r.shrink_event_tracker.desired_time = r.shrink_event_tracker.queued_time = cyclic_time_int{t};
    CHECK(fl.dequeue_decision(FloodCheckEvent(&r, cyclic_time_int{t})));
    CHECK(!r.shrink_event_tracker.has_desired_time && !r.shrink_event_tracker.has_queued_time);
    CHECK(!fl.dequeue_decision(FloodCheckEvent(&r, cyclic_time_int{t})));
    REACH();
}
//@ an exhausted queue ends the flooding
WITNESS(s_exhausted) {
    FLOODER(fl);
    CHECK(fl.dequeue_valid().tentative_event_type == NO_FLOOD_CHECK_EVENT);
    CHECK(fl.run_until_next_mwpm_notification().event_type == NO_EVENT);
    REACH();
}
// A blossom R with own nodes a1, a2 and a child C with node c; each has a neighbour owned by a growing region g.
#define THREE_NODES                                                                  \
    FLOODER(fl);                                                                     \
    OBJ(DetectorNode, a1);                                                           \
    OBJ(DetectorNode, a2);                                                           \
    OBJ(DetectorNode, c);                                                            \
    OBJ(DetectorNode, m1);                                                           \
    OBJ(DetectorNode, m2);                                                           \
    OBJ(DetectorNode, m3);                                                           \
    OBJ(GraphFillRegion, r);                                                         \
    OBJ(GraphFillRegion, ch);                                                        \
    OBJ(GraphFillRegion, g);                                                         \
    ch.blossom_parent = ch.blossom_parent_top = &r;                                  \
    r.blossom_children.push_back({&ch, {nullptr, nullptr, 0}});                      \
    uint32_t w1 = any_u32<1>(), w2 = any_u32<2>(), w3 = any_u32<3>();                \
    link(a1, m1, w1, 0);                                                             \
    link(a2, m2, w2, 0);                                                             \
    link(c, m3, w3, 0);                                                              \
    m1.region_that_arrived = m1.region_that_arrived_top = &g;                        \
    m2.region_that_arrived = m2.region_that_arrived_top = &g;                        \
    m3.region_that_arrived = m3.region_that_arrived_top = &g;                        \
    g.radius = growing_r<4>();                                                       \
    a1.region_that_arrived = a2.region_that_arrived = &r;                            \
    c.region_that_arrived = &ch;                                                     \
    a1.region_that_arrived_top = a2.region_that_arrived_top = c.region_that_arrived_top = &r; \
    a1.reached_from_source = a2.reached_from_source = c.reached_from_source = &c;    \
    a1.wrapped_radius_cached = any_time<5>();                                        \
    a2.wrapped_radius_cached = any_time<6>();                                        \
    c.wrapped_radius_cached = any_time<7>();                                         \
    r.shell_area.push_back(&a1);                                                     \
    r.shell_area.push_back(&a2);                                                     \
    ch.shell_area.push_back(&c)
#define MEET(n, w) ((int64_t)(uint64_t)(w) - n.local_radius().y_intercept() - g.radius.y_intercept())

//@ a region starts growing: slope and radius, shrink event withdrawn, every node inside rescheduled
WITNESS(s_set_growing) {
    THREE_NODES;
    r.radius = frozen_r<8>();
    r.shrink_event_tracker.has_desired_time = true;
    VaryingCT before = r.radius;
    fl.set_region_growing(r);
    CHECK(r.radius == before.then_growing_at_time(fl.queue.cur_time));
    CHECK(!r.shrink_event_tracker.has_desired_time);
    CHECK_HALF(MEET(a1, w1), wakes_at(a1.node_event_tracker, MEET(a1, w1) >> 1));
    CHECK_HALF(MEET(a2, w2), wakes_at(a2.node_event_tracker, MEET(a2, w2) >> 1));
    CHECK_HALF(MEET(c, w3), wakes_at(c.node_event_tracker, MEET(c, w3) >> 1));
    REACH();
}
//@ a region starts growing out of shrinking
WITNESS(s_set_growing_from_shrinking) {
    THREE_NODES;
    r.radius = shrinking_r<8>();
    r.shrink_event_tracker.has_desired_time = true;
    VaryingCT before = r.radius;
    fl.set_region_growing(r);
    CHECK(r.radius == before.then_growing_at_time(fl.queue.cur_time));
    CHECK(!r.shrink_event_tracker.has_desired_time);
    CHECK(a1.node_event_tracker.has_desired_time && a2.node_event_tracker.has_desired_time && c.node_event_tracker.has_desired_time);
    REACH();
}
//@ a shrinking region stops: shrink event withdrawn, every node inside rescheduled for those growing towards it
WITNESS(s_set_frozen_from_shrinking) {
    THREE_NODES;
    r.radius = shrinking_r<8>();
    r.shrink_event_tracker.has_desired_time = true;
    VaryingCT before = r.radius;
    fl.set_region_frozen(r);
    CHECK(r.radius == before.then_frozen_at_time(fl.queue.cur_time));
    CHECK(!r.shrink_event_tracker.has_desired_time);
    CHECK(wakes_at(a1.node_event_tracker, MEET(a1, w1)));
    CHECK(wakes_at(a2.node_event_tracker, MEET(a2, w2)));
    CHECK(wakes_at(c.node_event_tracker, MEET(c, w3)));
    REACH();
}
//@ a growing region stops: radius kept, no node loses a wake-up it had (meetings can only come later)
WITNESS(s_set_frozen_from_growing) {
    THREE_NODES;
    r.radius = growing_r<8>();
    r.shrink_event_tracker.has_desired_time = true;
    a1.node_event_tracker.has_desired_time = a2.node_event_tracker.has_desired_time = c.node_event_tracker.has_desired_time = true;
    VaryingCT before = r.radius;
    fl.set_region_frozen(r);
    CHECK(r.radius == before.then_frozen_at_time(fl.queue.cur_time));
    CHECK(!r.shrink_event_tracker.has_desired_time);
    CHECK(a1.node_event_tracker.has_desired_time && a2.node_event_tracker.has_desired_time && c.node_event_tracker.has_desired_time);
    REACH();
}
//@ a region starts shrinking: it is woken when its outermost node is left, no node inside waits for anything
WITNESS(s_set_shrinking) {
    THREE_NODES;
    r.radius = frozen_r<8>();
    a1.node_event_tracker.has_desired_time = a2.node_event_tracker.has_desired_time = c.node_event_tracker.has_desired_time = true;
    VaryingCT before = r.radius;
    fl.set_region_shrinking(r);
    CHECK(r.radius == before.then_shrinking_at_time(fl.queue.cur_time));
    CHECK(wakes_at(r.shrink_event_tracker, a2.local_radius().time_of_x_intercept_for_shrinking()));
    CHECK(fl.queue.size() == 1 && LASTEV == FloodCheckEvent(&r, cyclic_time_int{a2.local_radius().time_of_x_intercept_for_shrinking()}));
    CHECK(!a1.node_event_tracker.has_desired_time && !a2.node_event_tracker.has_desired_time && !c.node_event_tracker.has_desired_time);
    REACH();
}
//@ a blossom without own nodes shrinks: it is woken when its own radius is used up
WITNESS(s_set_shrinking_no_shell) {
    FLOODER(fl);
    OBJ(DetectorNode, c);
    OBJ(GraphFillRegion, r);
    OBJ(GraphFillRegion, ch);
    ch.blossom_parent = ch.blossom_parent_top = &r;
    r.blossom_children.push_back({&ch, {nullptr, nullptr, 0}});
    c.region_that_arrived = &ch;
    c.region_that_arrived_top = &r;
    c.wrapped_radius_cached = any_time<7>();
    ch.shell_area.push_back(&c);
    r.radius = growing_r<8>();
    c.node_event_tracker.has_desired_time = true;
    fl.set_region_shrinking(r);
    CHECK(r.radius.is_shrinking());
    CHECK(wakes_at(r.shrink_event_tracker, r.radius.time_of_x_intercept_for_shrinking()));
    CHECK(!c.node_event_tracker.has_desired_time);
    REACH();
}
// A blossom R without own nodes, one child C with node c and one child without own nodes whose child has node e.
#define DEEP_NODES                                                                     \
    FLOODER(fl);                                                                       \
    OBJ(DetectorNode, c);                                                              \
    OBJ(DetectorNode, e);                                                              \
    OBJ(DetectorNode, m1);                                                             \
    OBJ(DetectorNode, m2);                                                             \
    OBJ(GraphFillRegion, r);                                                           \
    OBJ(GraphFillRegion, c1);                                                          \
    OBJ(GraphFillRegion, c2);                                                          \
    OBJ(GraphFillRegion, gc);                                                          \
    OBJ(GraphFillRegion, g);                                                           \
    c1.blossom_parent = c1.blossom_parent_top = c2.blossom_parent = c2.blossom_parent_top = gc.blossom_parent_top = &r; \
    gc.blossom_parent = &c2;                                                           \
    r.blossom_children.push_back({&c1, {nullptr, nullptr, 0}});                        \
    r.blossom_children.push_back({&c2, {nullptr, nullptr, 0}});                        \
    c2.blossom_children.push_back({&gc, {nullptr, nullptr, 0}});                       \
    uint32_t w1 = any_u32<1>(), w2 = any_u32<2>();                                     \
    link(c, m1, w1, 0);                                                                \
    link(e, m2, w2, 0);                                                                \
    m1.region_that_arrived = m1.region_that_arrived_top = &g;                          \
    m2.region_that_arrived = m2.region_that_arrived_top = &g;                          \
    g.radius = growing_r<4>();                                                         \
    c.region_that_arrived = &c1;                                                       \
    e.region_that_arrived = &gc;                                                       \
    c.region_that_arrived_top = e.region_that_arrived_top = &r;                        \
    c.reached_from_source = e.reached_from_source = &c;                                \
    c.wrapped_radius_cached = any_time<5>();                                           \
    e.wrapped_radius_cached = any_time<6>();                                           \
    c1.shell_area.push_back(&c);                                                       \
    gc.shell_area.push_back(&e)
//@ a blossom without own nodes starts growing: every node however deep inside is rescheduled
WITNESS(s_set_growing_deep) {
    DEEP_NODES;
    r.radius = frozen_r<8>();
    r.shrink_event_tracker.has_desired_time = true;
    fl.set_region_growing(r);
    CHECK(!r.shrink_event_tracker.has_desired_time);
    CHECK_HALF(MEET(c, w1), wakes_at(c.node_event_tracker, MEET(c, w1) >> 1));
    CHECK_HALF(MEET(e, w2), wakes_at(e.node_event_tracker, MEET(e, w2) >> 1));
    REACH();
}
//@ a shrinking blossom without own nodes stops: every node however deep inside is rescheduled
WITNESS(s_set_frozen_deep) {
    DEEP_NODES;
    r.radius = shrinking_r<8>();
    r.shrink_event_tracker.has_desired_time = true;
    fl.set_region_frozen(r);
    CHECK(!r.shrink_event_tracker.has_desired_time);
    CHECK(wakes_at(c.node_event_tracker, MEET(c, w1)));
    CHECK(wakes_at(e.node_event_tracker, MEET(e, w2)));
    REACH();
}
//@ a blossom without own nodes starts shrinking: no node however deep inside waits for anything
WITNESS(s_set_shrinking_deep) {
    DEEP_NODES;
    r.radius = frozen_r<8>();
    c.node_event_tracker.has_desired_time = e.node_event_tracker.has_desired_time = true;
    fl.set_region_shrinking(r);
    CHECK(wakes_at(r.shrink_event_tracker, r.radius.time_of_x_intercept_for_shrinking()));
    CHECK(!c.node_event_tracker.has_desired_time && !e.node_event_tracker.has_desired_time);
    REACH();
}
//@ after a node left a shrinking region the next departure is scheduled and the node waits for its neighbours
WITNESS(s_leave) {
    THREE_NODES;
    r.radius = shrinking_r<8>();
    MwpmEvent ev = fl.do_region_shrinking(r);
    CHECK(ev.event_type == NO_EVENT);
    CHECK(wakes_at(a2.node_event_tracker, (int64_t)(uint64_t)w2 - g.radius.y_intercept()));
    CHECK(wakes_at(r.shrink_event_tracker, a1.local_radius().time_of_x_intercept_for_shrinking()));
    REACH();
}
//@ a new region at a detection event is scheduled for its first meeting
WITNESS(s_created) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    OBJ(GraphFillRegion, r);
    uint32_t w = any_u32<1>();
    link(n, m, w, 0);
    fl.do_region_created_at_empty_detector_node(r, n);
    CHECK(wakes_at(n.node_event_tracker, (int64_t)(uint64_t)w));
    REACH();
}
//@ a node just reached is scheduled for its own next meeting
WITNESS(s_arrived) {
    FLOODER(fl);
    OBJ(DetectorNode, f);
    OBJ(DetectorNode, e);
    OBJ(DetectorNode, m);
    OBJ(GraphFillRegion, r);
    uint32_t w = any_u32<1>();
    link(f, e, any_u32<2>(), 0);
    link(e, m, w, 0);
    r.radius = growing_r<3>();
    f.region_that_arrived = f.region_that_arrived_top = &r;
    f.reached_from_source = &f;
    fl.do_region_arriving_at_empty_detector_node(r, e, f, 0);
    CHECK(wakes_at(e.node_event_tracker, (int64_t)(uint64_t)w - e.local_radius().y_intercept()));
    REACH();
}
