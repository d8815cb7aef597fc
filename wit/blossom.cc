//! property: R06
//! target: pm::Mwpm blossom formation and dissolution
//! defs: -DVP_COLLAPSE_ARRAY
// Blossoms: odd cycles are contracted with the exact paths around them and re-expanded into exactly the regions they
// were made of, each node always knowing its topmost region and its distance within it.
#include "tree_util.h"

#define OWN1(n, r) own(n, r, r, n, 0, 0)
// nodes of a new blossom b made of x (node dx)
#define WRAPPED(x, dx, before)                                                                                      \
    (x.blossom_parent == b && x.blossom_parent_top == b && KEEPS(x, before) && x.alt_tree_node == nullptr &&        \
     !x.shrink_event_tracker.has_desired_time && dx.region_that_arrived == &x && dx.region_that_arrived_top == b && \
     dx.reached_from_source == &dx && dx.wrapped_radius_cached == x.radius.y_intercept())

//@ forming a blossom from given regions: growing from radius zero, children frozen inside with their distances kept
WITNESS(b_create) {
    FLOODER(fl);
    D(d1); D(d2); D(d3); D(m);
    R(x); R(y); R(z); R(g);
    x.radius = growing_r<1>(); y.radius = shrinking_r<2>(); z.radius = growing_r<3>();
    OWN1(d1, x); OWN1(d2, y); OWN1(d3, z);
    x.shrink_event_tracker.has_desired_time = y.shrink_event_tracker.has_desired_time = z.shrink_event_tracker.has_desired_time = true;
    VaryingCT bx = x.radius, by = y.radius, bz = z.radius;
    std::vector<RegionEdge> cyc{{&x, path<11>(&d1, &d2)}, {&y, path<12>(&d2, &d3)}, {&z, path<13>(&d3, &d1)}};
    GraphFillRegion* b = fl.create_blossom(cyc);
#undef NOW
#define NOW fl.queue.cur_time
    CHECK(b->radius == VaryingCT::growing_varying_with_zero_distance_at_time(NOW));
    CHECK(b->blossom_parent == nullptr && b->blossom_parent_top == b && b->shell_area.size() == 0 && b->blossom_children.size() == 3);
    CHECK(in_cycle(b->blossom_children[0], &x, &d1, &d2, any_u64<11>()) && in_cycle(b->blossom_children[1], &y, &d2, &d3, any_u64<12>()));
    CHECK(in_cycle(b->blossom_children[2], &z, &d3, &d1, any_u64<13>()));
    CHECK(x.blossom_parent == b && x.blossom_parent_top == b && y.blossom_parent == b && y.blossom_parent_top == b && z.blossom_parent == b && z.blossom_parent_top == b);
    CHECK(KEEPS(x, bx));
    CHECK(KEEPS(y, by));
    CHECK(KEEPS(z, bz));
    CHECK(!x.shrink_event_tracker.has_desired_time && !y.shrink_event_tracker.has_desired_time && !z.shrink_event_tracker.has_desired_time);
    CHECK(d1.region_that_arrived == &x && d1.region_that_arrived_top == b && d2.region_that_arrived_top == b && d3.region_that_arrived_top == b);
    CHECK(d1.wrapped_radius_cached == x.radius.y_intercept());
    CHECK(d2.wrapped_radius_cached == y.radius.y_intercept());
    CHECK(d3.wrapped_radius_cached == z.radius.y_intercept());
    CHECK(fl.region_arena.allocated.size() == 1 && fl.region_arena.available.size() == 0);
    REACH();
#undef NOW
#define NOW mw.flooder.queue.cur_time
}
//@ nodes inside a new blossom are rescheduled for the blossom's growth
WITNESS(b_create_resched) {
    FLOODER(fl);
    D(d1); D(m);
    R(x); R(g);
    x.radius = shrinking_r<1>();
    g.radius = growing_r<2>();
    uint32_t w = any_u32<3>();
    link(d1, m, w, 0);
    m.region_that_arrived = m.region_that_arrived_top = &g;
    OWN1(d1, x);
    std::vector<RegionEdge> cyc{{&x, path<11>(&d1, &d1)}};
    GraphFillRegion* b = fl.create_blossom(cyc);
    int64_t gap = (int64_t)(uint64_t)w - d1.local_radius().y_intercept() - g.radius.y_intercept();
    CHECK_HALF(w ^ any_time<1>() ^ any_time<2>(), wakes_at(d1.node_event_tracker, gap >> 1));
    REACH();
}
//@ forming a blossom from a blossom and a region: nothing inside waits to shrink, distances add up, all nodes rescheduled
WITNESS(b_create_nested) {
    FLOODER(fl);
    D(d1); D(d2); D(d3); D(m1); D(m3);
    R(x); R(in); R(y); R(g);
    in.radius = frozen_r<1>(); x.radius = shrinking_r<2>(); y.radius = growing_r<3>();
    g.radius = growing_r<4>();
    in.blossom_parent = in.blossom_parent_top = &x;
    x.blossom_children.push_back({&in, {nullptr, nullptr, 0}});
    uint32_t w1 = any_u32<5>(), w3 = any_u32<6>();
    link(d1, m1, w1, 0);
    link(d3, m3, w3, 0);
    m1.region_that_arrived = m1.region_that_arrived_top = m3.region_that_arrived = m3.region_that_arrived_top = &g;
    own(d1, in, x, d1, 0, 0); own(d2, x, x, d1, any_u64<7>(), any_time<8>()); OWN1(d3, y);
    x.shrink_event_tracker.has_desired_time = true;
    std::vector<RegionEdge> cyc{{&x, path<11>(&d1, &d3)}, {&y, path<12>(&d3, &d1)}};
    GraphFillRegion* b = fl.create_blossom(cyc);
    CHECK(!x.shrink_event_tracker.has_desired_time && !y.shrink_event_tracker.has_desired_time);
    CHECK(x.blossom_parent == b && y.blossom_parent == b && in.blossom_parent == &x && in.blossom_parent_top == b && x.blossom_parent_top == b);
    CHECK(d1.region_that_arrived == &in && d1.region_that_arrived_top == b && d2.region_that_arrived == &x && d2.region_that_arrived_top == b);
    CHECK(d1.wrapped_radius_cached == any_time<1>() + x.radius.y_intercept());
    CHECK(d2.wrapped_radius_cached == x.radius.y_intercept() - any_time<8>());
    CHECK(d3.wrapped_radius_cached == y.radius.y_intercept());
    int64_t gap1 = (int64_t)(uint64_t)w1 - d1.local_radius().y_intercept() - g.radius.y_intercept();
    int64_t gap3 = (int64_t)(uint64_t)w3 - d3.local_radius().y_intercept() - g.radius.y_intercept();
    CHECK_HALF(w1 ^ any_time<1>() ^ any_time<2>() ^ any_time<4>(), wakes_at(d1.node_event_tracker, gap1 >> 1));
    CHECK_HALF(w3 ^ any_time<3>() ^ any_time<4>(), wakes_at(d3.node_event_tracker, gap3 >> 1));
    REACH();
}
//@ wrapping a nested region: every descendant and node learns the new top, wrapped radius adds all inner radii
WITNESS(b_wrap_nested) {
    D(d1); D(d2);
    R(top); R(mid); R(low);
    low.radius = frozen_r<1>();
    mid.radius = frozen_r<2>();
    low.blossom_parent = &mid;
    low.blossom_parent_top = &mid;
    mid.blossom_children.push_back({&low, {nullptr, nullptr, 0}});
    d1.region_that_arrived = &low; d1.region_that_arrived_top = &mid; d1.reached_from_source = &d1; d1.radius_of_arrival = any_time<3>();
    low.shell_area.push_back(&d1);
    d2.region_that_arrived = &mid; d2.region_that_arrived_top = &mid; d2.reached_from_source = &d1; d2.radius_of_arrival = any_time<4>();
    mid.shell_area.push_back(&d2);
    mid.wrap_into_blossom(&top);
    CHECK(mid.blossom_parent == &top && mid.blossom_parent_top == &top && low.blossom_parent == &mid && low.blossom_parent_top == &top);
    CHECK(d1.region_that_arrived_top == &top && d2.region_that_arrived_top == &top && d1.region_that_arrived == &low && d2.region_that_arrived == &mid);
    CHECK(d1.wrapped_radius_cached == any_time<1>() + any_time<2>() - any_time<3>());
    CHECK(d2.wrapped_radius_cached == any_time<2>() - any_time<4>());
    REACH();
}
//@ releasing a nested region from its blossom: it is the new top of everything in it
WITNESS(b_release_nested) {
    D(d1); D(d2);
    R(top); R(mid); R(low);
    low.radius = frozen_r<1>();
    mid.radius = frozen_r<2>();
    low.blossom_parent = &mid;
    mid.blossom_parent = &top;
    low.blossom_parent_top = mid.blossom_parent_top = &top;
    mid.blossom_children.push_back({&low, {nullptr, nullptr, 0}});
    d1.region_that_arrived = &low; d1.region_that_arrived_top = &top; d1.reached_from_source = &d1; d1.radius_of_arrival = any_time<3>();
    low.shell_area.push_back(&d1);
    d2.region_that_arrived = &mid; d2.region_that_arrived_top = &top; d2.reached_from_source = &d1; d2.radius_of_arrival = any_time<4>();
    mid.shell_area.push_back(&d2);
    mid.clear_blossom_parent();
    CHECK(mid.blossom_parent == nullptr && mid.blossom_parent_top == &mid && low.blossom_parent == &mid && low.blossom_parent_top == &mid);
    CHECK(d1.region_that_arrived_top == &mid && d2.region_that_arrived_top == &mid && d1.region_that_arrived == &low && d2.region_that_arrived == &mid);
    CHECK(d1.wrapped_radius_cached == any_time<1>() - any_time<3>());
    CHECK(d2.wrapped_radius_cached == -any_time<4>());
    REACH();
}
//@ ... the variant used when matches are read off
WITNESS(b_release_nested_final) {
    D(d1); D(d2);
    R(top); R(mid); R(low);
    low.blossom_parent = &mid;
    mid.blossom_parent = &top;
    low.blossom_parent_top = mid.blossom_parent_top = &top;
    mid.blossom_children.push_back({&low, {nullptr, nullptr, 0}});
    d1.region_that_arrived = &low; d1.region_that_arrived_top = &top; d1.reached_from_source = &d1;
    low.shell_area.push_back(&d1);
    d2.region_that_arrived = &mid; d2.region_that_arrived_top = &top; d2.reached_from_source = &d1;
    mid.shell_area.push_back(&d2);
    mid.clear_blossom_parent_ignoring_wrapped_radius();
    CHECK(mid.blossom_parent == nullptr && mid.blossom_parent_top == &mid && low.blossom_parent == &mid && low.blossom_parent_top == &mid);
    CHECK(d1.region_that_arrived_top == &mid && d2.region_that_arrived_top == &mid && d1.region_that_arrived == &low && d2.region_that_arrived == &mid);
    REACH();
}
//@ the child of the top region that holds a node
WITNESS(b_heir) {
    D(d1); D(d2);
    R(top); R(mid); R(low);
    low.blossom_parent = &mid;
    mid.blossom_parent = &top;
    d1.region_that_arrived = &low; d1.region_that_arrived_top = &top;
    d2.region_that_arrived = &mid; d2.region_that_arrived_top = &top;
    CHECK(d1.heir_region_on_shatter() == &mid && d2.heir_region_on_shatter() == &mid);
    REACH();
}
//@ nesting order of regions
WITNESS(b_order) {
    R(top); R(mid); R(low); R(oth);
    low.blossom_parent = &mid;
    mid.blossom_parent = &top;
    CHECK(low < mid && low < top && mid < top && !(top < mid) && !(mid < low) && !(low < low) && low <= low);
    CHECK(top > low && top >= mid && !(low > mid) && !(low < oth) && !(oth < low) && !(oth > low) && oth >= oth && !(oth >= low));
    REACH();
}
//@ two branches of one tree meet: 5-cycle with exact paths, branches leave the tree, blossom takes the ancestor's place
WITNESS(b_self_siblings) {
    MW;
    D(d1); D(d2); D(d3); D(d4); D(d5);
    R(ao); R(bi); R(bo); R(ci); R(co);
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));
    OBJ(AltTreeNode, C, &ci, &co, path<3>(&d4, &d5));
    GROWING(ao, 11); SHRINKING(bi, 12); GROWING(bo, 13); SHRINKING(ci, 14); GROWING(co, 15);
    OWN1(d1, ao); OWN1(d2, bi); OWN1(d3, bo); OWN1(d4, ci); OWN1(d5, co);
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    A.add_child(AltTreeEdge(&C, path<4>(&d1, &d4)));
    mw.handle_tree_hitting_self(RegionHitRegionEventData{&bo, &co, path<20>(&d3, &d5)}, &A);
    GraphFillRegion* b = A.outer_region;
    CHECK(b->alt_tree_node == &A && A.inner_region == nullptr && A.children.size() == 0 && no_parent(A));
    CHECK(b->blossom_children.size() == 5);
    CHECK(in_cycle(b->blossom_children[0], &co, &d5, &d4, any_u64<3>()));
    CHECK(in_cycle(b->blossom_children[1], &ci, &d4, &d1, any_u64<4>()));
    CHECK(in_cycle(b->blossom_children[2], &ao, &d1, &d2, any_u64<2>()));
    CHECK(in_cycle(b->blossom_children[3], &bi, &d2, &d3, any_u64<1>()));
    CHECK(in_cycle(b->blossom_children[4], &bo, &d3, &d5, any_u64<20>()));
    CHECK(ao.alt_tree_node == nullptr && bi.alt_tree_node == nullptr && bo.alt_tree_node == nullptr && ci.alt_tree_node == nullptr && co.alt_tree_node == nullptr);
    CHECK(ao.blossom_parent == b && bi.blossom_parent == b && bo.blossom_parent == b && ci.blossom_parent == b && co.blossom_parent == b);
    CHECK(mw.node_arena.available.size() == 2);
    REACH();
}
//@ a region meets the root of its own tree: 3-cycle; the children of the absorbed node are kept by the blossom
WITNESS(b_self_root) {
    MW;
    D(d1); D(d2); D(d3); D(d4); D(d5); D(d6);
    R(ao); R(bi); R(bo); R(ci); R(co);
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));
    OBJ(AltTreeNode, C, &ci, &co, path<3>(&d4, &d5));
    GROWING(ao, 11); SHRINKING(bi, 12); GROWING(bo, 13); SHRINKING(ci, 14); GROWING(co, 15);
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    B.add_child(AltTreeEdge(&C, path<4>(&d6, &d4)));
    mw.handle_tree_hitting_self(RegionHitRegionEventData{&bo, &ao, path<20>(&d6, &d1)}, &A);
    GraphFillRegion* b = A.outer_region;
    CHECK(b->alt_tree_node == &A && A.inner_region == nullptr && no_parent(A));
    CHECK(b->blossom_children.size() == 3);
    CHECK(in_cycle(b->blossom_children[0], &ao, &d1, &d2, any_u64<2>()));
    CHECK(in_cycle(b->blossom_children[1], &bi, &d2, &d3, any_u64<1>()));
    CHECK(in_cycle(b->blossom_children[2], &bo, &d6, &d1, any_u64<20>()));
    CHECK(A.children.size() == 1 && child_is(A.children[0], &C, &d6, &d4, any_u64<4>()) && child_is(C.parent, &A, &d4, &d6, any_u64<4>()));
    CHECK(C.inner_region == &ci && C.outer_region == &co && ci.alt_tree_node == &C && co.alt_tree_node == &C);
    CHECK(mw.node_arena.available.size() == 1);
    REACH();
}
//@ ... reported with the root first, below the root of a larger tree
WITNESS(b_self_root_rev) {
    MW;
    D(d0); D(d1); D(d2); D(d3); D(d4); D(d5); D(d6);
    R(ro); R(ai); R(ao); R(bi); R(bo);
    OBJ(AltTreeNode, T, &ro);
    OBJ(AltTreeNode, A, &ai, &ao, path<5>(&d4, &d1));
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));
    GROWING(ro, 10); GROWING(ao, 11); SHRINKING(ai, 14); SHRINKING(bi, 12); GROWING(bo, 13);
    T.add_child(AltTreeEdge(&A, path<6>(&d0, &d4)));
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    mw.handle_tree_hitting_self(RegionHitRegionEventData{&ao, &bo, path<20>(&d1, &d3)}, &A);
    GraphFillRegion* b = A.outer_region;
    CHECK(b->alt_tree_node == &A && A.inner_region == &ai && edge_is(A.inner_to_outer_edge, &d4, &d1, any_u64<5>()));
    CHECK(child_is(A.parent, &T, &d4, &d0, any_u64<6>()) && T.children.size() == 1 && child_is(T.children[0], &A, &d0, &d4, any_u64<6>()));
    CHECK(b->blossom_children.size() == 3);
    CHECK(in_cycle(b->blossom_children[0], &bo, &d3, &d2, any_u64<1>()));
    CHECK(in_cycle(b->blossom_children[1], &bi, &d2, &d1, any_u64<2>()));
    CHECK(in_cycle(b->blossom_children[2], &ao, &d1, &d3, any_u64<20>()));
    CHECK(A.children.size() == 0 && ao.alt_tree_node == nullptr && ai.alt_tree_node == &A && ro.alt_tree_node == &T);
    REACH();
}
#include "shatter.h"
//@ shatter 3-cycle, tree parent at child 0, tree child at child 0
WITNESS(b_shatter3_00) { shatter3<0, 0>(); }
//@ shatter 3-cycle, 0 and 1
WITNESS(b_shatter3_01) { shatter3<0, 1>(); }
//@ shatter 3-cycle, 0 and 2
WITNESS(b_shatter3_02) { shatter3<0, 2>(); }
//@ shatter 3-cycle, 1 and 0
WITNESS(b_shatter3_10) { shatter3<1, 0>(); }
//@ shatter 3-cycle, 2 and 1
WITNESS(b_shatter3_21) { shatter3<2, 1>(); }
//@ shatter 3-cycle, 2 and 2
WITNESS(b_shatter3_22) { shatter3<2, 2>(); }
//@ shatter 5-cycle, 1 and 1
WITNESS(b_shatter5_11) { shatter5<1, 1>(); }
//@ shatter 5-cycle, 3 and 0
WITNESS(b_shatter5_30) { shatter5<3, 0>(); }
//@ shatter 5-cycle, 1 and 2
WITNESS(b_shatter5_12) { shatter5<1, 2>(); }
//@ shatter 5-cycle, 4 and 2
WITNESS(b_shatter5_42) { shatter5<4, 2>(); }
//@ shatter 5-cycle, 0 and 4
WITNESS(b_shatter5_04) { shatter5<0, 4>(); }
