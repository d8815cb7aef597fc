//! property: R03
//! target: pm::GraphFlooder growth and collision bookkeeping
//! defs: -DVP_COLLAPSE_ARRAY
// Every node a region reaches records who reached it, from which detection event, across which observables and at
// which radius; every collision is reported with the path between the two detection events it joins.
#include "mw.h"

//@ a detection event starts a region at its own node: distance 0, no observables crossed, itself as source
WITNESS(g_created) {
    FLOODER(fl);
    OBJ(DetectorNode, n);
    OBJ(DetectorNode, m);
    link(n, m, any_u32<1>(), any_u64<2>());
    OBJ(GraphFillRegion, r);
    fl.do_region_created_at_empty_detector_node(r, n);
    CHECK(n.region_that_arrived == &r && n.region_that_arrived_top == &r);
    CHECK(n.reached_from_source == &n && n.observables_crossed_from_source == 0 && n.radius_of_arrival == 0);
    CHECK(n.local_radius() == r.radius);
    CHECK(r.shell_area.size() == 1 && r.shell_area[0] == &n);
    CHECK(m.region_that_arrived == nullptr && m.region_that_arrived_top == nullptr && m.reached_from_source == nullptr);
    REACH();
}
//@ region grows into an empty node over the 1st of two edges of the node it comes from
WITNESS(g_arrive_first) {
    FLOODER(fl);
    OBJ(DetectorNode, s);
    OBJ(DetectorNode, f);
    OBJ(DetectorNode, e);
    OBJ(DetectorNode, x);
    OBJ(GraphFillRegion, r);
    r.radius = growing_r<1>();
    own(f, r, r, s, any_u64<2>(), any_time<3>());
    uint64_t o1 = any_u64<4>(), o2 = any_u64<5>();
    f.neighbors = {&e, &x};
    f.neighbor_weights = {any_u32<6>(), any_u32<7>()};
    f.neighbor_observables = {o1, o2};
    fl.do_region_arriving_at_empty_detector_node(r, e, f, 0);
    CHECK(e.region_that_arrived == &r && e.region_that_arrived_top == &r);
    CHECK(e.reached_from_source == &s);
    CHECK(e.observables_crossed_from_source == (any_u64<2>() ^ o1));
    CHECK(e.radius_of_arrival == any_time<1>() + fl.queue.cur_time);
    CHECK(e.local_radius() == r.radius - e.radius_of_arrival);
    CHECK(r.shell_area.size() == 2 && r.shell_area[0] == &f && r.shell_area[1] == &e);
    CHECK(x.region_that_arrived == nullptr && f.region_that_arrived == &r && f.observables_crossed_from_source == any_u64<2>());
    REACH();
}
//@ ... over the 2nd edge
WITNESS(g_arrive_second) {
    FLOODER(fl);
    OBJ(DetectorNode, s);
    OBJ(DetectorNode, f);
    OBJ(DetectorNode, e);
    OBJ(DetectorNode, x);
    OBJ(GraphFillRegion, r);
    r.radius = growing_r<1>();
    own(f, r, r, s, any_u64<2>(), any_time<3>());
    uint64_t o1 = any_u64<4>(), o2 = any_u64<5>();
    f.neighbors = {&x, &e};
    f.neighbor_weights = {any_u32<6>(), any_u32<7>()};
    f.neighbor_observables = {o1, o2};
    fl.do_region_arriving_at_empty_detector_node(r, e, f, 1);
    CHECK(e.reached_from_source == &s);
    CHECK(e.observables_crossed_from_source == (any_u64<2>() ^ o2));
    CHECK(e.radius_of_arrival == any_time<1>() + fl.queue.cur_time);
    CHECK(e.region_that_arrived == &r && e.region_that_arrived_top == &r);
    CHECK(e.local_radius() == r.radius - e.radius_of_arrival);
    CHECK(r.shell_area.size() == 2 && r.shell_area[1] == &e);
    REACH();
}
//@ neighbour interaction, source side owned by (a child of) a blossom, target side empty: the top region arrives
WITNESS(g_interact_src_grows) {
    FLOODER(fl);
    OBJ(DetectorNode, s);
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, b);
    OBJ(GraphFillRegion, top);
    OBJ(GraphFillRegion, child);
    child.blossom_parent = &top;
    child.blossom_parent_top = &top;
    child.radius = frozen_r<11>();
    top.radius = growing_r<1>();
    top.blossom_children.push_back({&child, {nullptr, nullptr, 0}});
    own(a, child, top, s, any_u64<2>(), any_time<3>());
    link(a, b, any_u32<4>(), any_u64<5>());
    MwpmEvent ev = fl.do_neighbor_interaction(a, 0, b);
    CHECK(ev.event_type == NO_EVENT);
    CHECK(b.region_that_arrived == &top && b.region_that_arrived_top == &top);
    CHECK(b.reached_from_source == &s && b.observables_crossed_from_source == (any_u64<2>() ^ any_u64<5>()));
    CHECK(b.radius_of_arrival == any_time<1>() + fl.queue.cur_time);
    CHECK(b.local_radius() == top.radius - b.radius_of_arrival);
    CHECK(top.shell_area.size() == 1 && top.shell_area[0] == &b && child.shell_area.size() == 1);
    CHECK(a.region_that_arrived == &child && a.region_that_arrived_top == &top);
    REACH();
}
//@ neighbour interaction seen from the empty side: the owner of the other node arrives, over the right edge
WITNESS(g_interact_dst_grows) {
    FLOODER(fl);
    OBJ(DetectorNode, s);
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, b);
    OBJ(DetectorNode, x);
    OBJ(GraphFillRegion, top);
    top.radius = growing_r<1>();
    own(b, top, top, s, any_u64<2>(), any_time<3>());
    link(b, x, any_u32<6>(), any_u64<7>());
    link(a, b, any_u32<4>(), any_u64<5>());
    MwpmEvent ev = fl.do_neighbor_interaction(a, 0, b);
    CHECK(ev.event_type == NO_EVENT);
    CHECK(a.region_that_arrived == &top && a.region_that_arrived_top == &top);
    CHECK(a.reached_from_source == &s && a.observables_crossed_from_source == (any_u64<2>() ^ any_u64<5>()));
    CHECK(a.radius_of_arrival == any_time<1>() + fl.queue.cur_time);
    CHECK(top.shell_area.size() == 2 && top.shell_area[1] == &a);
    CHECK(b.reached_from_source == &s && b.observables_crossed_from_source == any_u64<2>() && x.region_that_arrived == nullptr);
    REACH();
}
//@ two owned nodes meet: the collision names both top regions and the path source-to-source with its full parity
WITNESS(g_interact_collide) {
    FLOODER(fl);
    OBJ(DetectorNode, s1);
    OBJ(DetectorNode, s2);
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, b);
    OBJ(DetectorNode, x);
    OBJ(GraphFillRegion, t1);
    OBJ(GraphFillRegion, t2);
    OBJ(GraphFillRegion, c2);
    c2.blossom_parent = &t2;
    c2.blossom_parent_top = &t2;
    own(a, t1, t1, s1, any_u64<1>(), any_time<2>());
    own(b, c2, t2, s2, any_u64<3>(), any_time<4>());
    link(a, x, any_u32<5>(), any_u64<6>());
    link(a, b, any_u32<7>(), any_u64<8>());
    MwpmEvent ev = fl.do_neighbor_interaction(a, 1, b);
    CHECK(ev.event_type == REGION_HIT_REGION);
    auto& d = ev.region_hit_region_event_data;
    CHECK(d.region1 == &t1 && d.region2 == &t2);
    CHECK(edge_is(d.edge, &s1, &s2, any_u64<1>() ^ any_u64<3>() ^ any_u64<8>()));
    CHECK(a.region_that_arrived == &t1 && b.region_that_arrived == &c2 && b.region_that_arrived_top == &t2);
    CHECK(t1.shell_area.size() == 1 && c2.shell_area.size() == 1 && t2.shell_area.size() == 0);
    REACH();
}
//@ a region meets the boundary
WITNESS(g_boundary) {
    FLOODER(fl);
    OBJ(DetectorNode, s);
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, x);
    OBJ(GraphFillRegion, t);
    OBJ(GraphFillRegion, c);
    c.blossom_parent = &t;
    c.blossom_parent_top = &t;
    own(a, c, t, s, any_u64<1>(), any_time<2>());
    link(a, x, any_u32<5>(), any_u64<6>());
    link_boundary(a, any_u32<3>(), any_u64<4>());
    MwpmEvent ev = fl.do_region_hit_boundary_interaction(a);
    CHECK(ev.event_type == REGION_HIT_BOUNDARY);
    CHECK(ev.region_hit_boundary_event_data.region == &t);
    CHECK(edge_is(ev.region_hit_boundary_event_data.edge, &s, nullptr, any_u64<1>() ^ any_u64<4>()));
    REACH();
}
//@ a shrinking single-node region vanishes: parent and child regions collide over the combined path
WITNESS(g_implosion) {
    FLOODER(fl);
    OBJ(DetectorNode, dp);
    OBJ(DetectorNode, di);
    OBJ(DetectorNode, dn);
    OBJ(GraphFillRegion, ro);
    OBJ(GraphFillRegion, ri);
    OBJ(GraphFillRegion, rn);
    OBJ(AltTreeNode, P, &ro);
    OBJ(AltTreeNode, B, &ri, &rn, path<1>(&di, &dn));
    P.add_child(AltTreeEdge(&B, path<2>(&dp, &di)));
    ri.shell_area.push_back(&di);
    di.region_that_arrived = &ri;
    di.region_that_arrived_top = &ri;
    di.reached_from_source = &di;
    MwpmEvent ev = fl.do_region_shrinking(ri);
    CHECK(ev.event_type == REGION_HIT_REGION);
    auto& d = ev.region_hit_region_event_data;
    CHECK(d.region1 == &ro && d.region2 == &rn);
    CHECK(edge_is(d.edge, &dp, &dn, any_u64<1>() ^ any_u64<2>()));
    CHECK(ri.shell_area.size() == 1 && ri.alt_tree_node == &B && di.region_that_arrived == &ri);
    REACH();
}
//@ an empty shrinking blossom shatters: the children touching the tree parent and the tree child are named
WITNESS(g_shatter_event) {
    FLOODER(fl);
    OBJ(DetectorNode, dp);
    OBJ(DetectorNode, d1);
    OBJ(DetectorNode, d2);
    OBJ(DetectorNode, dn);
    OBJ(GraphFillRegion, ro);
    OBJ(GraphFillRegion, rb);
    OBJ(GraphFillRegion, rn);
    OBJ(GraphFillRegion, c1);
    OBJ(GraphFillRegion, c2);
    OBJ(GraphFillRegion, g1);
    c1.blossom_parent = &rb;
    c2.blossom_parent = &rb;
    g1.blossom_parent = &c1;
    c1.blossom_parent_top = c2.blossom_parent_top = g1.blossom_parent_top = &rb;
    d1.region_that_arrived = &g1;
    d1.region_that_arrived_top = &rb;
    d2.region_that_arrived = &c2;
    d2.region_that_arrived_top = &rb;
    rb.blossom_children = {{&c1, path<3>(&d1, &d2)}, {&c2, path<4>(&d2, &d1)}};
    OBJ(AltTreeNode, P, &ro);
    OBJ(AltTreeNode, B, &rb, &rn, path<1>(&d2, &dn));
    P.add_child(AltTreeEdge(&B, path<2>(&dp, &d1)));
    MwpmEvent ev = fl.do_region_shrinking(rb);
    CHECK(ev.event_type == BLOSSOM_SHATTER);
    auto& d = ev.blossom_shatter_event_data;
    CHECK(d.blossom_region == &rb && d.in_parent_region == &c1 && d.in_child_region == &c2);
    REACH();
}
//@ ... also when both are touched deep inside them
WITNESS(g_shatter_event_deep) {
    FLOODER(fl);
    OBJ(DetectorNode, dp);
    OBJ(DetectorNode, d1);
    OBJ(DetectorNode, d2);
    OBJ(DetectorNode, dn);
    OBJ(GraphFillRegion, ro);
    OBJ(GraphFillRegion, rb);
    OBJ(GraphFillRegion, rn);
    OBJ(GraphFillRegion, c1);
    OBJ(GraphFillRegion, c2);
    OBJ(GraphFillRegion, g1);
    OBJ(GraphFillRegion, g2);
    OBJ(GraphFillRegion, h2);
    c1.blossom_parent = c2.blossom_parent = &rb;
    g1.blossom_parent = &c1;
    g2.blossom_parent = &c2;
    h2.blossom_parent = &g2;
    c1.blossom_parent_top = c2.blossom_parent_top = g1.blossom_parent_top = g2.blossom_parent_top = h2.blossom_parent_top = &rb;
    d1.region_that_arrived = &g1;
    d2.region_that_arrived = &h2;
    d1.region_that_arrived_top = d2.region_that_arrived_top = &rb;
    rb.blossom_children = {{&c1, path<3>(&d1, &d2)}, {&c2, path<4>(&d2, &d1)}};
    OBJ(AltTreeNode, P, &ro);
    OBJ(AltTreeNode, B, &rb, &rn, path<1>(&d2, &dn));
    P.add_child(AltTreeEdge(&B, path<2>(&dp, &d1)));
    MwpmEvent ev = fl.do_region_shrinking(rb);
    CHECK(ev.event_type == BLOSSOM_SHATTER);
    auto& d = ev.blossom_shatter_event_data;
    CHECK(d.blossom_region == &rb && d.in_parent_region == &c1 && d.in_child_region == &c2);
    REACH();
}
//@ a shrinking region gives its outermost node back: the node is as if never reached, the others are untouched
WITNESS(g_leave) {
    FLOODER(fl);
    OBJ(DetectorNode, s);
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, b);
    OBJ(GraphFillRegion, r);
    r.radius = shrinking_r<1>();
    own(a, r, r, s, any_u64<2>(), any_time<3>());
    own(b, r, r, s, any_u64<4>(), any_time<5>());
    MwpmEvent ev = fl.do_region_shrinking(r);
    CHECK(ev.event_type == NO_EVENT);
    CHECK(b.region_that_arrived == nullptr && b.region_that_arrived_top == nullptr && b.reached_from_source == nullptr);
    CHECK(b.observables_crossed_from_source == 0 && b.radius_of_arrival == 0 && b.wrapped_radius_cached == 0);
    CHECK(b.local_radius() == VaryingCT{0});
    CHECK(r.shell_area.size() == 1 && r.shell_area[0] == &a);
    CHECK(a.region_that_arrived == &r && a.reached_from_source == &s && a.observables_crossed_from_source == any_u64<2>());
    CHECK(a.radius_of_arrival == any_time<3>());
    REACH();
}
//@ a blossom with one own node left gives that node back (no implosion: it still contains its children)
WITNESS(g_leave_last_of_blossom) {
    FLOODER(fl);
    OBJ(DetectorNode, s);
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, b);
    OBJ(GraphFillRegion, r);
    OBJ(GraphFillRegion, c);
    c.blossom_parent = c.blossom_parent_top = &r;
    c.radius = frozen_r<6>();
    r.radius = shrinking_r<1>();
    r.blossom_children.push_back({&c, {nullptr, nullptr, 0}});
    own(a, c, r, s, any_u64<2>(), any_time<3>());
    own(b, r, r, s, any_u64<4>(), any_time<5>());
    MwpmEvent ev = fl.do_region_shrinking(r);
    CHECK(ev.event_type == NO_EVENT);
    CHECK(b.region_that_arrived == nullptr && b.region_that_arrived_top == nullptr && b.reached_from_source == nullptr);
    CHECK(b.observables_crossed_from_source == 0 && b.radius_of_arrival == 0);
    CHECK(r.shell_area.size() == 0 && c.shell_area.size() == 1 && a.region_that_arrived == &c && a.region_that_arrived_top == &r);
    CHECK(wakes_at(r.shrink_event_tracker, any_time<1>()));
    REACH();
}
//@ joined paths: reversal swaps the ends, merging adds the parities
WITNESS(g_paths) {
    DetectorNode* a = any_ptr<1, DetectorNode>();
    DetectorNode* b = any_ptr<2, DetectorNode>();
    DetectorNode* c = any_ptr<3, DetectorNode>();
    CompressedEdge e = path<4>(a, b), f = path<5>(b, c);
    CHECK(edge_is(e.reversed(), b, a, any_u64<4>()));
    CHECK(edge_is(e.merged_with(f), a, c, any_u64<4>() ^ any_u64<5>()));
    RegionHitRegionEventData d{any_ptr<6, GraphFillRegion>(), any_ptr<7, GraphFillRegion>(), e};
    auto r = d.reversed();
    CHECK(r.region1 == d.region2 && r.region2 == d.region1 && edge_is(r.edge, b, a, any_u64<4>()));
    REACH();
}
//@ matches are mutual and mirror each other
WITNESS(g_match) {
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, b);
    OBJ(GraphFillRegion, x);
    OBJ(GraphFillRegion, y);
    x.add_match(&y, path<1>(&a, &b));
    CHECK(x.match.region == &y && edge_is(x.match.edge, &a, &b, any_u64<1>()));
    CHECK(y.match.region == &x && edge_is(y.match.edge, &b, &a, any_u64<1>()));
    REACH();
}
//@ clearing a match forgets all of it
WITNESS(g_match_clear) {
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, b);
    OBJ(GraphFillRegion, x);
    OBJ(GraphFillRegion, y);
    x.add_match(&y, path<1>(&a, &b));
    x.match.clear();
    CHECK(x.match.region == nullptr && edge_is(x.match.edge, nullptr, nullptr, 0));
    CHECK(y.match.region == &x && edge_is(y.match.edge, &b, &a, any_u64<1>()));
    REACH();
}
//@ index of a neighbour
WITNESS(g_index) {
    OBJ(DetectorNode, a);
    OBJ(DetectorNode, b);
    OBJ(DetectorNode, c);
    OBJ(DetectorNode, d);
    link(a, b, 1, 0);
    link(a, c, 2, 0);
    link(a, d, 2, 0);
    CHECK(a.index_of_neighbor(&b) == 0 && a.index_of_neighbor(&c) == 1 && a.index_of_neighbor(&d) == 2);
    link_boundary(a, 5, 0);
    CHECK(a.index_of_neighbor(nullptr) == 0 && a.index_of_neighbor(&b) == 1 && a.index_of_neighbor(&d) == 3);
    REACH();
}
