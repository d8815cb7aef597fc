//! property: R05
//! target: pm::Mwpm collision handlers
//! defs: -DVP_COLLAPSE_ARRAY
// The collision handlers when every region of the tree is itself a blossom with detectors inside.
#include "tree_util.h"

struct Blob {
    GraphFillRegion& r;
    GraphFillRegion& c;
    DetectorNode& n;
    DetectorNode& m;
    int64_t w, inner, y, g;
};
// region r at radius y (+/- t), containing c at standing radius, whose detector n has a growing neighbour m at distance w
#define BLOB(x, k, slope)                                                                                  \
    R(x); R(x##_c); D(x##_n); D(x##_m);                                                                    \
    Blob x##b{x, x##_c, x##_n, x##_m, (int64_t)any_u32<k>(), any_time<k + 1>(), any_time<k + 2>(), any_time<1>()}; \
    setup(x##b, slope, gr);
inline void setup(Blob& b, int slope, GraphFillRegion& gr) {
    b.r.radius = VaryingCT::from_base_and_growth(b.y, slope);
    b.c.radius = VaryingCT::frozen(b.inner);
    b.c.blossom_parent = b.c.blossom_parent_top = &b.r;
    b.r.blossom_children.push_back({&b.c, {&b.n, &b.n, 0}});
    own(b.n, b.c, b.r, b.n, 0, 0);
    b.m.region_that_arrived = b.m.region_that_arrived_top = &gr;
    b.m.reached_from_source = &b.m;
    link(b.n, b.m, (uint32_t)b.w, 0);
    if (slope < 0)
        b.r.shrink_event_tracker.has_desired_time = true;
}
// was shrinking, now stands still and waits for its neighbour
inline bool stopped(const Blob& b, int64_t now) {
    return out_and_still(b.r) && b.r.radius.y_intercept() == b.y - now && !b.r.shrink_event_tracker.has_desired_time &&
           wakes_at(b.n.node_event_tracker, (uint32_t)b.w - (uint32_t)(b.inner + b.y - now + b.g));
}
inline bool still(const Blob& b, int64_t now) {
    return out_and_still(b.r) && b.r.radius.y_intercept() == b.y + now && !b.r.shrink_event_tracker.has_desired_time;
}
#define GR R(gr); GROWING(gr, 1)

//@ a tree of blossoms meets the boundary at its root
WITNESS(tb_boundary) {
    MW; GR;
    D(d1); D(d2); D(d3);
    BLOB(ao, 10, 1) BLOB(bi, 20, -1) BLOB(bo, 30, 1)
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<2>(&d2, &d3));
    A.add_child(AltTreeEdge(&B, path<3>(&d1, &d2)));
    mw.process_event(MwpmEvent(RegionHitBoundaryEventData{&ao, path<4>(&d1, nullptr)}));
    CHECK(matched(ao, nullptr, &d1, nullptr, any_u64<4>()));
    CHECK(matched(bi, &bo, &d2, &d3, any_u64<2>()) && matched(bo, &bi, &d3, &d2, any_u64<2>()));
    CHECK(still(aob, NOW));
    CHECK(still(bob, NOW));
    CHECK(stopped(bib, NOW));
    CHECK(mw.node_arena.available.size() == 2);
    REACH();
}
//@ ... at a leaf
WITNESS(tb_boundary_leaf) {
    MW; GR;
    D(d1); D(d2); D(d3);
    BLOB(ao, 10, 1) BLOB(bi, 20, -1) BLOB(bo, 30, 1)
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<2>(&d2, &d3));
    A.add_child(AltTreeEdge(&B, path<3>(&d1, &d2)));
    mw.process_event(MwpmEvent(RegionHitBoundaryEventData{&bo, path<4>(&d3, nullptr)}));
    CHECK(matched(bo, nullptr, &d3, nullptr, any_u64<4>()));
    CHECK(matched(bi, &ao, &d2, &d1, any_u64<3>()) && matched(ao, &bi, &d1, &d2, any_u64<3>()));
    CHECK(still(aob, NOW));
    CHECK(still(bob, NOW));
    CHECK(stopped(bib, NOW));
    CHECK(mw.node_arena.available.size() == 2);
    REACH();
}
//@ a tree of blossoms meets a blossom matched to the boundary
template <bool REV>
inline void boundary_match() {
    MW; GR;
    D(d1); D(d2); D(d3); D(dx);
    BLOB(ao, 10, 1) BLOB(bi, 20, -1) BLOB(bo, 30, 1) BLOB(x, 40, 0)
    x.match = Match{nullptr, path<5>(&dx, nullptr)};
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<2>(&d2, &d3));
    A.add_child(AltTreeEdge(&B, path<3>(&d1, &d2)));
    if (REV)
        mw.process_event(MwpmEvent(RegionHitRegionEventData{&x, &bo, path<4>(&dx, &d3)}));
    else
        mw.process_event(MwpmEvent(RegionHitRegionEventData{&bo, &x, path<4>(&d3, &dx)}));
    CHECK(matched(bo, &x, &d3, &dx, any_u64<4>()) && matched(x, &bo, &dx, &d3, any_u64<4>()));
    CHECK(matched(bi, &ao, &d2, &d1, any_u64<3>()) && matched(ao, &bi, &d1, &d2, any_u64<3>()));
    CHECK(still(aob, NOW));
    CHECK(still(bob, NOW));
    CHECK(stopped(bib, NOW));
    CHECK(out_and_still(x) && x.radius.y_intercept() == xb.y);
    CHECK(mw.node_arena.available.size() == 2);
    REACH();
}
WITNESS(tb_boundary_match) { boundary_match<false>(); }
WITNESS(tb_boundary_match_rev) { boundary_match<true>(); }
//@ two trees of blossoms meet
WITNESS(tb_other_tree) {
    MW; GR;
    D(d1); D(d2); D(d3); D(e1); D(e2); D(e3);
    BLOB(ao, 10, 1) BLOB(bi, 20, -1) BLOB(bo, 30, 1) BLOB(co, 40, 1) BLOB(ei, 50, -1) BLOB(eo, 60, 1)
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<2>(&d2, &d3));
    OBJ(AltTreeNode, C, &co);
    OBJ(AltTreeNode, E, &ei, &eo, path<5>(&e2, &e3));
    A.add_child(AltTreeEdge(&B, path<3>(&d1, &d2)));
    C.add_child(AltTreeEdge(&E, path<6>(&e1, &e2)));
    mw.process_event(MwpmEvent(RegionHitRegionEventData{&ao, &eo, path<4>(&d1, &e3)}));
    CHECK(matched(ao, &eo, &d1, &e3, any_u64<4>()) && matched(eo, &ao, &e3, &d1, any_u64<4>()));
    CHECK(matched(bi, &bo, &d2, &d3, any_u64<2>()) && matched(bo, &bi, &d3, &d2, any_u64<2>()));
    CHECK(matched(ei, &co, &e2, &e1, any_u64<6>()) && matched(co, &ei, &e1, &e2, any_u64<6>()));
    CHECK(still(aob, NOW));
    CHECK(still(bob, NOW));
    CHECK(still(cob, NOW));
    CHECK(still(eob, NOW));
    CHECK(stopped(bib, NOW));
    CHECK(stopped(eib, NOW));
    CHECK(mw.node_arena.available.size() == 4);
    REACH();
}
//@ a tree meets a matched pair of blossoms: the one met shrinks, its partner grows on
template <bool REV>
inline void hit_match() {
    MW; GR;
    D(d1); D(dx); D(dx2); D(dy); D(d2); D(d3);
    BLOB(ao, 10, 1) BLOB(x, 20, 0) BLOB(y, 30, 0) BLOB(bi, 40, -1) BLOB(bo, 50, 1)
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<2>(&d2, &d3));
    A.add_child(AltTreeEdge(&B, path<3>(&d1, &d2)));
    if (REV)
        y.add_match(&x, path<5>(&dy, &dx2));
    else
        x.add_match(&y, path<5>(&dx2, &dy));
    if (REV)
        mw.process_event(MwpmEvent(RegionHitRegionEventData{&x, &ao, path<4>(&dx, &d1)}));
    else
        mw.process_event(MwpmEvent(RegionHitRegionEventData{&ao, &x, path<4>(&d1, &dx)}));
    AltTreeNode* c = x.alt_tree_node;
    CHECK(c && c != &A && c != &B && y.alt_tree_node == c && A.children.size() == 2);
    CHECK(child_is(A.children[1], c, &d1, &dx, any_u64<4>()) || child_is(A.children[0], c, &d1, &dx, any_u64<4>()));
    CHECK(child_is(c->parent, &A, &dx, &d1, any_u64<4>()) && c->children.size() == 0 && !c->visited);
    CHECK(c->inner_region == &x && c->outer_region == &y && edge_is(c->inner_to_outer_edge, &dx2, &dy, any_u64<5>()));
    CHECK(x.match.region == nullptr && y.match.region == nullptr);
    CHECK(x.radius.is_shrinking() && x.radius.y_intercept() == xb.y + NOW && !x_n.node_event_tracker.has_desired_time);
    CHECK(wakes_at(x.shrink_event_tracker, xb.y + NOW));
    CHECK(y.radius.is_growing() && y.radius.y_intercept() == yb.y - NOW && !y.shrink_event_tracker.has_desired_time);
    int64_t gap = yb.w - (yb.inner + yb.y - NOW) - yb.g;
    CHECK_HALF(gap, wakes_at(y_n.node_event_tracker, gap >> 1));
    CHECK(ao.radius.is_growing() && ao.radius.y_intercept() == aob.y && bi.radius.is_shrinking() && bi.radius.y_intercept() == bib.y && bi.alt_tree_node == &B);
    REACH();
}
WITNESS(tb_match) { hit_match<false>(); }
WITNESS(tb_match_rev) { hit_match<true>(); }
