//! property: R05
//! target: pm::AltTreeNode / pm::Mwpm alternating tree operations
//! defs: -DVP_COLLAPSE_ARRAY
// Alternating trees: every operation keeps the set of paths between regions, their orientation and their observables;
// regions leave a tree only in mutually matched pairs, standing still.
#include "tree_util.h"

//@ adding a child links both directions with mirrored paths
WITNESS(a_add_child) {
    D(d1); D(d2); D(d3); D(d4); D(d5);
    R(ao); R(bi); R(bo); R(ci); R(co);
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));
    OBJ(AltTreeNode, C, &ci, &co, path<3>(&d4, &d5));
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    A.add_child(AltTreeEdge(&C, path<4>(&d1, &d4)));
    CHECK(A.children.size() == 2);
    CHECK(child_is(A.children[0], &B, &d1, &d2, any_u64<2>()) && child_is(A.children[1], &C, &d1, &d4, any_u64<4>()));
    CHECK(child_is(B.parent, &A, &d2, &d1, any_u64<2>()) && child_is(C.parent, &A, &d4, &d1, any_u64<4>()));
    CHECK(bi.alt_tree_node == &B && bo.alt_tree_node == &B && ao.alt_tree_node == &A);
    CHECK(B.inner_region == &bi && B.outer_region == &bo && edge_is(B.inner_to_outer_edge, &d2, &d3, any_u64<1>()));
    CHECK(A.inner_region == nullptr && A.outer_region == &ao && no_parent(A));
    REACH();
}
//@ a root stays as it is
WITNESS(a_root_root) {
    D(d1); D(d2); D(d3);
    R(ao); R(bi); R(bo);
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    A.become_root();
    CHECK(A.children.size() == 1 && child_is(A.children[0], &B, &d1, &d2, any_u64<2>()) && no_parent(A));
    CHECK(A.inner_region == nullptr && A.outer_region == &ao && B.inner_region == &bi && child_is(B.parent, &A, &d2, &d1, any_u64<2>()));
    REACH();
}
//@ rotation over one level (the old root has another child, the new root has a child)
WITNESS(a_root_one) {
    D(d1); D(d2); D(d3); D(d4); D(d5); D(d6); D(d7);
    R(ao); R(bi); R(bo); R(ci); R(co); R(ei); R(eo);
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));
    OBJ(AltTreeNode, C, &ci, &co, path<3>(&d4, &d5));
    OBJ(AltTreeNode, E, &ei, &eo, path<5>(&d6, &d7));
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    A.add_child(AltTreeEdge(&C, path<4>(&d1, &d4)));
    B.add_child(AltTreeEdge(&E, path<6>(&d3, &d6)));
    B.become_root();
    CHECK(no_parent(B) && B.inner_region == nullptr && B.outer_region == &bo && edge_is(B.inner_to_outer_edge, nullptr, nullptr, 0));
    CHECK(B.children.size() == 2);
    CHECK(child_is(B.children[0], &E, &d3, &d6, any_u64<6>()) && child_is(B.children[1], &A, &d3, &d2, any_u64<1>()));
    CHECK(A.inner_region == &bi && A.outer_region == &ao && edge_is(A.inner_to_outer_edge, &d2, &d1, any_u64<2>()));
    CHECK(child_is(A.parent, &B, &d2, &d3, any_u64<1>()));
    CHECK(A.children.size() == 1 && child_is(A.children[0], &C, &d1, &d4, any_u64<4>()));
    CHECK(child_is(C.parent, &A, &d4, &d1, any_u64<4>()) && child_is(E.parent, &B, &d6, &d3, any_u64<6>()));
    CHECK(C.inner_region == &ci && E.inner_region == &ei);
    REACH();
}
//@ rotation over two levels
WITNESS(a_root_two) {
    D(d1); D(d2); D(d3); D(d4); D(d5);
    R(ao); R(bi); R(bo); R(ci); R(co);
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));
    OBJ(AltTreeNode, C, &ci, &co, path<3>(&d4, &d5));
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    B.add_child(AltTreeEdge(&C, path<4>(&d3, &d4)));
    C.become_root();
    CHECK(no_parent(C) && C.inner_region == nullptr && C.outer_region == &co && edge_is(C.inner_to_outer_edge, nullptr, nullptr, 0));
    CHECK(C.children.size() == 1 && child_is(C.children[0], &B, &d5, &d4, any_u64<3>()));
    CHECK(B.inner_region == &ci && B.outer_region == &bo && edge_is(B.inner_to_outer_edge, &d4, &d3, any_u64<4>()));
    CHECK(child_is(B.parent, &C, &d4, &d5, any_u64<3>()));
    CHECK(B.children.size() == 1 && child_is(B.children[0], &A, &d3, &d2, any_u64<1>()));
    CHECK(A.inner_region == &bi && A.outer_region == &ao && edge_is(A.inner_to_outer_edge, &d2, &d1, any_u64<2>()));
    CHECK(child_is(A.parent, &B, &d2, &d3, any_u64<1>()) && A.children.size() == 0);
    REACH();
}
#define CHAIN                                                       \
    D(d1); D(d2); D(d3); D(d4); D(d5); D(d6); D(d7);                \
    R(ao); R(bi); R(bo); R(ci); R(co); R(ei); R(eo);                \
    OBJ(AltTreeNode, A, &ao);                                       \
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));               \
    OBJ(AltTreeNode, C, &ci, &co, path<3>(&d4, &d5));               \
    OBJ(AltTreeNode, E, &ei, &eo, path<5>(&d6, &d7))
//@ common ancestor: siblings
WITNESS(a_mrca_siblings) {
    CHAIN;
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    B.add_child(AltTreeEdge(&C, path<4>(&d3, &d4)));
    B.add_child(AltTreeEdge(&E, path<6>(&d3, &d6)));
    CHECK(C.most_recent_common_ancestor(E) == &B);
    CHECK(!B.visited && !A.visited);
    REACH();
}
//@ common ancestor: different depths
WITNESS(a_mrca_uneven) {
    CHAIN;
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    B.add_child(AltTreeEdge(&C, path<4>(&d3, &d4)));
    A.add_child(AltTreeEdge(&E, path<6>(&d1, &d6)));
    CHECK(C.most_recent_common_ancestor(E) == &A);
    CHECK(!A.visited);
    REACH();
}
//@ common ancestor: different depths, the other way round
WITNESS(a_mrca_uneven2) {
    CHAIN;
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    B.add_child(AltTreeEdge(&C, path<4>(&d3, &d4)));
    A.add_child(AltTreeEdge(&E, path<6>(&d1, &d6)));
    CHECK(E.most_recent_common_ancestor(C) == &A);
    CHECK(!A.visited);
    REACH();
}
//@ common ancestor: one is above the other, with more tree above
WITNESS(a_mrca_above) {
    CHAIN;
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    B.add_child(AltTreeEdge(&C, path<4>(&d3, &d4)));
    C.add_child(AltTreeEdge(&E, path<6>(&d5, &d6)));
    CHECK(E.most_recent_common_ancestor(B) == &B);
    CHECK(!A.visited && !B.visited);
    REACH();
}
//@ common ancestor: one is above the other (asked from above)
WITNESS(a_mrca_below) {
    CHAIN;
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    B.add_child(AltTreeEdge(&C, path<4>(&d3, &d4)));
    C.add_child(AltTreeEdge(&E, path<6>(&d5, &d6)));
    CHECK(B.most_recent_common_ancestor(E) == &B);
    CHECK(!A.visited && !B.visited);
    REACH();
}
// ABOVE nodes above the common ancestor, branches of P and Q nodes below it
template <int ABOVE, int P, int Q>
inline void mrca() {
    OBJ(AltTreeNode, n0); OBJ(AltTreeNode, n1); OBJ(AltTreeNode, n2); OBJ(AltTreeNode, n3); OBJ(AltTreeNode, n4);
    OBJ(AltTreeNode, n5); OBJ(AltTreeNode, n6); OBJ(AltTreeNode, n7); OBJ(AltTreeNode, n8); OBJ(AltTreeNode, n9);
    AltTreeNode* n[10] = {&n0, &n1, &n2, &n3, &n4, &n5, &n6, &n7, &n8, &n9};
    int k = 0;
    for (; k < ABOVE; k++)
        n[k + 1]->parent.alt_tree_node = n[k];
    AltTreeNode* top = n[k++];
    AltTreeNode *p = top, *q = top;
    for (int i = 0; i < P; i++) {
        n[k]->parent.alt_tree_node = p;
        p = n[k++];
    }
    for (int i = 0; i < Q; i++) {
        n[k]->parent.alt_tree_node = q;
        q = n[k++];
    }
    CHECK(p->most_recent_common_ancestor(*q) == top);
    CHECK(!top->visited);
    for (int i = 0; i < ABOVE; i++)
        CHECK(!n[i]->visited);
    REACH();
}
//@ common ancestor: any difference in depth, any amount of tree above, which keeps no mark
WITNESS(a_mrca_414) { mrca<4, 1, 4>(); }
WITNESS(a_mrca_441) { mrca<4, 4, 1>(); }
WITNESS(a_mrca_404) { mrca<4, 0, 4>(); }
WITNESS(a_mrca_440) { mrca<4, 4, 0>(); }
WITNESS(a_mrca_315) { mrca<3, 1, 5>(); }
WITNESS(a_mrca_351) { mrca<3, 5, 1>(); }
WITNESS(a_mrca_324) { mrca<3, 2, 4>(); }
WITNESS(a_mrca_342) { mrca<3, 4, 2>(); }
WITNESS(a_mrca_233) { mrca<2, 3, 3>(); }
WITNESS(a_mrca_223) { mrca<2, 2, 3>(); }
WITNESS(a_mrca_232) { mrca<2, 3, 2>(); }
WITNESS(a_mrca_113) { mrca<1, 1, 3>(); }
WITNESS(a_mrca_035) { mrca<0, 3, 5>(); }
WITNESS(a_mrca_053) { mrca<0, 5, 3>(); }
//@ common ancestor: separate trees have none
WITNESS(a_mrca_none) {
    CHAIN;
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    C.inner_region = nullptr;
    C.add_child(AltTreeEdge(&E, path<6>(&d5, &d6)));
    CHECK(B.most_recent_common_ancestor(E) == nullptr);
    REACH();
}
//@ a tree dissolves into matched pairs: root with two children, one of which has a child
WITNESS(a_shatter_tree) {
    MW;
    CHAIN;
    GROWING(ao, 11); SHRINKING(bi, 12); GROWING(bo, 13); SHRINKING(ci, 14); GROWING(co, 15); SHRINKING(ei, 16); GROWING(eo, 17);
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    B.add_child(AltTreeEdge(&C, path<4>(&d3, &d4)));
    A.add_child(AltTreeEdge(&E, path<6>(&d1, &d6)));
    VaryingCT b0 = bi.radius, b1 = bo.radius, b2 = ci.radius, b3 = co.radius, b4 = ei.radius, b5 = eo.radius;
    mw.shatter_descendants_into_matches_and_freeze(A);
    CHECK(matched(bi, &bo, &d2, &d3, any_u64<1>()) && matched(bo, &bi, &d3, &d2, any_u64<1>()));
    CHECK(matched(ci, &co, &d4, &d5, any_u64<3>()) && matched(co, &ci, &d5, &d4, any_u64<3>()));
    CHECK(matched(ei, &eo, &d6, &d7, any_u64<5>()) && matched(eo, &ei, &d7, &d6, any_u64<5>()));
    CHECK(out_and_still(bi) && out_and_still(bo) && out_and_still(ci) && out_and_still(co) && out_and_still(ei) && out_and_still(eo));
    CHECK(KEEPS(bi, b0) && KEEPS(bo, b1) && KEEPS(ci, b2) && KEEPS(co, b3) && KEEPS(ei, b4) && KEEPS(eo, b5));
    CHECK(ao.alt_tree_node == nullptr);
    CHECK(mw.node_arena.available.size() == 4);
    REACH();
}
//@ a tree meets the boundary below its root: everything is matched, the meeting region to the boundary
WITNESS(a_boundary) {
    MW;
    CHAIN;
    GROWING(ao, 11); SHRINKING(bi, 12); GROWING(bo, 13); SHRINKING(ci, 14); GROWING(co, 15);
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    B.add_child(AltTreeEdge(&C, path<4>(&d3, &d4)));
    VaryingCT b0 = bi.radius, b1 = bo.radius, b2 = ao.radius;
    RegionHitBoundaryEventData ev{&bo, path<20>(&d3, nullptr)};
    mw.handle_tree_hitting_boundary(ev);
    CHECK(matched(bo, nullptr, &d3, nullptr, any_u64<20>()));
    CHECK(matched(ao, &bi, &d1, &d2, any_u64<2>()) && matched(bi, &ao, &d2, &d1, any_u64<2>()));
    CHECK(matched(ci, &co, &d4, &d5, any_u64<3>()) && matched(co, &ci, &d5, &d4, any_u64<3>()));
    CHECK(out_and_still(ao) && out_and_still(bi) && out_and_still(bo) && out_and_still(ci) && out_and_still(co));
    CHECK(KEEPS(bi, b0) && KEEPS(bo, b1) && KEEPS(ao, b2));
    CHECK(mw.node_arena.available.size() == 3);
    REACH();
}
//@ a tree meets a region matched to the boundary: the meeting pair is matched, the tree dissolves
WITNESS(a_boundary_match) {
    MW;
    CHAIN;
    D(dx);
    R(x);
    x.radius = frozen_r<18>();
    x.match = Match{nullptr, path<21>(&dx, nullptr)};
    GROWING(ao, 11); SHRINKING(bi, 12); GROWING(bo, 13);
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    VaryingCT b0 = bi.radius, b1 = bo.radius, b2 = ao.radius;
    mw.process_event(MwpmEvent(RegionHitRegionEventData{&bo, &x, path<20>(&d3, &dx)}));
    CHECK(matched(bo, &x, &d3, &dx, any_u64<20>()) && matched(x, &bo, &dx, &d3, any_u64<20>()));
    CHECK(matched(ao, &bi, &d1, &d2, any_u64<2>()) && matched(bi, &ao, &d2, &d1, any_u64<2>()));
    CHECK(out_and_still(ao) && out_and_still(bi) && out_and_still(bo) && out_and_still(x));
    CHECK(KEEPS(bi, b0) && KEEPS(bo, b1) && KEEPS(ao, b2));
    CHECK(mw.node_arena.available.size() == 2);
    REACH();
}
//@ ... reported from the matched side
WITNESS(a_boundary_match_rev) {
    MW;
    D(d1); D(dx);
    R(ao); R(x);
    OBJ(AltTreeNode, A, &ao);
    x.radius = frozen_r<18>();
    x.match = Match{nullptr, path<21>(&dx, nullptr)};
    GROWING(ao, 11);
    mw.process_event(MwpmEvent(RegionHitRegionEventData{&x, &ao, path<20>(&dx, &d1)}));
    CHECK(matched(ao, &x, &d1, &dx, any_u64<20>()) && matched(x, &ao, &dx, &d1, any_u64<20>()));
    CHECK(out_and_still(ao) && out_and_still(x));
    REACH();
}
//@ two trees meet: the meeting regions are matched to each other, both trees dissolve
WITNESS(a_other_tree) {
    MW;
    D(d1); D(d2); D(d3); D(d7);
    R(ao); R(bi); R(bo); R(eo);
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));
    OBJ(AltTreeNode, E, &eo);
    GROWING(ao, 11); SHRINKING(bi, 12); GROWING(bo, 13); GROWING(eo, 17);
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    VaryingCT b0 = bo.radius, b1 = eo.radius;
    mw.handle_tree_hitting_other_tree(RegionHitRegionEventData{&bo, &eo, path<20>(&d3, &d7)});
    CHECK(matched(*&bo, &eo, &d3, &d7, any_u64<20>()) && matched(*&eo, &bo, &d7, &d3, any_u64<20>()));
    CHECK(matched(ao, &bi, &d1, &d2, any_u64<2>()) && matched(bi, &ao, &d2, &d1, any_u64<2>()));
    CHECK(out_and_still(ao) && out_and_still(bi) && out_and_still(bo) && out_and_still(eo));
    CHECK(KEEPS(bo, b0) && KEEPS(eo, b1));
    CHECK(mw.node_arena.available.size() == 3);
    REACH();
}
//@ two trees meet, the other way round
WITNESS(a_other_tree2) {
    MW;
    D(d1); D(d2); D(d3); D(d7);
    R(ao); R(bi); R(bo); R(eo);
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bi, &bo, path<1>(&d2, &d3));
    OBJ(AltTreeNode, E, &eo);
    GROWING(ao, 11); SHRINKING(bi, 12); GROWING(bo, 13); GROWING(eo, 17);
    A.add_child(AltTreeEdge(&B, path<2>(&d1, &d2)));
    VaryingCT b0 = bo.radius, b1 = eo.radius;
    mw.handle_tree_hitting_other_tree(RegionHitRegionEventData{&eo, &bo, path<20>(&d7, &d3)});
    CHECK(matched(*&eo, &bo, &d7, &d3, any_u64<20>()) && matched(*&bo, &eo, &d3, &d7, any_u64<20>()));
    CHECK(matched(ao, &bi, &d1, &d2, any_u64<2>()) && matched(bi, &ao, &d2, &d1, any_u64<2>()));
    CHECK(out_and_still(ao) && out_and_still(bi) && out_and_still(bo) && out_and_still(eo));
    CHECK(KEEPS(bo, b0) && KEEPS(eo, b1));
    CHECK(mw.node_arena.available.size() == 3);
    REACH();
}
//@ two single-region trees meet
WITNESS(a_other_tree_single) {
    MW;
    D(d1); D(d2);
    R(ao); R(bo);
    OBJ(AltTreeNode, A, &ao);
    OBJ(AltTreeNode, B, &bo);
    GROWING(ao, 11); GROWING(bo, 12);
    VaryingCT b0 = ao.radius, b1 = bo.radius;
    mw.process_event(MwpmEvent(RegionHitRegionEventData{&ao, &bo, path<20>(&d1, &d2)}));
    CHECK(matched(ao, &bo, &d1, &d2, any_u64<20>()) && matched(bo, &ao, &d2, &d1, any_u64<20>()));
    CHECK(out_and_still(ao) && out_and_still(bo) && KEEPS(ao, b0) && KEEPS(bo, b1));
    CHECK(mw.node_arena.available.size() == 2);
    REACH();
}
//@ a tree meets a matched pair: the pair joins the tree, inner shrinking and outer growing, no longer matched
WITNESS(a_match) {
    MW;
    D(d1); D(dx); D(dx2); D(dy);
    R(ao); R(x); R(y);
    OBJ(AltTreeNode, A, &ao);
    GROWING(ao, 11);
    x.radius = frozen_r<18>();
    y.radius = frozen_r<19>();
    x.add_match(&y, path<21>(&dx2, &dy));
    VaryingCT b0 = ao.radius, b1 = x.radius, b2 = y.radius;
    mw.process_event(MwpmEvent(RegionHitRegionEventData{&ao, &x, path<20>(&d1, &dx)}));
    CHECK(A.children.size() == 1);
    AltTreeNode* c = A.children[0].alt_tree_node;
    CHECK(edge_is(A.children[0].edge, &d1, &dx, any_u64<20>()));
    CHECK(x.alt_tree_node == c && y.alt_tree_node == c);
    CHECK(c->inner_region == &x && c->outer_region == &y && edge_is(c->inner_to_outer_edge, &dx2, &dy, any_u64<21>()));
    CHECK(child_is(c->parent, &A, &dx, &d1, any_u64<20>()) && c->children.size() == 0 && !c->visited);
    CHECK(x.match.region == nullptr && y.match.region == nullptr);
    CHECK(x.radius == b1.then_shrinking_at_time(mw.flooder.queue.cur_time) && y.radius == b2.then_growing_at_time(mw.flooder.queue.cur_time));
    CHECK(ao.radius == b0 && ao.alt_tree_node == &A);
    REACH();
}
//@ ... reported from the matched side
WITNESS(a_match_rev) {
    MW;
    D(d1); D(dx); D(dx2); D(dy);
    R(ao); R(x); R(y);
    OBJ(AltTreeNode, A, &ao);
    GROWING(ao, 11);
    x.radius = frozen_r<18>();
    y.radius = frozen_r<19>();
    x.add_match(&y, path<21>(&dx2, &dy));
    mw.process_event(MwpmEvent(RegionHitRegionEventData{&x, &ao, path<20>(&dx, &d1)}));
    CHECK(A.children.size() == 1);
    AltTreeNode* c = A.children[0].alt_tree_node;
    CHECK(edge_is(A.children[0].edge, &d1, &dx, any_u64<20>()));
    CHECK(c->inner_region == &x && c->outer_region == &y && child_is(c->parent, &A, &dx, &d1, any_u64<20>()));
    CHECK(x.radius.is_shrinking() && y.radius.is_growing() && x.match.region == nullptr && y.match.region == nullptr);
    REACH();
}
//@ boundary events go to the boundary handler
WITNESS(a_dispatch_boundary) {
    MW;
    D(d1);
    R(ao);
    OBJ(AltTreeNode, A, &ao);
    GROWING(ao, 11);
    VaryingCT b0 = ao.radius;
    mw.process_event(MwpmEvent(RegionHitBoundaryEventData{&ao, path<20>(&d1, nullptr)}));
    CHECK(matched(ao, nullptr, &d1, nullptr, any_u64<20>()) && out_and_still(ao) && KEEPS(ao, b0));
    CHECK(mw.node_arena.available.size() == 1);
    REACH();
}
//@ an empty notification changes nothing
WITNESS(a_dispatch_none) {
    MW;
    mw.process_event(MwpmEvent::no_event());
    CHECK(mw.flooder.queue.size() == 0 && mw.flooder.queue.cur_time == any_time<900>());
    CHECK(mw.node_arena.allocated.empty() && mw.node_arena.available.empty() && mw.flooder.region_arena.allocated.empty() && mw.flooder.region_arena.available.empty());
    REACH();
}
//@ a detection event becomes a single-region tree with a growing region of radius zero
WITNESS(a_create) {
    MW;
    D(n); D(m);
    link(n, m, any_u32<1>(), 0);
    mw.create_detection_event(&n);
    GraphFillRegion* r = n.region_that_arrived;
    CHECK(mw.flooder.region_arena.allocated.size() == 1 && r == mw.flooder.region_arena.allocated[0] && n.region_that_arrived_top == r);
    CHECK(mw.node_arena.allocated.size() == 1 && r->alt_tree_node == mw.node_arena.allocated[0]);
    AltTreeNode* t = r->alt_tree_node;
    CHECK(t->outer_region == r && t->inner_region == nullptr && no_parent(*t) && t->children.size() == 0 && !t->visited);
    CHECK(r->blossom_parent == nullptr && r->blossom_parent_top == r && r->blossom_children.size() == 0);
    CHECK(r->shell_area.size() == 1 && r->shell_area[0] == &n);
    CHECK(r->radius == VaryingCT::from_base_and_growth(0, 1));
    REACH();
}
