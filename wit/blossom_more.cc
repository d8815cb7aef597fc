//! property: R06
//! target: pm::Mwpm::handle_tree_hitting_self / handle_blossom_shattering
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=8
// Contraction with branches of any length that carry further branches of their own; shattering wakes what it must.
#include "tree_util.h"

inline bool has_child(const AltTreeNode& p, const AltTreeNode* c, const DetectorNode* a, const DetectorNode* b, obs_int o) {
    bool f = false;
#pragma clang loop unroll(full)
    for (size_t i = 0; i < 8; i++)
        if (i < p.children.size())
            f = f | child_is(p.children[i], c, a, b, o);
    return f;
}
// Branches of P1 and P2 tree nodes below A meet at their ends. Each tree node of a branch carries a further branch, and so does A.
template <int P1, int P2, bool BELOW>
inline void meet() {
    MW;
    constexpr int P = P1 + P2;
    R(ao); R(ai); R(ro);
    D(da); D(dai); D(dr);
    Raw<GraphFillRegion> rg[2 * P + 1], og[2 * (P + 1)];
    Raw<DetectorNode> dn[2 * P + 1], on[P + 1];
    Raw<AltTreeNode> tn[P + 1], bn[P + 1];
    OBJ(AltTreeNode, T, &ro);
    ro.radius = growing_r<901>();
    AltTreeNode& A = *(BELOW ? new (tn[P].b) AltTreeNode(&ai, &ao, path<902>(&dai, &da)) : new (tn[P].b) AltTreeNode(&ao));
    if (BELOW) {
        T.add_child(AltTreeEdge(&A, path<903>(&dr, &dai)));
        SHRINKING(ai, 904);
    }
    ao.radius = VaryingCT::growing_value_at_time(0, time_at(905));
    GraphFillRegion* r[2 * P + 1];
    DetectorNode* d[2 * P + 1];
    AltTreeNode* t[P + 1];
    AltTreeNode* b[P + 1];
    DetectorNode* o[P + 1];
#pragma clang loop unroll(full)
    for (int i = 0; i < 2 * P; i++) {
        r[i] = new (rg[i].b) GraphFillRegion();
        r[i]->radius = VaryingCT::from_base_and_growth(time_at(100 + i), i % 2 ? 1 : -1);
        d[i] = new (dn[i].b) DetectorNode();
    }
    // tree node i: inner r[2i], outer r[2i+1]; nodes 0..P1-1 below A in a chain, P1..P-1 the other chain
#pragma clang loop unroll(full)
    for (int i = 0; i < P; i++) {
        t[i] = new (tn[i].b) AltTreeNode(r[2 * i], r[2 * i + 1], CompressedEdge{d[2 * i], d[2 * i + 1], vp_any(200 + i)});
        bool first = i == 0 || i == P1;
        AltTreeNode& up = first ? A : *t[i - 1];
        up.add_child(AltTreeEdge(t[i], CompressedEdge{first ? &da : d[2 * i - 1], d[2 * i], vp_any(300 + i)}));
    }
    // a further branch at every tree node
#pragma clang loop unroll(full)
    for (int i = 0; i <= P; i++) {
        o[i] = new (on[i].b) DetectorNode();
        GraphFillRegion* x = new (og[2 * i].b) GraphFillRegion();
        GraphFillRegion* y = new (og[2 * i + 1].b) GraphFillRegion();
        b[i] = new (bn[i].b) AltTreeNode(x, y, CompressedEdge{o[i], o[i], vp_any(400 + i)});
        (i == P ? A : *t[i]).add_child(AltTreeEdge(b[i], CompressedEdge{i == P ? &da : d[2 * i + 1], o[i], vp_any(500 + i)}));
    }
    GraphFillRegion* e1 = P1 ? r[2 * P1 - 1] : &ao;
    GraphFillRegion* e2 = P2 ? r[2 * P - 1] : &ao;
    DetectorNode* f1 = P1 ? d[2 * P1 - 1] : &da;
    DetectorNode* f2 = P2 ? d[2 * P - 1] : &da;
    mw.handle_tree_hitting_self(RegionHitRegionEventData{e1, e2, path<20>(f1, f2)}, &A);
    GraphFillRegion* bl = A.outer_region;
    CHECK(bl != &ao && bl->alt_tree_node == &A);
    if (BELOW) {
        CHECK(A.inner_region == &ai && ai.alt_tree_node == &A && edge_is(A.inner_to_outer_edge, &dai, &da, any_u64<902>()));
        CHECK(child_is(A.parent, &T, &dai, &dr, any_u64<903>()) && T.children.size() == 1 && child_is(T.children[0], &A, &dr, &dai, any_u64<903>()));
    } else {
        CHECK(A.inner_region == nullptr && no_parent(A));
    }
    CHECK(bl->blossom_children.size() == 2 * P + 1);
    int k = 0;
#pragma clang loop unroll(full)
    for (int i = P - 1; i >= P1; i--) {
        bool first = i == P1;
        CHECK(in_cycle(bl->blossom_children[k], r[2 * i + 1], d[2 * i + 1], d[2 * i], vp_any(200 + i)));
        CHECK(in_cycle(bl->blossom_children[k + 1], r[2 * i], d[2 * i], first ? &da : d[2 * i - 1], vp_any(300 + i)));
        k += 2;
    }
    if (P1)
        CHECK(in_cycle(bl->blossom_children[k], &ao, &da, d[0], vp_any(300)));
    else
        CHECK(in_cycle(bl->blossom_children[k], &ao, &da, f2, any_u64<20>()));
    k++;
#pragma clang loop unroll(full)
    for (int i = 0; i < P1; i++) {
        CHECK(in_cycle(bl->blossom_children[k], r[2 * i], d[2 * i], d[2 * i + 1], vp_any(200 + i)));
        if (i + 1 < P1)
            CHECK(in_cycle(bl->blossom_children[k + 1], r[2 * i + 1], d[2 * i + 1], d[2 * i + 2], vp_any(300 + i + 1)));
        else
            CHECK(in_cycle(bl->blossom_children[k + 1], r[2 * i + 1], f1, f2, any_u64<20>()));
        k += 2;
    }
#pragma clang loop unroll(full)
    for (int i = 0; i < 2 * P; i++)
        CHECK(r[i]->alt_tree_node == nullptr && r[i]->blossom_parent == bl && r[i]->blossom_parent_top == bl && r[i]->radius.is_frozen());
    CHECK(ao.alt_tree_node == nullptr && ao.blossom_parent == bl && ao.blossom_parent_top == bl && ao.radius.is_frozen());
    CHECK(A.children.size() == P + 1);
#pragma clang loop unroll(full)
    for (int i = 0; i <= P; i++) {
        DetectorNode* at = i == P ? &da : d[2 * i + 1];
        CHECK(has_child(A, b[i], at, o[i], vp_any(500 + i)));
        CHECK(child_is(b[i]->parent, &A, o[i], at, vp_any(500 + i)));
        CHECK(b[i]->inner_region->alt_tree_node == b[i] && b[i]->outer_region->alt_tree_node == b[i]);
    }
    CHECK(mw.node_arena.available.size() == P);
    REACH();
}
//@ branches of the given lengths meet; all further branches stay in the tree
WITNESS(bm_meet_11) { meet<1, 1, false>(); }
WITNESS(bm_meet_10) { meet<1, 0, true>(); }
WITNESS(bm_meet_01) { meet<0, 1, true>(); }
WITNESS(bm_meet_20) { meet<2, 0, false>(); }
WITNESS(bm_meet_02) { meet<0, 2, false>(); }
WITNESS(bm_meet_21) { meet<2, 1, true>(); }
WITNESS(bm_meet_12) { meet<1, 2, false>(); }
WITNESS(bm_meet_11b) { meet<1, 1, true>(); }
