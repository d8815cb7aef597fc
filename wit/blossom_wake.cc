//! property: R06
//! target: pm::Mwpm::handle_blossom_shattering
//! defs: -DVP_COLLAPSE_ARRAY
// When a blossom shatters every region it was made of is woken for its new role.
#include "tree_util.h"

// N-cycle, tree parent at PI, tree child at CI; other branches of the parent stay. Every node of the cycle has a growing neighbour.
template <int N, int PI, int CI>
inline void wake() {
    MW;
    D(dp); D(dq); D(dc); D(dz); D(dk);
    R(ro); R(rx); R(rn); R(g); R(k1); R(k2); R(k3); R(k4);
    OBJ(AltTreeNode, P, &ro);
    OBJ(AltTreeNode, B, &rx, &rn, path<1>(&dc, &dz));
    OBJ(AltTreeNode, K, &k1, &k2, path<5>(&dk, &dk));
    OBJ(AltTreeNode, L, &k3, &k4, path<6>(&dk, &dk));
    P.add_child(AltTreeEdge(&K, path<7>(&dp, &dk)));
    P.add_child(AltTreeEdge(&B, path<2>(&dp, &dq)));
    P.add_child(AltTreeEdge(&L, path<8>(&dp, &dk)));
    GROWING(ro, 3); GROWING(rn, 4); GROWING(g, 9);
    rx.radius = VaryingCT::from_base_and_growth(NOW, -1);
    Raw<GraphFillRegion> rg[N];
    Raw<DetectorNode> un[N], mn[N];
    GraphFillRegion* r[N];
    DetectorNode *u[N], *m[N];
#pragma clang loop unroll(full)
    for (int i = 0; i < N; i++) {
        r[i] = new (rg[i].b) GraphFillRegion();
        u[i] = new (un[i].b) DetectorNode();
        m[i] = new (mn[i].b) DetectorNode();
        r[i]->radius = VaryingCT::frozen(time_at(40 + i));
        r[i]->blossom_parent = r[i]->blossom_parent_top = &rx;
        u[i]->region_that_arrived = r[i];
        u[i]->region_that_arrived_top = &rx;
        u[i]->reached_from_source = u[i];
        u[i]->wrapped_radius_cached = time_at(40 + i);
        r[i]->shell_area.push_back(u[i]);
        m[i]->region_that_arrived = m[i]->region_that_arrived_top = &g;
        m[i]->reached_from_source = m[i];
        link(*u[i], *m[i], (uint32_t)vp_any(50 + i), 0);
    }
#pragma clang loop unroll(full)
    for (int i = 0; i < N; i++)
        rx.blossom_children.push_back({r[i], CompressedEdge{u[i], u[(i + 1) % N], vp_any(30 + i)}});
    mw.process_event(MwpmEvent(BlossomShatterEventData{&rx, r[PI], r[CI]}));
    constexpr int gap = (CI - PI + N) % N;
    constexpr bool fwd = gap % 2 == 0;
    constexpr int len = fwd ? gap : N - gap;
#pragma clang loop unroll(full)
    for (int k = 0; k < N; k++) {
        int i = fwd ? (PI + k) % N : (PI + N - k) % N;
        int64_t w = (int64_t)(uint32_t)vp_any(50 + i);
        if (k <= len && k % 2 == 0) {
            CHECK(r[i]->radius.is_shrinking() && !u[i]->node_event_tracker.has_desired_time);
            CHECK(wakes_at(r[i]->shrink_event_tracker, time_at(40 + i) + NOW));
        } else if (k < len) {
            CHECK(r[i]->radius.is_growing() && !r[i]->shrink_event_tracker.has_desired_time);
            int64_t d = w - (time_at(40 + i) - NOW) - any_time<9>();
            CHECK_HALF(d, wakes_at(u[i]->node_event_tracker, d >> 1));
        } else {
            CHECK(r[i]->radius.is_frozen() && !r[i]->shrink_event_tracker.has_desired_time);
            CHECK(wakes_at(u[i]->node_event_tracker, (uint32_t)w - (uint32_t)(time_at(40 + i) + any_time<9>())));
        }
    }
    CHECK(P.children.size() == 3 && child_is(K.parent, &P, &dk, &dp, any_u64<7>()) && child_is(L.parent, &P, &dk, &dp, any_u64<8>()));
    bool sk = false, sl = false, sb = false;
#pragma clang loop unroll(full)
    for (size_t i = 0; i < 3; i++) {
        sk = sk | child_is(P.children[i], &K, &dp, &dk, any_u64<7>());
        sl = sl | child_is(P.children[i], &L, &dp, &dk, any_u64<8>());
        sb = sb | (P.children[i].alt_tree_node == r[PI]->alt_tree_node && edge_is(P.children[i].edge, &dp, &dq, any_u64<2>()));
    }
    CHECK(sk && sl && sb);
    REACH();
}
//@ shattering wakes every region and detector of the cycle; the other branches of the tree stay
WITNESS(bw_3_00) { wake<3, 0, 0>(); }
WITNESS(bw_3_01) { wake<3, 0, 1>(); }
WITNESS(bw_3_02) { wake<3, 0, 2>(); }
WITNESS(bw_3_11) { wake<3, 1, 1>(); }
WITNESS(bw_3_12) { wake<3, 1, 2>(); }
WITNESS(bw_3_20) { wake<3, 2, 0>(); }
WITNESS(bw_5_33) { wake<5, 3, 3>(); }
WITNESS(bw_5_04) { wake<5, 0, 4>(); }
WITNESS(bw_5_31) { wake<5, 3, 1>(); }
WITNESS(bw_5_20) { wake<5, 2, 0>(); }
WITNESS(bw_5_14) { wake<5, 1, 4>(); }
