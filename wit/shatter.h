#pragma once
// Shattering of an N-cycle blossom whose child PI touches the tree parent and child CI touches the tree child.
template <int N, int PI, int CI>
inline void shatter(Mwpm& mw, DetectorNode* const* u, DetectorNode* const* v, GraphFillRegion* const* r) {
    D(dp); D(dq); D(dc); D(dz);
    R(ro); R(rx); R(rn); R(ri);
    OBJ(AltTreeNode, S, &ri);
    OBJ(AltTreeNode, P, &ro);
    OBJ(AltTreeNode, B, &rx, &rn, path<1>(&dc, &dz));
    P.add_child(AltTreeEdge(&B, path<2>(&dp, &dq)));
    GROWING(ro, 3); GROWING(rn, 4);
    rx.radius = VaryingCT::from_base_and_growth(NOW, -1);
    for (int i = 0; i < N; i++) {
        r[i]->radius = VaryingCT::frozen(time_at(40 + i));
        r[i]->blossom_parent = r[i]->blossom_parent_top = &rx;
        u[i]->region_that_arrived = r[i];
        u[i]->region_that_arrived_top = &rx;
        u[i]->reached_from_source = u[i];
        u[i]->wrapped_radius_cached = time_at(40 + i);
        r[i]->shell_area.push_back(u[i]);
        rx.blossom_children.push_back({r[i], CompressedEdge{u[i], v[i], vp_any(30 + i)}});
    }
    VaryingCT f0[N];
    for (int i = 0; i < N; i++)
        f0[i] = r[i]->radius;
    VaryingCT br = ro.radius, bn = rn.radius;
    mw.process_event(MwpmEvent(BlossomShatterEventData{&rx, r[PI], r[CI]}));
    constexpr int gap = (CI - PI + N) % N;
    constexpr bool fwd = gap % 2 == 0;
    constexpr int len = fwd ? gap : N - gap;
    AltTreeNode* cur = &P;
    const DetectorNode *ea = &dp, *eb = &dq;
    obs_int eo = any_u64<2>();
#pragma clang loop unroll(full)
    for (int k = 0; k < len; k += 2) {
        int i = fwd ? (PI + k) % N : (PI + N - k) % N;
        int j = fwd ? (PI + k + 1) % N : (PI + N - k - 1) % N;
        int l = fwd ? j : (PI + 2 * N - k - 2) % N;
        int e = fwd ? i : j;
        AltTreeNode* c = cur->children[cur->children.size() - 1].alt_tree_node;
        CHECK(cur->children.size() == 1 && child_is(cur->children[0], c, ea, eb, eo) && child_is(c->parent, cur, eb, ea, eo));
        CHECK(c->inner_region == r[i] && c->outer_region == r[j] && r[i]->alt_tree_node == c && r[j]->alt_tree_node == c);
        CHECK(edge_is(c->inner_to_outer_edge, fwd ? u[e] : v[e], fwd ? v[e] : u[e], vp_any(30 + e)));
        CHECK(r[i]->radius == f0[i].then_shrinking_at_time(NOW));
        CHECK(r[j]->radius == f0[j].then_growing_at_time(NOW));
        ea = fwd ? u[l] : v[l];
        eb = fwd ? v[l] : u[l];
        eo = vp_any(30 + l);
        cur = c;
    }
    CHECK(cur->children.size() == 1 && child_is(cur->children[0], &B, ea, eb, eo) && child_is(B.parent, cur, eb, ea, eo));
    CHECK(B.inner_region == r[CI] && r[CI]->alt_tree_node == &B && B.outer_region == &rn && edge_is(B.inner_to_outer_edge, &dc, &dz, any_u64<1>()));
    CHECK(r[CI]->radius == f0[CI].then_shrinking_at_time(NOW));
#pragma clang loop unroll(full)
    for (int k = len + 1; k < N; k += 2) {
        // the remaining children, walking on from CI (forward case) or starting after PI (backward case)
        int i = fwd ? (CI + k - len) % N : (PI + k - len) % N;
        int j = (i + 1) % N;
        CHECK(matched(*r[i], r[j], u[i], v[i], vp_any(30 + i)) && matched(*r[j], r[i], v[i], u[i], vp_any(30 + i)));
        CHECK(r[i]->radius == f0[i] && r[j]->radius == f0[j] && r[i]->alt_tree_node == nullptr && r[j]->alt_tree_node == nullptr);
    }
#pragma clang loop unroll(full)
    for (int i = 0; i < N; i++)
        CHECK(r[i]->blossom_parent == nullptr && r[i]->blossom_parent_top == r[i] && u[i]->region_that_arrived_top == r[i] && u[i]->wrapped_radius_cached == 0);
    CHECK(P.outer_region == &ro && ro.radius == br && rn.radius == bn && rn.alt_tree_node == &B);
    CHECK(mw.flooder.region_arena.available.size() == 1 && mw.flooder.region_arena.available[0] == &rx);
    REACH();
}
template <int PI, int CI>
inline void shatter3() {
    MW;
    D(u0); D(u1); D(u2); D(v0); D(v1); D(v2);
    R(r0); R(r1); R(r2);
    DetectorNode* u[3] = {&u0, &u1, &u2};
    DetectorNode* v[3] = {&v0, &v1, &v2};
    GraphFillRegion* r[3] = {&r0, &r1, &r2};
    shatter<3, PI, CI>(mw, u, v, r);
}
template <int PI, int CI>
inline void shatter5() {
    MW;
    D(u0); D(u1); D(u2); D(u3); D(u4); D(v0); D(v1); D(v2); D(v3); D(v4);
    R(r0); R(r1); R(r2); R(r3); R(r4);
    DetectorNode* u[5] = {&u0, &u1, &u2, &u3, &u4};
    DetectorNode* v[5] = {&v0, &v1, &v2, &v3, &v4};
    GraphFillRegion* r[5] = {&r0, &r1, &r2, &r3, &r4};
    shatter<5, PI, CI>(mw, u, v, r);
}
template <int PI, int CI>
inline void shatter7() {
    MW;
    D(u0); D(u1); D(u2); D(u3); D(u4); D(u5); D(u6); D(v0); D(v1); D(v2); D(v3); D(v4); D(v5); D(v6);
    R(r0); R(r1); R(r2); R(r3); R(r4); R(r5); R(r6);
    DetectorNode* u[7] = {&u0, &u1, &u2, &u3, &u4, &u5, &u6};
    DetectorNode* v[7] = {&v0, &v1, &v2, &v3, &v4, &v5, &v6};
    GraphFillRegion* r[7] = {&r0, &r1, &r2, &r3, &r4, &r5, &r6};
    shatter<7, PI, CI>(mw, u, v, r);
}
