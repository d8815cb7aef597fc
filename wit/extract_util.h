#pragma once
#include "tree_util.h"
#define OWN1(n, r) own(n, r, r, n, 0, 0)
inline bool fresh(const DetectorNode& n) {
    return n.region_that_arrived == nullptr && n.region_that_arrived_top == nullptr && n.reached_from_source == nullptr &&
           n.observables_crossed_from_source == 0 && n.radius_of_arrival == 0 && n.wrapped_radius_cached == 0 && !n.node_event_tracker.has_desired_time &&
           !n.node_event_tracker.has_queued_time;
}
// p appears in the list exactly once
template <class T>
inline bool once(const std::vector<T*>& v, const T* p) {
    int k = 0;
    for (size_t i = 0; i < v.size(); i++)
        k += v[i] == p;
    return k == 1;
}
inline bool all_once(const std::vector<GraphFillRegion*>& v, std::initializer_list<const GraphFillRegion*> l) {
    bool ok = v.size() == l.size();
    for (auto* p : l)
        ok = ok & once(v, p);
    return ok;
}
// the path a - b is in the list exactly once, in either direction
inline bool has_path(const std::vector<CompressedEdge>& v, const DetectorNode* a, const DetectorNode* b, obs_int o) {
    int k = 0;
    for (size_t i = 0; i < v.size(); i++)
        k += (edge_is(v[i], a, b, o) | (b != nullptr & edge_is(v[i], b, a, o)));
    return k == 1;
}
#define FROZEN(r, k) r.radius = frozen_r<k>()
#define BUSY(n)                                                                                                   \
    do {                                                                                                          \
        n.node_event_tracker.has_desired_time = n.node_event_tracker.has_queued_time = true;                      \
        n.node_event_tracker.queued_time.value = n.node_event_tracker.desired_time.value = any_u32<999>();        \
    } while (0)
// blossom b of x, y, z (nodes dx, dy, dz); cycle x -> y -> z -> x
#define CYCLE3(b, x, y, z, dx, dy, dz, k)                                                                                             \
    b.blossom_children.push_back({&x, path<k>(&dx, &dy)});                                                                            \
    b.blossom_children.push_back({&y, path<k + 1>(&dy, &dz)});                                                                        \
    b.blossom_children.push_back({&z, path<k + 2>(&dz, &dx)});                                                                        \
    x.blossom_parent = y.blossom_parent = z.blossom_parent = x.blossom_parent_top = y.blossom_parent_top = z.blossom_parent_top = &b
#define BLOSSOM(b, x, y, z, dx, dy, dz, k)                                     \
    CYCLE3(b, x, y, z, dx, dy, dz, k);                                         \
    own(dx, x, b, dx, 0, 0); own(dy, y, b, dy, 0, 0); own(dz, z, b, dz, 0, 0); \
    BUSY(dx); BUSY(dy); BUSY(dz)
// VALUE: parity and weight; PATHS: the list of matched pairs; CLEAN: what is left behind (after either way of reading off)
enum { VALUE, PATHS, CLEAN, CLEAN_PATHS };
#define READ_OFF(region)                                                      \
    MatchingResult r;                                                         \
    std::vector<CompressedEdge> es;                                           \
    if constexpr (WHAT == VALUE || WHAT == CLEAN)                             \
        r = mw.shatter_blossom_and_extract_matches(region);                   \
    else                                                                      \
        mw.shatter_blossom_and_extract_match_edges(region, es)
#define T(k) any_time<k>()
#define O(k) any_u64<k>()

template <int WHAT>
inline void sc_pair() {
    MW;
    D(d1); D(d2); D(d3);
    R(a); R(b);
    FROZEN(a, 1); FROZEN(b, 2);
    OWN1(d1, a); own(d3, a, a, d1, O(5), T(6)); OWN1(d2, b);
    BUSY(d1); BUSY(d2); BUSY(d3);
    a.add_match(&b, path<11>(&d1, &d2));
    READ_OFF(&a);
    if constexpr (WHAT == VALUE) {
        CHECK(r.obs_mask == O(11));
        CHECK(r.weight == T(1) + T(2));
    } else if constexpr (WHAT == PATHS) {
        CHECK(es.size() == 1 && has_path(es, &d1, &d2, O(11)));
    } else {
        CHECK(fresh(d1) && fresh(d2) && fresh(d3));
        CHECK(all_once(mw.flooder.region_arena.available, {&a, &b}));
    }
    REACH();
}
template <int WHAT>
inline void sc_boundary() {
    MW;
    D(d1); D(d2);
    R(a);
    FROZEN(a, 1);
    OWN1(d1, a); own(d2, a, a, d1, O(5), T(6));
    BUSY(d1); BUSY(d2);
    a.match = Match{nullptr, path<11>(&d1, nullptr)};
    READ_OFF(&a);
    if constexpr (WHAT == VALUE) {
        CHECK(r.obs_mask == O(11) && r.weight == T(1));
    } else if constexpr (WHAT == PATHS) {
        CHECK(es.size() == 1 && has_path(es, &d1, nullptr, O(11)));
    } else {
        CHECK(fresh(d1) && fresh(d2) && all_once(mw.flooder.region_arena.available, {&a}));
    }
    REACH();
}
// a 3-cycle matched to the boundary from child P
template <int WHAT, int P>
inline void sc_blossom_boundary() {
    MW;
    D(dx); D(dy); D(dz); D(e);
    R(x); R(y); R(z); R(b);
    FROZEN(x, 1); FROZEN(y, 2); FROZEN(z, 3); FROZEN(b, 4);
    BLOSSOM(b, x, y, z, dx, dy, dz, 21);
    own(e, b, b, dx, O(9), T(8));
    DetectorNode* at = P == 0 ? &dx : P == 1 ? &dy : &dz;
    b.match = Match{nullptr, path<11>(at, nullptr)};
    READ_OFF(&b);
    if constexpr (WHAT == VALUE) {
        CHECK(r.obs_mask == (O(11) ^ (P == 0 ? O(22) : P == 1 ? O(23) : O(21))));
        CHECK(r.weight == T(1) + T(2) + T(3) + T(4));
    } else if constexpr (WHAT == PATHS) {
        CHECK(es.size() == 2 && has_path(es, at, nullptr, O(11)));
        if (P == 0)
            CHECK(has_path(es, &dy, &dz, O(22)));
        else if (P == 1)
            CHECK(has_path(es, &dz, &dx, O(23)));
        else
            CHECK(has_path(es, &dx, &dy, O(21)));
    } else {
        CHECK(fresh(dx) && fresh(dy) && fresh(dz) && fresh(e));
        CHECK(all_once(mw.flooder.region_arena.available, {&x, &y, &z, &b}));
    }
    REACH();
}
// a 3-cycle matched to a plain region from child P, read off from the blossom (S = 0) or from the plain region (S = 1)
template <int WHAT, int P, int S>
inline void sc_blossom_plain() {
    MW;
    D(dx); D(dy); D(dz); D(e); D(f);
    R(x); R(y); R(z); R(b); R(q);
    FROZEN(x, 1); FROZEN(y, 2); FROZEN(z, 3); FROZEN(b, 4); FROZEN(q, 5);
    BLOSSOM(b, x, y, z, dx, dy, dz, 21);
    own(e, b, b, dx, O(9), T(8));
    OWN1(f, q); BUSY(f);
    DetectorNode* at = P == 0 ? &dx : P == 1 ? &dy : &dz;
    b.add_match(&q, path<11>(at, &f));
    READ_OFF(S ? &q : &b);
    if constexpr (WHAT == VALUE) {
        CHECK(r.obs_mask == (O(11) ^ (P == 0 ? O(22) : P == 1 ? O(23) : O(21))));
        CHECK(r.weight == T(1) + T(2) + T(3) + T(4) + T(5));
    } else if constexpr (WHAT == PATHS) {
        CHECK(es.size() == 2 && has_path(es, at, &f, O(11)));
        if (P == 0)
            CHECK(has_path(es, &dy, &dz, O(22)));
        else if (P == 1)
            CHECK(has_path(es, &dz, &dx, O(23)));
        else
            CHECK(has_path(es, &dx, &dy, O(21)));
    } else {
        CHECK(fresh(dx) && fresh(dy) && fresh(dz) && fresh(e) && fresh(f));
        CHECK(all_once(mw.flooder.region_arena.available, {&x, &y, &z, &b, &q}));
    }
    REACH();
}
template <int WHAT>
inline void sc_blossom_blossom() {
    MW;
    D(dx); D(dy); D(dz); D(du); D(dv); D(dw);
    R(x); R(y); R(z); R(b); R(u); R(v); R(w); R(c);
    FROZEN(x, 1); FROZEN(y, 2); FROZEN(z, 3); FROZEN(b, 4); FROZEN(u, 5); FROZEN(v, 6); FROZEN(w, 7); FROZEN(c, 8);
    BLOSSOM(b, x, y, z, dx, dy, dz, 21);
    BLOSSOM(c, u, v, w, du, dv, dw, 31);
    b.add_match(&c, path<11>(&dy, &dw));
    READ_OFF(&b);
    if constexpr (WHAT == VALUE) {
        CHECK(r.obs_mask == (O(11) ^ O(23) ^ O(31)));
        CHECK(r.weight == T(1) + T(2) + T(3) + T(4) + T(5) + T(6) + T(7) + T(8));
    } else if constexpr (WHAT == PATHS) {
        CHECK(es.size() == 3 && has_path(es, &dy, &dw, O(11)) && has_path(es, &dz, &dx, O(23)) && has_path(es, &du, &dv, O(31)));
    } else {
        CHECK(fresh(dx) && fresh(dy) && fresh(dz) && fresh(du) && fresh(dv) && fresh(dw));
        CHECK(all_once(mw.flooder.region_arena.available, {&x, &y, &z, &b, &u, &v, &w, &c}));
    }
    REACH();
}
// A 5-cycle matched to the boundary from child P.
template <int WHAT, int P>
inline void sc_five_boundary() {
    MW;
    D(d0); D(d1); D(d2); D(d3); D(d4);
    R(r0); R(r1); R(r2); R(r3); R(r4); R(b);
    FROZEN(r0, 1); FROZEN(r1, 2); FROZEN(r2, 3); FROZEN(r3, 4); FROZEN(r4, 5); FROZEN(b, 6);
    DetectorNode* n[5] = {&d0, &d1, &d2, &d3, &d4};
    GraphFillRegion* q[5] = {&r0, &r1, &r2, &r3, &r4};
    obs_int o[5] = {O(21), O(22), O(23), O(24), O(25)};
#pragma clang loop unroll(full)
    for (int i = 0; i < 5; i++) {
        b.blossom_children.push_back({q[i], {n[i], n[(i + 1) % 5], o[i]}});
        q[i]->blossom_parent = q[i]->blossom_parent_top = &b;
        own(*n[i], *q[i], b, *n[i], 0, 0);
        BUSY((*n[i]));
    }
    b.match = Match{nullptr, path<11>(n[P], nullptr)};
    READ_OFF(&b);
    if constexpr (WHAT == VALUE) {
        CHECK(r.obs_mask == (O(11) ^ o[(P + 1) % 5] ^ o[(P + 3) % 5]));
        CHECK(r.weight == T(1) + T(2) + T(3) + T(4) + T(5) + T(6));
    } else if constexpr (WHAT == PATHS) {
        CHECK(es.size() == 3 && has_path(es, n[P], nullptr, O(11)));
        CHECK(has_path(es, n[(P + 1) % 5], n[(P + 2) % 5], o[(P + 1) % 5]) && has_path(es, n[(P + 3) % 5], n[(P + 4) % 5], o[(P + 3) % 5]));
    } else {
        CHECK(fresh(d0) && fresh(d1) && fresh(d2) && fresh(d3) && fresh(d4));
        CHECK(all_once(mw.flooder.region_arena.available, {&r0, &r1, &r2, &r3, &r4, &b}));
    }
    REACH();
}
// A 3-cycle whose first region is itself a 3-cycle, matched to the boundary from inside the inner cycle (P = 0, at its
// second region) or from the outer cycle's third region (P = 1; the inner cycle is then matched to the outer's second).
template <int WHAT, int P>
inline void sc_nested_boundary() {
    MW;
    D(du); D(dv); D(dw); D(dy); D(dz);
    R(u); R(v); R(w); R(x); R(y); R(z); R(b);
    FROZEN(u, 1); FROZEN(v, 2); FROZEN(w, 3); FROZEN(x, 4); FROZEN(y, 5); FROZEN(z, 6); FROZEN(b, 7);
    CYCLE3(x, u, v, w, du, dv, dw, 21);
    // outer cycle: x (leaving from dw) -> y -> z -> x (arriving at du)
    b.blossom_children.push_back({&x, path<31>(&dw, &dy)});
    b.blossom_children.push_back({&y, path<32>(&dy, &dz)});
    b.blossom_children.push_back({&z, path<33>(&dz, &du)});
    x.blossom_parent = y.blossom_parent = z.blossom_parent = &b;
    u.blossom_parent_top = v.blossom_parent_top = w.blossom_parent_top = x.blossom_parent_top = y.blossom_parent_top = z.blossom_parent_top = &b;
    own(du, u, b, du, 0, 0); own(dv, v, b, dv, 0, 0); own(dw, w, b, dw, 0, 0); own(dy, y, b, dy, 0, 0); own(dz, z, b, dz, 0, 0);
    BUSY(du); BUSY(dv); BUSY(dw); BUSY(dy); BUSY(dz);
    b.match = Match{nullptr, path<11>(P == 0 ? &dv : &dz, nullptr)};
    READ_OFF(&b);
    if constexpr (WHAT == VALUE) {
        // P = 0: dv-boundary, y-z, w-u.  P = 1: dz-boundary, dw-y, u-v.
        CHECK(r.obs_mask == (P == 0 ? (O(11) ^ O(32) ^ O(23)) : (O(11) ^ O(31) ^ O(21))));
        CHECK(r.weight == T(1) + T(2) + T(3) + T(4) + T(5) + T(6) + T(7));
    } else if constexpr (WHAT == PATHS) {
        CHECK(es.size() == 3);
        if (P == 0)
            CHECK(has_path(es, &dv, nullptr, O(11)) && has_path(es, &dy, &dz, O(32)) && has_path(es, &dw, &du, O(23)));
        else
            CHECK(has_path(es, &dz, nullptr, O(11)) && has_path(es, &dw, &dy, O(31)) && has_path(es, &du, &dv, O(21)));
    } else {
        CHECK(fresh(du) && fresh(dv) && fresh(dw) && fresh(dy) && fresh(dz));
        CHECK(all_once(mw.flooder.region_arena.available, {&u, &v, &w, &x, &y, &z, &b}));
    }
    REACH();
}
