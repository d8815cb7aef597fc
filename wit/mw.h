// Shared builders for witnesses about the flooder and the matcher.
#pragma once
#include "wit.h"
#include "pymatching/sparse_blossom/matcher/mwpm.h"
#include "pymatching/sparse_blossom/matcher/alternating_tree.h"
#include "pymatching/sparse_blossom/flooder/graph_flooder.h"
using namespace pm;
// arbitrary growing / frozen / shrinking radius
template <int K>
inline VaryingCT growing_r() {
    return VaryingCT::from_base_and_growth(any_time<K>(), 1);
}
template <int K>
inline VaryingCT frozen_r() {
    return VaryingCT::from_base_and_growth(any_time<K>(), 0);
}
template <int K>
inline VaryingCT shrinking_r() {
    return VaryingCT::from_base_and_growth(any_time<K>(), -1);
}
// arbitrary path between two detection events
template <int K>
inline CompressedEdge path(DetectorNode* a, DetectorNode* b) {
    return CompressedEdge{a, b, any_u64<K>()};
}
inline void link(DetectorNode& a, DetectorNode& b, weight_int w, obs_int o) {
    a.neighbors.push_back(&b);
    a.neighbor_weights.push_back(w);
    a.neighbor_observables.push_back(o);
    b.neighbors.push_back(&a);
    b.neighbor_weights.push_back(w);
    b.neighbor_observables.push_back(o);
}
inline void link_boundary(DetectorNode& a, weight_int w, obs_int o) {
    a.neighbors.insert(a.neighbors.begin(), 1, nullptr);
    a.neighbor_weights.insert(a.neighbor_weights.begin(), 1, w);
    a.neighbor_observables.insert(a.neighbor_observables.begin(), 1, o);
}
// node owned by region r (whose top is t), reached from s
inline void own(DetectorNode& n, GraphFillRegion& r, GraphFillRegion& t, DetectorNode& s, obs_int o, cumulative_time_int roa) {
    n.region_that_arrived = &r;
    n.region_that_arrived_top = &t;
    n.reached_from_source = &s;
    n.observables_crossed_from_source = o;
    n.radius_of_arrival = roa;
    n.wrapped_radius_cached = n.compute_wrapped_radius();
    r.shell_area.push_back(&n);
}
inline bool edge_is(const CompressedEdge& e, const DetectorNode* a, const DetectorNode* b, obs_int o) {
    return e.loc_from == a && e.loc_to == b && e.obs_mask == o;
}
// the tracker of an entity wants to be woken at time t and an event at most that late is queued
inline bool wakes_at(const QueuedEventTracker& tr, cumulative_time_int t) {
    return tr.has_desired_time && tr.desired_time.value == (uint32_t)t && tr.has_queued_time &&
           (tr.queued_time.value == (uint32_t)t || (int32_t)((uint32_t)t - tr.queued_time.value) > 0);
}
#define FLOODER(fl)           \
    OBJ(GraphFlooder, fl);    \
    fl.queue.cur_time = any_time<900>()
