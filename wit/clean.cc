//! property: R07
//! target: pm::Mwpm::reset, pm::DetectorNode::reset
//! defs: -DVP_COLLAPSE_ARRAY
// After a decode, or after an explicit reset, nothing of the previous decode is left.
#include "extract_util.h"

//@ resetting a node clears everything ephemeral and keeps its edges
WITNESS(c_node_reset) {
    D(n); D(m);
    R(r); R(t);
    link(n, m, any_u32<1>(), O(2));
    link_boundary(n, any_u32<3>(), O(4));
    own(n, r, t, m, O(5), T(6));
    n.wrapped_radius_cached = T(7);
    BUSY(n);
    n.reset();
    CHECK(fresh(n) && n.node_event_tracker.desired_time.value == 0 && n.node_event_tracker.queued_time.value == 0);
    CHECK(n.neighbors.size() == 2 && n.neighbors[0] == nullptr && n.neighbors[1] == &m);
    CHECK(n.neighbor_weights[0] == any_u32<3>() && n.neighbor_weights[1] == any_u32<1>());
    CHECK(n.neighbor_observables[0] == O(4) && n.neighbor_observables[1] == O(2));
    REACH();
}
//@ resetting the decoder in the middle of a decode: nodes, queue, trees, regions
WITNESS(c_mwpm_reset) {
    MW;
    mw.flooder.graph.nodes.resize(2);
    auto& n0 = mw.flooder.graph.nodes[0];
    auto& n1 = mw.flooder.graph.nodes[1];
    link(n0, n1, any_u32<1>(), O(2));
    mw.create_detection_event(&n0);
    mw.create_detection_event(&n1);
    BUSY(n0); BUSY(n1);
    mw.reset();
    CHECK(fresh(n0));
    CHECK(fresh(n1));
    CHECK(mw.flooder.queue.empty());
    CHECK(mw.flooder.region_arena.allocated.size() == 0 && mw.flooder.region_arena.available.size() == 0);
    CHECK(mw.node_arena.allocated.size() == 0 && mw.node_arena.available.size() == 0);
    CHECK(n0.neighbors.size() == 1 && n0.neighbors[0] == &n1 && n0.neighbor_weights[0] == any_u32<1>() && n0.neighbor_observables[0] == O(2));
    REACH();
}
//@ a reset also clears nodes that no region has reached: scheduled ones and marked ones
WITNESS(c_mwpm_reset_unreached) {
    MW;
    mw.flooder.graph.nodes.resize(3);
    auto& n0 = mw.flooder.graph.nodes[0];
    auto& n1 = mw.flooder.graph.nodes[1];
    auto& n2 = mw.flooder.graph.nodes[2];
    n0.node_event_tracker.has_desired_time = true;
    n0.node_event_tracker.desired_time.value = any_u32<1>();
    n1.node_event_tracker.has_queued_time = true;
    n1.node_event_tracker.queued_time.value = any_u32<2>();
    n2.radius_of_arrival = 1;
    mw.reset();
    CHECK(fresh(n0));
    CHECK(fresh(n1));
    CHECK(fresh(n2));
    CHECK(mw.flooder.graph.nodes.size() == 3);
    REACH();
}
//@ a reset also clears the search side
WITNESS(c_mwpm_reset_search) {
    MW;
    mw.search_flooder.graph.nodes.resize(2);
    auto& n0 = mw.search_flooder.graph.nodes[0];
    auto& n1 = mw.search_flooder.graph.nodes[1];
    n0.reached_from_source = &n1; n1.reached_from_source = &n0;
    n0.index_of_predecessor = any_u64<1>(); n1.index_of_predecessor = any_u64<2>();
    BUSY(n0); BUSY(n1);
    n0.node_event_tracker = n1.node_event_tracker;
    mw.reset();
    CHECK(n0.reached_from_source == nullptr && n1.reached_from_source == nullptr);
    CHECK(n0.index_of_predecessor == SIZE_MAX && n1.index_of_predecessor == SIZE_MAX);
    CHECK(!n0.node_event_tracker.has_desired_time && !n0.node_event_tracker.has_queued_time && !n1.node_event_tracker.has_desired_time && !n1.node_event_tracker.has_queued_time);
    REACH();
}
