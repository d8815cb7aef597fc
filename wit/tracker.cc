//! property: R02
//! target: pm::QueuedEventTracker
//! defs: -DVP_COLLAPSE_ARRAY
// Trackers: whenever a wake-up is desired, an event no later than it is in the queue; stale events do nothing.
#include "wit.h"
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
#include "pymatching/sparse_blossom/flooder/detector_node.h"
using namespace pm;
using Q = radix_heap_queue<false>;

#define SETUP                                                          \
    OBJ(Q, q);                                                         \
    q.cur_time = any_time<1>();                                        \
    OBJ(QueuedEventTracker, tr);                                       \
    DetectorNode* n = any_ptr<2, DetectorNode>();                      \
    uint32_t t = any_u32<3>();                                         \
    FloodCheckEvent ev(n, cyclic_time_int{t})
#define LAST q.bit_buckets[0].back()

//@ set_desired_event on an idle tracker
WITNESS(t_set_idle) {
    SETUP;
    tr.has_desired_time = vp_any(9) & 1;
    tr.desired_time = cyclic_time_int{any_u32<10>()};
    tr.queued_time = cyclic_time_int{any_u32<11>()};
    tr.set_desired_event(ev, q);
    CHECK(tr.has_desired_time && tr.desired_time.value == t);
    CHECK(tr.has_queued_time && tr.queued_time.value == t);
    CHECK(q.size() == 1 && LAST == ev);
    REACH();
}
//@ set_desired_event with an earlier (or equal) event already queued: no new event, wake-up remembered
WITNESS(t_set_earlier_queued) {
    SETUP;
    uint32_t d = any_u32<4>() >> 1;
    tr.has_queued_time = true;
    tr.queued_time = cyclic_time_int{t - d};
    tr.has_desired_time = vp_any(9) & 1;
    tr.desired_time = cyclic_time_int{any_u32<10>()};
    tr.set_desired_event(ev, q);
    CHECK(tr.has_desired_time && tr.desired_time.value == t);
    CHECK(tr.has_queued_time && tr.queued_time.value == t - d);
    CHECK(q.size() == 0);
    REACH();
}
//@ set_desired_event with a later event queued: the sooner one is queued instead
WITNESS(t_set_later_queued) {
    SETUP;
    uint32_t d = any_u32<4>() >> 1;
    ASSUME(d != 0);
    tr.has_queued_time = true;
    tr.queued_time = cyclic_time_int{t + d};
    tr.has_desired_time = vp_any(9) & 1;
    tr.desired_time = cyclic_time_int{any_u32<10>()};
    tr.set_desired_event(ev, q);
    CHECK(tr.has_desired_time && tr.desired_time.value == t);
    CHECK(tr.has_queued_time && tr.queued_time.value == t);
    CHECK(q.size() == 1 && LAST == ev);
    REACH();
}
//@ set_no_desired_event only withdraws the wish
WITNESS(t_no_desire) {
    SETUP;
    tr.has_desired_time = vp_any(9) & 1;
    tr.has_queued_time = vp_any(8) & 1;
    tr.queued_time = cyclic_time_int{any_u32<11>()};
    tr.set_no_desired_event();
    CHECK(!tr.has_desired_time);
    CHECK(tr.has_queued_time == (vp_any(8) & 1) && tr.queued_time.value == any_u32<11>() && q.size() == 0);
    REACH();
}
//@ clear gives the state of a new tracker
WITNESS(t_clear) {
    OBJ(QueuedEventTracker, tr);
    OBJ(QueuedEventTracker, fresh);
    tr.has_desired_time = vp_any(9) & 1;
    tr.has_queued_time = vp_any(8) & 1;
    tr.queued_time = cyclic_time_int{any_u32<11>()};
    tr.desired_time = cyclic_time_int{any_u32<12>()};
    tr.clear();
    CHECK(!tr.has_desired_time && !tr.has_queued_time && !fresh.has_desired_time && !fresh.has_queued_time);
    CHECK(tr.desired_time == fresh.desired_time && tr.queued_time == fresh.queued_time);
    REACH();
}
//@ a dequeued event at another time than the queued one is discarded and changes nothing
WITNESS(t_deq_stale) {
    SETUP;
    tr.has_queued_time = true;
    tr.queued_time = cyclic_time_int{any_u32<11>()};
    tr.has_desired_time = vp_any(9) & 1;
    tr.desired_time = cyclic_time_int{any_u32<10>()};
    ASSUME(any_u32<11>() != t);
    bool r = tr.dequeue_decision(ev, q);
    CHECK(!r && q.size() == 0);
    CHECK(tr.has_queued_time == true && tr.queued_time.value == any_u32<11>());
    CHECK(tr.has_desired_time == (vp_any(9) & 1) && tr.desired_time.value == any_u32<10>());
    REACH();
}
//@ a dequeued event while nothing counts as queued is discarded and changes nothing
WITNESS(t_deq_unknown) {
    SETUP;
    tr.has_queued_time = false;
    tr.queued_time = cyclic_time_int{any_u32<11>()};
    tr.has_desired_time = vp_any(9) & 1;
    tr.desired_time = cyclic_time_int{any_u32<10>()};
    bool r = tr.dequeue_decision(ev, q);
    CHECK(!r && q.size() == 0);
    CHECK(tr.has_queued_time == false && tr.queued_time.value == any_u32<11>());
    CHECK(tr.has_desired_time == (vp_any(9) & 1) && tr.desired_time.value == any_u32<10>());
    REACH();
}
//@ the queued event arrives, nothing desired
WITNESS(t_deq_undesired) {
    SETUP;
    tr.has_queued_time = true;
    tr.queued_time = cyclic_time_int{t};
    tr.has_desired_time = false;
    tr.desired_time = cyclic_time_int{any_u32<10>()};
    bool r = tr.dequeue_decision(ev, q);
    CHECK(!r && q.size() == 0 && !tr.has_queued_time && !tr.has_desired_time);
    REACH();
}
//@ the queued event arrives exactly when desired: process it
WITNESS(t_deq_hit) {
    SETUP;
    tr.has_queued_time = true;
    tr.queued_time = cyclic_time_int{t};
    tr.has_desired_time = true;
    tr.desired_time = cyclic_time_int{t};
    bool r = tr.dequeue_decision(ev, q);
    CHECK(r && q.size() == 0 && !tr.has_queued_time && !tr.has_desired_time);
    REACH();
}
//@ the queued event arrives too early: it is requeued at the desired time, still desired
WITNESS(t_deq_early) {
    SETUP;
    uint32_t u = any_u32<4>();
    ASSUME(u != t);
    tr.has_queued_time = true;
    tr.queued_time = cyclic_time_int{t};
    tr.has_desired_time = true;
    tr.desired_time = cyclic_time_int{u};
    bool r = tr.dequeue_decision(ev, q);
    CHECK(!r && tr.has_queued_time && tr.queued_time.value == u && tr.has_desired_time && tr.desired_time.value == u);
    CHECK(q.size() == 1 && LAST == FloodCheckEvent(n, cyclic_time_int{u}));
    REACH();
}
