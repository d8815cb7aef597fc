//! property: R02
//! target: pm::radix_heap_queue
//! defs: -DVP_CAP=24
// The event queue with many events at once: order and completeness do not depend on how many events share a bucket.
#include "wit.h"
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
#include "pymatching/sparse_blossom/flooder/detector_node.h"
using namespace pm;
using Q = radix_heap_queue<false>;

// N events enqueued in the order of the permutation i -> (i * M + 3) % N (M prime to N), at distance FAR + STEP * ((i * M + 3) % N).
template <int N, int M, int FAR, int STEP, int BASE>
static inline void many(void) {
    OBJ(Q, q);
    q.cur_time = (((int64_t)any_u64<1>()) << 32) + BASE;
    int64_t t0 = q.cur_time;
    DetectorNode* base = any_ptr<2, DetectorNode>();
#pragma clang loop unroll(full)
    for (int i = 0; i < N; i++)
        q.enqueue(FloodCheckEvent(base + (i * M + 3) % N, cyclic_time_int{t0 + FAR + STEP * ((i * M + 3) % N)}));
    CHECK(q.size() == N);
#pragma clang loop unroll(full)
    for (int k = 0; k < N; k++) {
        FloodCheckEvent e = q.dequeue();
        CHECK(q.size() == (size_t)(N - 1 - k));
        CHECK(q.cur_time == t0 + FAR + STEP * k && e.time.value == (uint32_t)(BASE + FAR + STEP * k));
        CHECK(e.tentative_event_type == LOOK_AT_NODE && e.data_look_at_node == base + k);
    }
    CHECK(q.empty() && q.dequeue().tentative_event_type == NO_FLOOD_CHECK_EVENT);
    REACH();
}
//@ twenty events of one bucket are served in order of time
WITNESS(qm_bucket) { many<20, 7, 64, 3, 0>(); }
//@ twenty events far away, earliest in the middle of the bucket
WITNESS(qm_far) { many<20, 13, 1 << 20, 1000, 0>(); }
//@ twenty events across the wrap of the clock
WITNESS(qm_wrap) { many<20, 11, 10, 5, -40>(); }
//@ clearing a crowded queue
WITNESS(qm_clear) {
    OBJ(Q, q);
    int64_t t0 = q.cur_time = 5;
    DetectorNode* base = any_ptr<2, DetectorNode>();
#pragma clang loop unroll(full)
    for (int i = 0; i < 20; i++)
        q.enqueue(FloodCheckEvent(base + i, cyclic_time_int{t0 + 100 + i}));
    q.enqueue(FloodCheckEvent(base, cyclic_time_int{t0}));
    q.enqueue(FloodCheckEvent(base, cyclic_time_int{t0 + 0x7fffffff}));
    q.reset();
    CHECK(q.empty() && q.cur_time == 0 && q.dequeue().tentative_event_type == NO_FLOOD_CHECK_EVENT);
    q.enqueue(FloodCheckEvent(base + 3, cyclic_time_int{(int64_t)7}));
    FloodCheckEvent e = q.dequeue();
    CHECK(e.data_look_at_node == base + 3 && q.cur_time == 7 && q.empty());
    REACH();
}
