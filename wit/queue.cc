//! property: R02
//! target: pm::radix_heap_queue, pm::QueuedEventTracker
// The event queue: nothing lost, duplicated or served early; trackers wake at the desired time or not at all.
#include "wit.h"
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
#include "pymatching/sparse_blossom/flooder/detector_node.h"
using namespace pm;
using Q = radix_heap_queue<false>;

// Two events at distance 0..3 from each other, all offsets enumerated by template parameters so that the bucket
// indices are constants; the payloads and the wrap count of the clock are arbitrary.
template <int D0, int D1, int BASE>
static inline void two(void) {
    OBJ(Q, q);
    q.cur_time = (((int64_t)any_u64<1>()) << 32) + BASE;
    DetectorNode* a = any_ptr<2, DetectorNode>();
    DetectorNode* b = any_ptr<3, DetectorNode>();
    int64_t t0 = q.cur_time;
    q.enqueue(FloodCheckEvent(a, cyclic_time_int{t0 + D0}));
    q.enqueue(FloodCheckEvent(b, cyclic_time_int{t0 + D1}));
    CHECK(q.size() == 2 && !q.empty() && q.cur_time == t0);
    FloodCheckEvent e = q.dequeue();
    CHECK(q.size() == 1 && !q.empty());
    CHECK(q.cur_time == t0 + (D0 < D1 ? D0 : D1));
    CHECK(e.time == cyclic_time_int{q.cur_time} && e.tentative_event_type == LOOK_AT_NODE);
    FloodCheckEvent f = q.dequeue();
    CHECK(q.size() == 0 && q.empty());
    CHECK(q.cur_time == t0 + (D0 < D1 ? D1 : D0));
    CHECK(f.time == cyclic_time_int{q.cur_time} && f.tentative_event_type == LOOK_AT_NODE);
    if (D0 < D1)
        CHECK(e.data_look_at_node == a && f.data_look_at_node == b);
    else if (D0 > D1)
        CHECK(e.data_look_at_node == b && f.data_look_at_node == a);
    else
        CHECK((e.data_look_at_node == a && f.data_look_at_node == b) ||
              (e.data_look_at_node == b && f.data_look_at_node == a));
    FloodCheckEvent g = q.dequeue();
    CHECK(g.tentative_event_type == NO_FLOOD_CHECK_EVENT && q.size() == 0);
    REACH();
}
//@ two events, various distances, including across the 32-bit wrap of the clock
WITNESS(q_two_0_0) { two<0, 0, 0>(); }
WITNESS(q_two_0_1) { two<0, 1, 0>(); }
WITNESS(q_two_1_0) { two<1, 0, 6>(); }
WITNESS(q_two_1_1) { two<1, 1, 6>(); }
WITNESS(q_two_2_3) { two<2, 3, 0>(); }
WITNESS(q_two_3_2) { two<3, 2, 5>(); }
WITNESS(q_two_9_2) { two<9, 2, 7>(); }
WITNESS(q_two_far) { two<1000000000, 2147483000, 0>(); }
WITNESS(q_two_wrap) { two<100, 20, -50>(); }
WITNESS(q_two_wrap2) { two<5, 3, -1>(); }
WITNESS(q_two_wrap3) { two<2147483000, 4, -1>(); }
WITNESS(q_two_half) { two<7, 1, 0x7ffffffe>(); }
// Three events, with an enqueue after the clock has moved.
template <int D0, int D1, int D2, int BASE>
static inline void three(void) {
    OBJ(Q, q);
    q.cur_time = (((int64_t)any_u64<1>()) << 32) + BASE;
    int64_t t0 = q.cur_time;
    DetectorNode* a = any_ptr<2, DetectorNode>();
    GraphFillRegion* b = any_ptr<3, GraphFillRegion>();
    SearchDetectorNode* c = any_ptr<4, SearchDetectorNode>();
    q.enqueue(FloodCheckEvent(a, cyclic_time_int{t0 + D0}));
    q.enqueue(FloodCheckEvent(b, cyclic_time_int{t0 + D1}));  // D0 < D1 < D2
    FloodCheckEvent e = q.dequeue();
    CHECK(e.tentative_event_type == LOOK_AT_NODE && e.data_look_at_node == a && q.cur_time == t0 + D0);
    q.enqueue(FloodCheckEvent(c, cyclic_time_int{t0 + D2}));
    CHECK(q.size() == 2);
    e = q.dequeue();
    CHECK(e.tentative_event_type == LOOK_AT_SHRINKING_REGION && e.data_look_at_shrinking_region == b);
    CHECK(q.cur_time == t0 + D1 && e.time == cyclic_time_int{t0 + D1});
    e = q.dequeue();
    CHECK(e.tentative_event_type == LOOK_AT_SEARCH_NODE && e.data_look_at_search_node == c);
    CHECK(q.cur_time == t0 + D2 && e.time == cyclic_time_int{t0 + D2} && q.empty());
    REACH();
}
//@ interleaved use: the clock only moves to the time of the event served
WITNESS(q_three_a) { three<0, 1, 2, 0>(); }
WITNESS(q_three_b) { three<3, 4, 5, 1>(); }
WITNESS(q_three_c) { three<2, 40, 41, -20>(); }
WITNESS(q_three_d) { three<1, 2, 1073741824, -2>(); }
WITNESS(q_three_e) { three<4, 8, 12, 0x7ffffff9>(); }
// Three events sitting in one bucket: all survive the redistribution.
WITNESS(q_same_bucket) {
    OBJ(Q, q);
    q.cur_time = ((int64_t)any_u64<1>()) << 32;
    DetectorNode *a = any_ptr<2, DetectorNode>(), *b = any_ptr<3, DetectorNode>(), *c = any_ptr<4, DetectorNode>();
    q.enqueue(FloodCheckEvent(a, cyclic_time_int{q.cur_time + 7}));
    q.enqueue(FloodCheckEvent(b, cyclic_time_int{q.cur_time + 4}));
    q.enqueue(FloodCheckEvent(c, cyclic_time_int{q.cur_time + 6}));
    int64_t t0 = q.cur_time;
    CHECK(q.dequeue().data_look_at_node == b && q.cur_time == t0 + 4);
    CHECK(q.dequeue().data_look_at_node == c && q.cur_time == t0 + 6);
    CHECK(q.dequeue().data_look_at_node == a && q.cur_time == t0 + 7);
    CHECK(q.empty());
    REACH();
}
//@ four and five events in one bucket
template <int A, int B, int C, int D, int E, int BASE>
static inline void five(void) {
    OBJ(Q, q);
    q.cur_time = (((int64_t)any_u64<1>()) << 32) + BASE;
    int64_t t0 = q.cur_time;
    constexpr int t[5] = {A, B, C, D, E};
    DetectorNode* n[5] = {any_ptr<2, DetectorNode>(), any_ptr<3, DetectorNode>(), any_ptr<4, DetectorNode>(), any_ptr<5, DetectorNode>(), any_ptr<6, DetectorNode>()};
#pragma clang loop unroll(full)
    for (int i = 0; i < 5; i++)
        q.enqueue(FloodCheckEvent(n[i], cyclic_time_int{t0 + t[i]}));
    CHECK(q.size() == 5);
    int at = -1;
#pragma clang loop unroll(full)
    for (int k = 0; k < 5; k++) {
        int best = -1;
        for (int i = 0; i < 5; i++)
            if (t[i] > at && (best < 0 || t[i] < t[best]))
                best = i;
        at = t[best];
        FloodCheckEvent e = q.dequeue();
        CHECK(q.cur_time == t0 + at && e.time == cyclic_time_int{t0 + at} && e.data_look_at_node == n[best] && q.size() == 4 - k);
    }
    REACH();
}
WITNESS(q_five_a) { five<15, 12, 14, 9, 8, 0>(); }
WITNESS(q_five_b) { five<9, 12, 14, 15, 8, 0>(); }
WITNESS(q_five_c) { five<70, 12, 64, 90, 65, -10>(); }
WITNESS(q_five_d) { five<1000, 2000, 1023, 500, 1024, 24>(); }
WITNESS(q_five_e) { five<5, 4, 3, 2, 1, 0x7ffffffd>(); }
// Any event whose time first differs from the clock in bit K - 1, any clock: served at its own time.
template <int K>
static inline void single(void) {
    OBJ(Q, q);
    constexpr uint64_t bit = (uint64_t)1 << (K - 1);
    int64_t h = (int64_t)(any_u64<1>() << K);
    int64_t c = h + (int64_t)(any_u64<4>() & (bit - 1));
    q.cur_time = c;
    int64_t when = h + (int64_t)(bit | (any_u64<3>() & (bit - 1)));
    DetectorNode* a = any_ptr<2, DetectorNode>();
    q.enqueue(FloodCheckEvent(a, cyclic_time_int{when}));
    CHECK(q.size() == 1 && q.cur_time == c);
    FloodCheckEvent e = q.dequeue();
    CHECK(q.cur_time == when);
    CHECK(e.time == cyclic_time_int{when});
    CHECK(e.data_look_at_node == a && q.empty());
    REACH();
}
WITNESS(q_single_1) { single<1>(); }
WITNESS(q_single_2) { single<2>(); }
WITNESS(q_single_3) { single<3>(); }
WITNESS(q_single_4) { single<4>(); }
WITNESS(q_single_5) { single<5>(); }
WITNESS(q_single_6) { single<6>(); }
WITNESS(q_single_7) { single<7>(); }
WITNESS(q_single_8) { single<8>(); }
WITNESS(q_single_9) { single<9>(); }
WITNESS(q_single_10) { single<10>(); }
WITNESS(q_single_11) { single<11>(); }
WITNESS(q_single_12) { single<12>(); }
WITNESS(q_single_13) { single<13>(); }
WITNESS(q_single_14) { single<14>(); }
WITNESS(q_single_15) { single<15>(); }
WITNESS(q_single_16) { single<16>(); }
WITNESS(q_single_17) { single<17>(); }
WITNESS(q_single_18) { single<18>(); }
WITNESS(q_single_19) { single<19>(); }
WITNESS(q_single_20) { single<20>(); }
WITNESS(q_single_21) { single<21>(); }
WITNESS(q_single_22) { single<22>(); }
WITNESS(q_single_23) { single<23>(); }
WITNESS(q_single_24) { single<24>(); }
WITNESS(q_single_25) { single<25>(); }
WITNESS(q_single_26) { single<26>(); }
WITNESS(q_single_27) { single<27>(); }
WITNESS(q_single_28) { single<28>(); }
WITNESS(q_single_29) { single<29>(); }
WITNESS(q_single_30) { single<30>(); }
// Any two events whose times first differ from the clock in bits K - 1 and L - 1 (K > L), any clock: served in order, each at its own time.
template <int K, int L, bool SWAP>
static inline void apart(void) {
    OBJ(Q, q);
    constexpr uint64_t kb = (uint64_t)1 << (K - 1), lb = (uint64_t)1 << (L - 1);
    int64_t h = (int64_t)(any_u64<1>() << K);
    int64_t m = (int64_t)(any_u64<5>() & ((kb - 1) & ~(2 * lb - 1)));
    int64_t c = h + m + (int64_t)(any_u64<4>() & (lb - 1));
    q.cur_time = c;
    int64_t t0 = h + m + (int64_t)(lb | (any_u64<6>() & (lb - 1)));
    int64_t t1 = h + (int64_t)(kb | (any_u64<7>() & (kb - 1)));
    DetectorNode *a = any_ptr<2, DetectorNode>(), *b = any_ptr<3, DetectorNode>();
    q.enqueue(FloodCheckEvent(SWAP ? b : a, cyclic_time_int{SWAP ? t1 : t0}));
    q.enqueue(FloodCheckEvent(SWAP ? a : b, cyclic_time_int{SWAP ? t0 : t1}));
    FloodCheckEvent e = q.dequeue();
    CHECK(q.cur_time == t0);
    CHECK(e.time == cyclic_time_int{t0} && e.data_look_at_node == a && q.size() == 1);
    FloodCheckEvent f = q.dequeue();
    CHECK(q.cur_time == t1);
    CHECK(f.time == cyclic_time_int{t1} && f.data_look_at_node == b && q.empty());
    REACH();
}
WITNESS(q_apart_5_2) { apart<5, 2, false>(); }
WITNESS(q_apart_9_6) { apart<9, 6, true>(); }
WITNESS(q_apart_17_16) { apart<17, 16, false>(); }
WITNESS(q_apart_26_3) { apart<26, 3, true>(); }
WITNESS(q_apart_30_29) { apart<30, 29, false>(); }
// Any two events whose times first differ from the clock in the same bit K - 1 and from each other in bit L - 1.
template <int K, int L, bool SWAP>
static inline void together(void) {
    OBJ(Q, q);
    constexpr uint64_t kb = (uint64_t)1 << (K - 1), lb = (uint64_t)1 << (L - 1);
    int64_t h = (int64_t)(any_u64<1>() << 32);
    int64_t m = (int64_t)kb;
    int64_t c = h + (int64_t)(any_u64<4>() & (kb - 1));
    q.cur_time = c;
    int64_t t0 = h + m + (int64_t)(any_u64<6>() & (lb - 1));
    int64_t t1 = h + m + (int64_t)(lb | (any_u64<7>() & (lb - 1)));
    DetectorNode *a = any_ptr<2, DetectorNode>(), *b = any_ptr<3, DetectorNode>();
    q.enqueue(FloodCheckEvent(SWAP ? b : a, cyclic_time_int{SWAP ? t1 : t0}));
    q.enqueue(FloodCheckEvent(SWAP ? a : b, cyclic_time_int{SWAP ? t0 : t1}));
    FloodCheckEvent e = q.dequeue();
    CHECK(q.cur_time == t0);
    CHECK(e.time == cyclic_time_int{t0} && e.data_look_at_node == a && q.size() == 1);
    FloodCheckEvent f = q.dequeue();
    CHECK(q.cur_time == t1);
    CHECK(f.time == cyclic_time_int{t1} && f.data_look_at_node == b && q.empty());
    REACH();
}
WITNESS(q_together_2_1) { together<2, 1, false>(); }
WITNESS(q_together_3_1) { together<3, 1, true>(); }
WITNESS(q_together_3_2) { together<3, 2, false>(); }
WITNESS(q_together_9_6) { together<9, 6, true>(); }
WITNESS(q_together_17_16) { together<17, 16, false>(); }
WITNESS(q_together_26_3) { together<26, 3, true>(); }
WITNESS(q_together_30_29) { together<30, 29, false>(); }
//@ the bucket of a time is decided by its distance in bits from the clock, for every pair of times
WITNESS(q_bucket) {
    OBJ(Q, q);
    q.cur_time = (int64_t)any_u64<1>();
    uint32_t t = any_u32<2>();
    size_t b = q.cur_bit_bucket_for(cyclic_time_int{t});
    CHECK((b == 0) == (t == (uint32_t)q.cur_time));
    CHECK(b <= 32);
    REACH();
}
//@ satisfies_invariants / clear / reset: whatever is queued is gone, and reset rewinds the clock
template <int D0, int D1>
static inline void clr(bool reset) {
    OBJ(Q, q);
    q.cur_time = ((int64_t)any_u64<1>()) << 32;
    int64_t t0 = q.cur_time;
    q.enqueue(FloodCheckEvent(any_ptr<2, DetectorNode>(), cyclic_time_int{q.cur_time + D0}));
    q.enqueue(FloodCheckEvent(any_ptr<3, DetectorNode>(), cyclic_time_int{q.cur_time + D1}));
    if (reset)
        q.reset();
    else
        q.clear();
    CHECK(q.size() == 0 && q.empty());
    CHECK(q.cur_time == (reset ? 0 : t0));
    bool all = true;
    for (size_t i = 0; i < 33; i++)
        all &= q.bit_buckets[i].empty();
    CHECK(all);
    CHECK(q.dequeue().tentative_event_type == NO_FLOOD_CHECK_EVENT);
    REACH();
}
WITNESS(q_clear_a) { clr<0, 0>(false); }
WITNESS(q_clear_b) { clr<1, 5>(false); }
WITNESS(q_reset_a) { clr<0, 2147483000>(true); }
WITNESS(q_reset_b) { clr<3, 3>(true); }
//@ an empty queue answers "nothing" and stays as it is
WITNESS(q_empty) {
    OBJ(Q, q);
    CHECK(q.cur_time == 0 && q.empty() && q.size() == 0);
    q.cur_time = any_time<1>();
    FloodCheckEvent e = q.dequeue();
    CHECK(e.tentative_event_type == NO_FLOOD_CHECK_EVENT && q.cur_time == any_time<1>() && q.empty());
    REACH();
}
//@ event constructors tag what they carry
WITNESS(q_event_tags) {
    cyclic_time_int t{any_u32<1>()};
    FloodCheckEvent a(any_ptr<2, DetectorNode>(), t), b(any_ptr<3, GraphFillRegion>(), t), c(any_ptr<4, SearchDetectorNode>(), t), n(t);
    CHECK(a.tentative_event_type == LOOK_AT_NODE && a.time == t && (a.data_look_at_node == any_ptr<2, DetectorNode>()));
    CHECK(b.tentative_event_type == LOOK_AT_SHRINKING_REGION && b.time == t && (b.data_look_at_shrinking_region == any_ptr<3, GraphFillRegion>()));
    CHECK(c.tentative_event_type == LOOK_AT_SEARCH_NODE && c.time == t && (c.data_look_at_search_node == any_ptr<4, SearchDetectorNode>()));
    CHECK(n.tentative_event_type == NO_FLOOD_CHECK_EVENT && n.time == t);
    REACH();
}
