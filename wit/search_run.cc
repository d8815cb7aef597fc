//! property: R10
//! target: pm::SearchFlooder::run_until_collision
//! defs: -DVP_COLLAPSE_ARRAY
// Complete searches on small graphs with arbitrary weights, over an ideal event queue (the real one is R02's subject):
// the loop serves events, starts from both ends (or from the source only, towards the boundary) and stops at the meeting.
#include "mw.h"
template <>
void pm::radix_heap_queue<false>::enqueue(FloodCheckEvent e) {
    bit_buckets[0].push_back(e);
    _num_enqueued++;
}
// The order in which events are served is scripted per witness; serving an event assumes that no queued one is earlier.
static const void* script[8];
static int served;
template <>
FloodCheckEvent pm::radix_heap_queue<false>::dequeue() {
    auto& b = bit_buckets[0];
    if (b.empty() || served >= 8)
        return FloodCheckEvent(cyclic_time_int{0});
    const void* who = script[served++];
    size_t k = 0;
    while (k < b.size() && b[k].data_look_at_search_node != who)
        k++;
    ASSUME(k < b.size());
    FloodCheckEvent e = b[k];
    for (size_t i = 0; i < b.size(); i++)
        ASSUME(b[i].time.value >= e.time.value);
    for (size_t i = k; i + 1 < b.size(); i++)
        b[i] = b[i + 1];
    b.pop_back();
    _num_enqueued--;
    cur_time = (int64_t)(uint64_t)e.time.value;
    return e;
}
#define SERVE(...)                               \
    do {                                         \
        served = 0;                              \
        const void* v[] = {__VA_ARGS__};         \
        for (size_t i = 0; i < sizeof v / 8; i++)\
            script[i] = v[i];                    \
    } while (0)
inline void slink(SearchDetectorNode& a, SearchDetectorNode& b, weight_int w) {
    a.neighbors.push_back(&b);
    a.neighbor_weights.push_back(w);
    b.neighbors.push_back(&a);
    b.neighbor_weights.push_back(w);
}
inline void slink_boundary(SearchDetectorNode& a, weight_int w) {
    a.neighbors.insert(a.neighbors.begin(), 1, nullptr);
    a.neighbor_weights.insert(a.neighbor_weights.begin(), 1, w);
}
#define N(n) OBJ(SearchDetectorNode, n)
template <int K>
inline uint32_t even() {
    return any_even<K>();
}
//@ two nodes joined by one edge, the source served first
WITNESS(u_pair) {
    OBJ(SearchFlooder, f);
    N(a); N(b);
    slink(a, b, even<1>());
    SERVE(&a);
    auto e = f.run_until_collision(&a, &b);
    CHECK(e.detector_node == &a && e.neighbor_index == 0);
    CHECK(a.index_of_predecessor == SIZE_MAX && b.index_of_predecessor == SIZE_MAX);
    CHECK(f.reached_nodes.size() == 2);
    REACH();
}
//@ a node next to the boundary
WITNESS(u_boundary) {
    OBJ(SearchFlooder, f);
    N(a);
    slink_boundary(a, even<1>());
    SERVE(&a);
    auto e = f.run_until_collision(&a, nullptr);
    CHECK(e.detector_node == &a && e.neighbor_index == 0 && f.reached_nodes.size() == 1);
    REACH();
}
//@ the boundary behind a neighbour
WITNESS(u_boundary_two) {
    OBJ(SearchFlooder, f);
    N(a); N(m);
    uint32_t x = even<1>(), y = even<2>();
    slink(a, m, x);
    slink_boundary(m, y);
    SERVE(&a, &a, &m);
    auto e = f.run_until_collision(&a, nullptr);
    CHECK(e.detector_node == &m && e.neighbor_index == 0);
    CHECK(m.reached_from_source == &a && m.index_of_predecessor == 1 && m.distance_from_source == x && f.queue.cur_time == x + y);
    REACH();
}
//@ no path: the search ends without a meeting edge
WITNESS(u_none) {
    OBJ(SearchFlooder, f);
    N(a); N(m); N(b);
    slink(a, m, even<1>());
    SERVE(&a, &a, &m);
    auto e = f.run_until_collision(&a, &b);
    CHECK(e.detector_node == nullptr);
    REACH();
}
