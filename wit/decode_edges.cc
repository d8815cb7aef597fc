//! property: R13
//! target: pm::decode_detection_events_to_edges
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=12
// Decoding to edges: the answer lists exactly the edges used an odd number of times by the matched paths and the negative
// edges together, each once, and leaves no mark on the graph.
#include "script.h"
inline void at_throw(int mode) {
    CHECK(n_created == 0 && n_steps == 0);
}
// scripted search: 0 <-> 1 are joined by the path 0-1 or 0-3-1, 2 reaches the boundary through chain
static int route;
static unsigned n_searches;
inline SearchDetectorNode& sn(int i) {
    return M->search_flooder.graph.nodes[i];
}
inline void reach(int i, int pred, SearchFlooder& f) {
    sn(i).reached_from_source = &sn(i);
    sn(i).index_of_predecessor = pred < 0 ? SIZE_MAX : sn(i).index_of_neighbor(&sn(pred));
    f.reached_nodes.push_back(&sn(i));
}
SearchGraphEdge SearchFlooder::run_until_collision(SearchDetectorNode* src, SearchDetectorNode* dst) {
    n_searches++;
    if (src == &sn(0) && dst == &sn(1)) {
        // 0 - 3 - 1, met between 3 and 1
        reach(0, -1, *this);
        reach(1, -1, *this);
        reach(3, 0, *this);
        return {&sn(3), sn(3).index_of_neighbor(&sn(1))};
    }
    if (turned && src == &sn(1) && dst == &sn(0)) {
        reach(1, -1, *this);
        reach(0, -1, *this);
        reach(3, 0, *this);
        return {&sn(1), sn(1).index_of_neighbor(&sn(3))};
    }
    CHECK(src == &sn(2) && dst == nullptr);
    reach(2, -1, *this);
    if (route == 0)
        return {&sn(2), 0};  // own boundary edge
    // 2 - 1 - 3 - boundary
    reach(1, 2, *this);
    reach(3, 1, *this);
    return {&sn(3), 0};
}
inline void slink(int a, int b) {
    sn(a).neighbors.push_back(&sn(b));
    sn(a).neighbor_weights.push_back(2);
    sn(a).neighbor_markers.push_back(0);
    if (b >= 0) {
        sn(b).neighbors.push_back(&sn(a));
        sn(b).neighbor_weights.push_back(2);
        sn(b).neighbor_markers.push_back(0);
    }
}
inline void sbound(int a) {
    sn(a).neighbors.push_back(nullptr);
    sn(a).neighbor_weights.push_back(2);
    sn(a).neighbor_markers.push_back(0);
}
// boundary at 2 and 3; edges 0-3, 3-1, 1-2, 0-1
#define GRAPH(m)                                \
    MWPM(m);                                    \
    m.flooder.graph.nodes.resize(4);            \
    m.search_flooder.graph.nodes.resize(4);     \
    sbound(2);                                  \
    sbound(3);                                  \
    slink(0, 3);                                \
    slink(3, 1);                                \
    slink(1, 2);                                \
    slink(0, 1);                                \
    route = 0;                                  \
    n_searches = 0
inline unsigned listed(const std::vector<int64_t>& e, int64_t a, int64_t b) {
    unsigned n = 0;
    for (size_t i = 0; i + 1 < e.size(); i += 2)
        n += (e[i] == a && e[i + 1] == b) || (e[i] == b && e[i + 1] == a);
    return n;
}
inline void clean(Mwpm& m) {
    for (int i = 0; i < 4; i++) {
        for (size_t k = 0; k < sn(i).neighbor_markers.size(); k++)
            CHECK((sn(i).neighbor_markers[k] & FLIPPED) == 0);
        CHECK(sn(i).reached_from_source == nullptr && sn(i).index_of_predecessor == SIZE_MAX);
        CHECK(m.flooder.graph.nodes[i].region_that_arrived == nullptr);
    }
}
//@ separate paths: all their edges, once each
WITNESS(e_plain) {
    GRAPH(m);
    std::vector<int64_t> e;
    decode_detection_events_to_edges(m, {0, 1, 2}, e);
    CHECK(n_searches == 2 && e.size() == 6);
    CHECK(listed(e, 0, 3) == 1 && listed(e, 3, 1) == 1 && listed(e, 2, -1) == 1);
    clean(m);
    REACH();
}
//@ a pair whose far end is the first detector
WITNESS(e_turned) {
    GRAPH(m);
    turned = true;
    std::vector<int64_t> e;
    decode_detection_events_to_edges(m, {0, 1, 2}, e);
    CHECK(n_searches == 2 && e.size() == 6);
    CHECK(listed(e, 0, 3) == 1 && listed(e, 3, 1) == 1 && listed(e, 2, -1) == 1);
    clean(m);
    REACH();
}
//@ an edge used by two paths cancels
WITNESS(e_shared) {
    GRAPH(m);
    route = 1;
    std::vector<int64_t> e;
    decode_detection_events_to_edges(m, {0, 1, 2}, e);
    CHECK(e.size() == 6);
    CHECK(listed(e, 0, 3) == 1 && listed(e, 2, 1) == 1 && listed(e, 3, -1) == 1 && listed(e, 3, 1) == 0);
    clean(m);
    REACH();
}
//@ negative edges are in the answer unless a path uses them
WITNESS(e_negative) {
    GRAPH(m);
    m.search_flooder.graph.negative_weight_edges.push_back({1, 3});
    m.search_flooder.graph.negative_weight_edges.push_back({0, 1});
    std::vector<int64_t> e;
    decode_detection_events_to_edges(m, {1, 0}, e);
    CHECK(n_searches == 1 && e.size() == 4);
    CHECK(listed(e, 0, 3) == 1 && listed(e, 0, 1) == 1 && listed(e, 3, 1) == 0);
    clean(m);
    REACH();
}
WITNESS(e_negative_boundary) {
    GRAPH(m);
    m.search_flooder.graph.negative_weight_edges.push_back({2, SIZE_MAX});
    m.search_flooder.graph.negative_weight_edges.push_back({3, SIZE_MAX});
    m.flooder.negative_weight_detection_events.push_back(2);
    std::vector<int64_t> e;
    decode_detection_events_to_edges(m, {}, e);
    CHECK(n_searches == 1 && n_extracted == 1 && e.size() == 2);
    CHECK(listed(e, 3, -1) == 1 && listed(e, 2, -1) == 0);
    clean(m);
    REACH();
}
//@ marks other than the temporary one stay
WITNESS(e_marks) {
    GRAPH(m);
    for (int i = 0; i < 4; i++)
        for (size_t k = 0; k < sn(i).neighbor_markers.size(); k++)
            sn(i).neighbor_markers[k] = WEIGHT_SIGN;
    std::vector<int64_t> e;
    decode_detection_events_to_edges(m, {0, 1}, e);
    CHECK(e.size() == 4 && listed(e, 0, 3) == 1 && listed(e, 3, 1) == 1);
    for (int i = 0; i < 4; i++)
        for (size_t k = 0; k < sn(i).neighbor_markers.size(); k++)
            CHECK(sn(i).neighbor_markers[k] == WEIGHT_SIGN);
    REACH();
}
//@ pairs of an earlier call do not leak in
WITNESS(e_stale) {
    GRAPH(m);
    m.flooder.match_edges.push_back({&m.flooder.graph.nodes[2], nullptr, 1});
    std::vector<int64_t> e;
    decode_detection_events_to_edges(m, {0, 1}, e);
    CHECK(e.size() == 4 && listed(e, 0, 3) == 1 && listed(e, 3, 1) == 1);
    clean(m);
    REACH();
}
WITNESS(e_none) {
    GRAPH(m);
    std::vector<int64_t> e;
    decode_detection_events_to_edges(m, {}, e);
    CHECK(e.size() == 0 && n_searches == 0);
    REACH();
}
//@ refused without a search graph
WITNESS(e_no_search_graph) {
    MWPM(m);
    on_throw = 1;
    std::vector<int64_t> e;
    decode_detection_events_to_edges(m, {0, 1}, e);
    ACCEPTED();
}
