//! property: R10
//! target: pm::SearchFlooder path tracing, pm::Mwpm::extract_paths_from_match_edges
//! defs: -DVP_COLLAPSE_ARRAY -DVP_MAPCAP=5
// Given where two searches met (run_until_collision is replaced by an arbitrary finished search), the edges visited are
// exactly those of the path, in order from the source where promised, and the search state is cleaned up afterwards.
#include "mw.h"
static SearchGraphEdge met;
static SearchDetectorNode *asked_src, *asked_dst;
static SearchDetectorNode* reached[4];
static int n_reached;
SearchGraphEdge pm::SearchFlooder::run_until_collision(SearchDetectorNode* src, SearchDetectorNode* dst) {
    asked_src = src;
    asked_dst = dst;
    for (int i = 0; i < 4; i++)
        if (i < n_reached)
            reached_nodes.push_back(reached[i]);
    return met;
}
struct Seen {
    SearchDetectorNode* n[5];
    size_t k[5];
    int c = 0;
    void operator()(const SearchGraphEdge& e) {
        if (c < 5) {
            n[c] = e.detector_node;
            k[c] = e.neighbor_index;
        }
        c++;
    }
    // traversal i goes from a to b
    bool is(int i, SearchDetectorNode* a, SearchDetectorNode* b) const {
        return n[i] == a && k[i] < a->neighbors.size() && a->neighbors[k[i]] == b;
    }
    int times(SearchDetectorNode* a, SearchDetectorNode* b) const {
        int t = 0;
        for (int i = 0; i < 5; i++)
            if (i < c && n[i] && ((b && (is(i, a, b) || is(i, b, a))) || (!b && is(i, a, b))))
                t++;
        return t;
    }
};
// chain 0 - 1 - 2 - 3, node 1 has an extra neighbour in front, node 2 has a boundary edge
#define CHAIN(f)                                              \
    OBJ(SearchFlooder, f);                                    \
    f.graph.num_nodes = 5;                                    \
    f.graph.nodes.resize(5);                                  \
    f.graph.add_edge(1, 4, 2, {});                            \
    f.graph.add_edge(0, 1, any_u32<1>() >> 1, {any_u64<4>()});\
    f.graph.add_edge(1, 2, any_u32<2>() >> 1, {any_u64<5>()});\
    f.graph.add_edge(2, 3, any_u32<3>() >> 1, {any_u64<6>()});\
    f.graph.add_boundary_edge(2, any_u32<7>() >> 1, {any_u64<8>()}); \
    auto &n0 = f.graph.nodes[0], &n1 = f.graph.nodes[1], &n2 = f.graph.nodes[2], &n3 = f.graph.nodes[3]
inline void start(SearchDetectorNode& n) {
    n.reached_from_source = &n;
    n.index_of_predecessor = SIZE_MAX;
    reached[n_reached++] = &n;
}
inline void reach(SearchDetectorNode& n, SearchDetectorNode& from) {
    n.reached_from_source = from.reached_from_source;
    n.index_of_predecessor = n.index_of_neighbor(&from);
    reached[n_reached++] = &n;
}
inline bool pristine(const SearchDetectorNode& n) {
    return n.reached_from_source == nullptr && n.index_of_predecessor == SIZE_MAX && !n.node_event_tracker.has_desired_time && !n.node_event_tracker.has_queued_time;
}
#define CLEAN(f) CHECK(pristine(n0) && pristine(n1) && pristine(n2) && pristine(n3) && f.reached_nodes.size() == 0 && f.queue.empty() && f.queue.cur_time == 0)
// M: position of the meeting edge (0: 0-1, 1: 1-2, 2: 2-3); REV: reported from the far side
template <int M, bool REV, class F>
inline void between(SearchFlooder& f, F run) {
    auto &n0 = f.graph.nodes[0], &n1 = f.graph.nodes[1], &n2 = f.graph.nodes[2], &n3 = f.graph.nodes[3];
    n_reached = 0;
    f.queue.cur_time = any_time<900>();
    start(n3);
    start(n0);
    if (M >= 1)
        reach(n1, n0);
    if (M >= 2)
        reach(n2, n1);
    if (M <= 1)
        reach(n2, n3);
    if (M <= 0)
        reach(n1, n2);
    SearchDetectorNode* a = &f.graph.nodes[M];
    SearchDetectorNode* b = &f.graph.nodes[M + 1];
    if (REV)
        met = {b, b->index_of_neighbor(a)};
    else
        met = {a, a->index_of_neighbor(b)};
    run();
    CHECK(asked_src == &n0 && asked_dst == &n3);
}
template <int M, bool REV>
inline void middle() {
    CHAIN(f);
    Seen s;
    between<M, REV>(f, [&] { f.iter_edges_on_shortest_path_from_middle(0, 3, [&](const SearchGraphEdge& e) { s(e); }); });
    CHECK(s.c == 3);
    CHECK(s.times(&n0, &n1) == 1 && s.times(&n1, &n2) == 1 && s.times(&n2, &n3) == 1);
    CLEAN(f);
    REACH();
}
template <int M, bool REV>
inline void ordered() {
    CHAIN(f);
    Seen s;
    between<M, REV>(f, [&] { f.iter_edges_on_shortest_path_from_source(0, 3, [&](const SearchGraphEdge& e) { s(e); }); });
    CHECK(s.c == 3);
    CHECK(s.is(0, &n0, &n1) && s.is(1, &n1, &n2) && s.is(2, &n2, &n3));
    CLEAN(f);
    REACH();
}
// chain 0 - 1 - 2 - 3 with nothing else: the way back is the first neighbour of every node
#define BARE(f)                                               \
    OBJ(SearchFlooder, f);                                    \
    f.graph.num_nodes = 4;                                    \
    f.graph.nodes.resize(4);                                  \
    f.graph.add_edge(0, 1, any_u32<1>() >> 1, {any_u64<4>()});\
    f.graph.add_edge(2, 3, any_u32<3>() >> 1, {any_u64<6>()});\
    f.graph.add_edge(1, 2, any_u32<2>() >> 1, {any_u64<5>()});\
    auto &n0 = f.graph.nodes[0], &n1 = f.graph.nodes[1], &n2 = f.graph.nodes[2], &n3 = f.graph.nodes[3]
template <int M, bool REV>
inline void bare_middle() {
    BARE(f);
    Seen s;
    between<M, REV>(f, [&] { f.iter_edges_on_shortest_path_from_middle(0, 3, [&](const SearchGraphEdge& e) { s(e); }); });
    CHECK(s.c == 3);
    CHECK(s.times(&n0, &n1) == 1 && s.times(&n1, &n2) == 1 && s.times(&n2, &n3) == 1);
    CLEAN(f);
    REACH();
}
template <int M, bool REV>
inline void bare_ordered() {
    BARE(f);
    Seen s;
    between<M, REV>(f, [&] { f.iter_edges_on_shortest_path_from_source(0, 3, [&](const SearchGraphEdge& e) { s(e); }); });
    CHECK(s.c == 3);
    CHECK(s.is(0, &n0, &n1) && s.is(1, &n1, &n2) && s.is(2, &n2, &n3));
    CLEAN(f);
    REACH();
}
//@ a bare chain
WITNESS(p_bare_middle_1) { bare_middle<1, false>(); }
WITNESS(p_bare_middle_1r) { bare_middle<1, true>(); }
WITNESS(p_bare_middle_0r) { bare_middle<0, true>(); }
WITNESS(p_bare_middle_2) { bare_middle<2, false>(); }
WITNESS(p_bare_ordered_1) { bare_ordered<1, false>(); }
WITNESS(p_bare_ordered_1r) { bare_ordered<1, true>(); }
WITNESS(p_bare_ordered_0r) { bare_ordered<0, true>(); }
WITNESS(p_bare_ordered_2) { bare_ordered<2, false>(); }
//@ unordered visit of a path, searches met in the middle
WITNESS(p_middle_1) { middle<1, false>(); }
//@ ... reported from the other side
WITNESS(p_middle_1r) { middle<1, true>(); }
//@ ... met next to the source
WITNESS(p_middle_0) { middle<0, false>(); }
//@ ... met next to the target, reported from the target
WITNESS(p_middle_2r) { middle<2, true>(); }
//@ ordered visit of a path, searches met in the middle
WITNESS(p_ordered_1) { ordered<1, false>(); }
//@ ... reported from the other side
WITNESS(p_ordered_1r) { ordered<1, true>(); }
//@ ... met next to the source
WITNESS(p_ordered_0) { ordered<0, false>(); }
//@ ... reported from the other side
WITNESS(p_ordered_0r) { ordered<0, true>(); }
//@ ... met next to the target
WITNESS(p_ordered_2) { ordered<2, false>(); }
//@ ... reported from the other side
WITNESS(p_ordered_2r) { ordered<2, true>(); }
//@ unordered visit of a path to the boundary
WITNESS(p_boundary) {
    CHAIN(f);
    Seen s;
    n_reached = 0;
    start(n0);
    reach(n1, n0);
    reach(n2, n1);
    met = {&n2, 0};
    f.iter_edges_on_shortest_path_from_middle(0, SIZE_MAX, [&](const SearchGraphEdge& e) { s(e); });
    CHECK(asked_src == &n0 && asked_dst == nullptr);
    CHECK(s.c == 3);
    CHECK(s.times(&n0, &n1) == 1 && s.times(&n1, &n2) == 1 && s.times(&n2, nullptr) == 1);
    CLEAN(f);
    REACH();
}
//@ ordered visit of a path to the boundary
WITNESS(p_boundary_ordered) {
    CHAIN(f);
    Seen s;
    n_reached = 0;
    start(n0);
    reach(n1, n0);
    reach(n2, n1);
    met = {&n2, 0};
    f.iter_edges_on_shortest_path_from_source(0, SIZE_MAX, [&](const SearchGraphEdge& e) { s(e); });
    CHECK(asked_src == &n0 && asked_dst == nullptr);
    CHECK(s.c == 3);
    CHECK(s.is(0, &n0, &n1) && s.is(1, &n1, &n2) && s.is(2, &n2, nullptr));
    CLEAN(f);
    REACH();
}
//@ ordered visit when the source itself has the boundary edge
WITNESS(p_boundary_direct) {
    CHAIN(f);
    Seen s;
    n_reached = 0;
    start(n2);
    met = {&n2, 0};
    f.iter_edges_on_shortest_path_from_source(2, SIZE_MAX, [&](const SearchGraphEdge& e) { s(e); });
    CHECK(asked_src == &n2 && asked_dst == nullptr && s.c == 1);
    CHECK(s.is(0, &n2, nullptr));
    CLEAN(f);
    REACH();
}
//@ however many detectors a search reached, towards a detector or the boundary: all are as before
template <int N>
inline void wiped() {
    OBJ(SearchFlooder, f);
    f.graph.nodes.resize(N);
    f.target_type = any_u32<1>() & 1 ? BOUNDARY : DETECTOR_NODE;
    for (int i = 0; i < N; i++) {
        auto& n = f.graph.nodes[i];
        n.reached_from_source = &f.graph.nodes[0];
        n.index_of_predecessor = any_u64<2>();
        n.distance_from_source = any_time<3>();
        n.node_event_tracker.has_desired_time = any_u32<4>() & 1;
        n.node_event_tracker.has_queued_time = any_u32<5>() & 1;
        f.reached_nodes.push_back(&n);
    }
    f.queue.cur_time = any_time<900>();
    f.reset();
    for (int i = 0; i < N; i++)
        CHECK(pristine(f.graph.nodes[i]));
    CHECK(f.reached_nodes.size() == 0 && f.queue.empty() && f.queue.cur_time == 0);
    REACH();
}
WITNESS(p_wiped_1) { wiped<1>(); }
WITNESS(p_wiped_2) { wiped<2>(); }
WITNESS(p_wiped_5) { wiped<5>(); }
//@ expanding a matched pair into observables and weight: every edge of the path contributes once
WITNESS(p_extract) {
    OBJ(Mwpm, mw);
    mw.flooder.graph.nodes.resize(5);
    auto& f = mw.search_flooder;
    f.graph.num_nodes = 5;
    f.graph.nodes.resize(5);
    f.graph.add_edge(0, 1, any_u32<1>() >> 1, {0, 1});
    f.graph.add_edge(1, 2, any_u32<2>() >> 1, {1, 2});
    f.graph.add_edge(2, 3, any_u32<3>() >> 1, {3});
    uint8_t obs[4] = {(uint8_t)any_u32<21>(), (uint8_t)any_u32<22>(), (uint8_t)any_u32<23>(), (uint8_t)any_u32<24>()};
    total_weight_int w = any_time<20>();
    std::vector<CompressedEdge> es;
    es.push_back(CompressedEdge{&mw.flooder.graph.nodes[0], &mw.flooder.graph.nodes[3], any_u64<9>()});
    between<1, false>(f, [&] { mw.extract_paths_from_match_edges(es, obs, w); });
    CHECK(w == any_time<20>() + (any_u32<1>() >> 1) + (any_u32<2>() >> 1) + (any_u32<3>() >> 1));
    CHECK(obs[0] == (uint8_t)(any_u32<21>() ^ 1));
    CHECK(obs[1] == (uint8_t)any_u32<22>());
    CHECK(obs[2] == (uint8_t)(any_u32<23>() ^ 1));
    CHECK(obs[3] == (uint8_t)(any_u32<24>() ^ 1));
    REACH();
}
//@ expanding a match to the boundary
WITNESS(p_extract_boundary) {
    OBJ(Mwpm, mw);
    mw.flooder.graph.nodes.resize(5);
    auto& f = mw.search_flooder;
    f.graph.num_nodes = 5;
    f.graph.nodes.resize(5);
    f.graph.add_edge(0, 1, any_u32<1>() >> 1, {0});
    f.graph.add_boundary_edge(1, any_u32<2>() >> 1, {1});
    uint8_t obs[2] = {(uint8_t)any_u32<21>(), (uint8_t)any_u32<22>()};
    total_weight_int w = any_time<20>();
    std::vector<CompressedEdge> es;
    es.push_back(CompressedEdge{&mw.flooder.graph.nodes[0], nullptr, any_u64<9>()});
    n_reached = 0;
    start(f.graph.nodes[0]);
    reach(f.graph.nodes[1], f.graph.nodes[0]);
    met = {&f.graph.nodes[1], 0};
    mw.extract_paths_from_match_edges(es, obs, w);
    CHECK(asked_src == &f.graph.nodes[0] && asked_dst == nullptr);
    CHECK(w == any_time<20>() + (any_u32<1>() >> 1) + (any_u32<2>() >> 1));
    CHECK(obs[0] == (uint8_t)(any_u32<21>() ^ 1) && obs[1] == (uint8_t)(any_u32<22>() ^ 1));
    REACH();
}
// Matched pair of arbitrary detectors A and B joined by one edge of the search graph.
template <int A, int B>
inline void pair_of() {
    OBJ(Mwpm, mw);
    mw.flooder.graph.nodes.resize(5);
    auto& f = mw.search_flooder;
    f.graph.num_nodes = 5;
    f.graph.nodes.resize(5);
    f.graph.add_edge(A, B, any_u32<1>() >> 1, {0});
    uint8_t obs[1] = {(uint8_t)any_u32<21>()};
    total_weight_int w = any_time<20>();
    std::vector<CompressedEdge> es;
    es.push_back(CompressedEdge{&mw.flooder.graph.nodes[A], &mw.flooder.graph.nodes[B], any_u64<9>()});
    n_reached = 0;
    start(f.graph.nodes[A]);
    start(f.graph.nodes[B]);
    met = {&f.graph.nodes[A], 0};
    asked_src = asked_dst = nullptr;
    mw.extract_paths_from_match_edges(es, obs, w);
    CHECK((asked_src == &f.graph.nodes[A] && asked_dst == &f.graph.nodes[B]) || (asked_src == &f.graph.nodes[B] && asked_dst == &f.graph.nodes[A]));
    CHECK(w == any_time<20>() + (any_u32<1>() >> 1));
    CHECK(obs[0] == (uint8_t)(any_u32<21>() ^ 1));
    REACH();
}
//@ matched pairs: the first detector, the last detector, neighbours in the numbering
WITNESS(p_pair_10) { pair_of<1, 0>(); }
WITNESS(p_pair_40) { pair_of<4, 0>(); }
WITNESS(p_pair_04) { pair_of<0, 4>(); }
WITNESS(p_pair_34) { pair_of<3, 4>(); }
