//! property: R10
//! target: pm::UserGraph::get_nodes_on_shortest_path_from_source, pm::SearchFlooder without a path
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=6
// Path queries of the user's graph: nodes in order from the source, whichever end is the boundary; what cannot be answered is
// rejected and the search is cleaned up.
#include "driver.h"
#include "reject.h"
static Mwpm* M;
static bool disconnected;
static int n_searches;
inline SearchDetectorNode& sn(int i) {
    return M->search_flooder.graph.nodes[i];
}
inline bool pristine(int i) {
    return sn(i).reached_from_source == nullptr && sn(i).index_of_predecessor == SIZE_MAX;
}
inline void at_throw(int mode) {
    if (mode == 2) {
        CHECK(n_searches == 1);
        CHECK(pristine(0) && pristine(1) && M->search_flooder.reached_nodes.size() == 0 && M->search_flooder.queue.empty());
        CHECK(M->search_flooder.queue.cur_time == 0);
    } else
        CHECK(n_searches == 0);
}
Mwpm& UserGraph::get_mwpm_with_search_graph() {
    return *M;
}
inline void reach(SearchFlooder& f, int i, int pred) {
    sn(i).reached_from_source = &sn(i);
    sn(i).index_of_predecessor = pred < 0 ? SIZE_MAX : sn(i).index_of_neighbor(&sn(pred));
    f.reached_nodes.push_back(&sn(i));
}
// 0 - 1 - 2 - (3 or boundary); 3 is a boundary node of the user's graph
SearchGraphEdge SearchFlooder::run_until_collision(SearchDetectorNode* src, SearchDetectorNode* dst) {
    n_searches++;
    CHECK(src == &sn(0) && (dst == nullptr || dst == &sn(2)));
    reach(*this, 0, -1);
    queue.cur_time = any_time<900>();
    if (dst) {
        reach(*this, 2, -1);
        reach(*this, 1, 2);
        if (disconnected)
            return {nullptr, SIZE_MAX};
        return {&sn(1), sn(1).index_of_neighbor(&sn(0))};
    }
    reach(*this, 1, 0);
    if (disconnected)
        return {nullptr, SIZE_MAX};
    reach(*this, 2, 1);
    return {&sn(2), 0};
}
#define QUERY(g)                                     \
    OBJ(Mwpm, mw);                                   \
    M = &mw;                                         \
    on_throw = 0;                                    \
    disconnected = false;                            \
    n_searches = 0;                                  \
    mw.search_flooder.graph.num_nodes = 4;           \
    mw.search_flooder.graph.nodes.resize(4);         \
    mw.search_flooder.graph.add_edge(0, 1, any_u32<1>() >> 1, {any_u64<4>()}); \
    mw.search_flooder.graph.add_edge(1, 2, any_u32<2>() >> 1, {any_u64<5>()}); \
    mw.search_flooder.graph.add_boundary_edge(2, any_u32<3>() >> 1, {any_u64<6>()}); \
    OBJ(UserGraph, g, 4);                            \
    g.boundary_nodes.insert(3);                      \
    g.nodes[3].is_boundary = true;                   \
    std::vector<size_t> out
//@ between two detectors: all nodes in order, both ends included
WITNESS(q_nodes) {
    QUERY(g);
    g.get_nodes_on_shortest_path_from_source(0, 2, out);
    CHECK(n_searches == 1 && out.size() == 3 && out[0] == 0 && out[1] == 1 && out[2] == 2);
    REACH();
}
//@ towards the boundary: nodes in order, ending at the last detector
WITNESS(q_to_boundary) {
    QUERY(g);
    g.get_nodes_on_shortest_path_from_source(0, SIZE_MAX, out);
    CHECK(n_searches == 1 && out.size() == 3 && out[0] == 0 && out[1] == 1 && out[2] == 2);
    REACH();
}
WITNESS(q_to_boundary_node) {
    QUERY(g);
    g.get_nodes_on_shortest_path_from_source(0, 3, out);
    CHECK(n_searches == 1 && out.size() == 3 && out[0] == 0 && out[1] == 1 && out[2] == 2);
    REACH();
}
//@ from the boundary: the same nodes the other way round
WITNESS(q_from_boundary) {
    QUERY(g);
    g.get_nodes_on_shortest_path_from_source(SIZE_MAX, 0, out);
    CHECK(n_searches == 1 && out.size() == 3 && out[0] == 2 && out[1] == 1 && out[2] == 0);
    REACH();
}
WITNESS(q_from_boundary_node) {
    QUERY(g);
    g.get_nodes_on_shortest_path_from_source(3, 0, out);
    CHECK(n_searches == 1 && out.size() == 3 && out[0] == 2 && out[1] == 1 && out[2] == 0);
    REACH();
}
//@ no path: the search is wiped, then the query rejected
WITNESS(q_no_path) {
    QUERY(g);
    disconnected = true;
    on_throw = 2;
    g.get_nodes_on_shortest_path_from_source(0, 2, out);
    ACCEPTED();
}
WITNESS(q_no_path_boundary) {
    QUERY(g);
    disconnected = true;
    on_throw = 2;
    g.get_nodes_on_shortest_path_from_source(0, SIZE_MAX, out);
    ACCEPTED();
}
WITNESS(q_no_path_unordered) {
    QUERY(g);
    disconnected = true;
    on_throw = 2;
    mw.search_flooder.iter_edges_on_shortest_path_from_middle(0, 2, [](const SearchGraphEdge&) {});
    ACCEPTED();
}
//@ nodes outside the graph are rejected before anything is looked up
WITNESS(q_reject_src) {
    QUERY(g);
    on_throw = 1;
    size_t n = any_u64<7>();
    ASSUME(n >= 4 && n != SIZE_MAX);
    g.get_nodes_on_shortest_path_from_source(n, 2, out);
    ACCEPTED();
}
WITNESS(q_reject_dst) {
    QUERY(g);
    on_throw = 1;
    size_t n = any_u64<7>();
    ASSUME(n >= 4 && n != SIZE_MAX);
    g.get_nodes_on_shortest_path_from_source(0, n, out);
    ACCEPTED();
}
//@ from boundary to boundary there is nothing to search
WITNESS(q_reject_both_boundary) {
    QUERY(g);
    on_throw = 1;
    g.get_nodes_on_shortest_path_from_source(3, SIZE_MAX, out);
    ACCEPTED();
}
