//! property: R15
//! target: pm::UserGraph::get_mwpm / get_mwpm_with_search_graph / set_boundary
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY
// The decoder handed out always belongs to the current graph: after every change of the graph it is built anew.
#include "driver.h"
#include "reject.h"
inline void at_throw(int mode) {
}
static int builds;
Mwpm UserGraph::to_mwpm(weight_int n, bool with_search) {
    CHECK(n == NUM_DISTINCT_WEIGHTS);
    builds++;
    Mwpm m;
    m.flooder.graph.nodes.resize(1);
    m.flooder.graph.num_observables = builds;
    if (with_search)
        m.search_flooder.graph.nodes.resize(1);
    return m;
}
// (moving decoders is decided in wit/move.cc)
Mwpm& Mwpm::operator=(Mwpm&& o) noexcept {
    flooder.graph.nodes.vp_n = o.flooder.graph.nodes.size();
    search_flooder.graph.nodes.vp_n = o.search_flooder.graph.nodes.size();
    flooder.graph.num_observables = o.flooder.graph.num_observables;
    return *this;
}
inline bool fresh(UserGraph& g) {
    Mwpm& m = g.get_mwpm();
    return builds >= 2 && m.flooder.graph.num_observables == (size_t)builds;
}
#define BUILT(g)                                                                         \
    on_throw = 0;                                                                        \
    OBJ(UserGraph, g, 2);                                                                \
    g.add_or_merge_edge(0, 1, {}, any_d<1>(), 0.1, DISALLOW);                            \
    builds = 0;                                                                          \
    CHECK(g.get_mwpm().flooder.graph.num_observables == 1 && builds == 1)
#define BUILT_WITH_SEARCH(g)                                                             \
    on_throw = 0;                                                                        \
    OBJ(UserGraph, g, 2);                                                                \
    g.add_or_merge_edge(0, 1, {}, any_d<1>(), 0.1, DISALLOW);                            \
    builds = 0;                                                                          \
    CHECK(g.get_mwpm_with_search_graph().search_flooder.graph.nodes.size() == 1 && builds == 1)
//@ a new edge
WITNESS(k_edge) {
    BUILT(g);
    g.add_or_merge_edge(1, 2, {}, any_d<2>(), 0.1, DISALLOW);
    g.get_mwpm();
    CHECK(fresh(g));
    REACH();
}
WITNESS(k_edge_search) {
    BUILT_WITH_SEARCH(g);
    g.add_or_merge_edge(1, 2, {}, any_d<2>(), 0.1, DISALLOW);
    g.get_mwpm_with_search_graph();
    CHECK(fresh(g) && g.get_mwpm_with_search_graph().search_flooder.graph.nodes.size() == 1);
    REACH();
}
WITNESS(k_boundary_edge) {
    BUILT(g);
    g.add_or_merge_boundary_edge(1, {}, any_d<2>(), 0.1, DISALLOW);
    g.get_mwpm();
    CHECK(fresh(g));
    REACH();
}
WITNESS(k_boundary_edge_search) {
    BUILT_WITH_SEARCH(g);
    g.add_or_merge_boundary_edge(1, {}, any_d<2>(), 0.1, DISALLOW);
    g.get_mwpm_with_search_graph();
    CHECK(fresh(g));
    REACH();
}
//@ a merged edge
WITNESS(k_replace) {
    BUILT(g);
    g.add_or_merge_edge(1, 0, {}, any_d<2>(), 0.1, REPLACE);
    g.get_mwpm();
    CHECK(fresh(g));
    REACH();
}
WITNESS(k_independent) {
    BUILT_WITH_SEARCH(g);
    g.add_or_merge_edge(1, 0, {}, any_d<2>(), 0.1, INDEPENDENT);
    g.get_mwpm_with_search_graph();
    CHECK(fresh(g));
    REACH();
}
//@ a new set of boundary nodes: the old ones become detectors again
WITNESS(k_set_boundary) {
    BUILT(g);
    g.set_boundary({1});
    CHECK(!g.is_boundary_node(0) && g.is_boundary_node(1) && g.get_num_detectors() == 1 && g.is_boundary_node(SIZE_MAX));
    g.get_mwpm();
    CHECK(fresh(g));
    g.set_boundary({0, 3});
    CHECK(g.is_boundary_node(0) && !g.is_boundary_node(1) && !g.is_boundary_node(2) && g.is_boundary_node(3));
    CHECK(g.get_num_nodes() == 4 && g.get_num_detectors() == 2 && g.get_boundary().size() == 2);
    g.get_mwpm_with_search_graph();
    CHECK(builds == 3);
    g.set_boundary({});
    CHECK(!g.is_boundary_node(0) && !g.is_boundary_node(3) && g.get_num_detectors() == 4);
    g.get_mwpm();
    CHECK(builds == 4);
    REACH();
}
//@ ... also when their number stays the same, or only grows
WITNESS(k_set_boundary_same_size) {
    BUILT(g);
    g.set_boundary({0});
    g.get_mwpm();
    CHECK(fresh(g));
    g.set_boundary({1});
    CHECK(!g.is_boundary_node(0) && g.is_boundary_node(1) && g.get_num_detectors() == 1);
    g.get_mwpm();
    CHECK(builds == 3);
    g.set_boundary({0, 1});
    CHECK(g.is_boundary_node(0) && g.is_boundary_node(1) && g.get_num_detectors() == 0);
    g.get_mwpm();
    CHECK(builds == 4);
    REACH();
}
//@ a boundary node just beyond the last node
WITNESS(k_set_boundary_next) {
    BUILT(g);
    g.set_boundary({2});
    CHECK(g.get_num_nodes() == 3 && g.is_boundary_node(2) && !g.is_boundary_node(0) && !g.is_boundary_node(1) && g.get_num_detectors() == 2);
    g.get_mwpm();
    CHECK(fresh(g));
    REACH();
}
//@ correlations added to the graph
WITNESS(k_populate) {
    BUILT(g);
    std::map<std::pair<size_t, size_t>, std::map<std::pair<size_t, size_t>, double>> j;
    g.populate_implied_edge_weights(j);
    g.get_mwpm();
    CHECK(fresh(g));
    REACH();
}
//@ asking for the search graph after a decoder without one was built
WITNESS(k_search_later) {
    BUILT(g);
    Mwpm& m = g.get_mwpm_with_search_graph();
    CHECK(m.search_flooder.graph.nodes.size() == 1 && m.flooder.graph.nodes.size() == 1);
    CHECK(g.get_mwpm().flooder.graph.nodes.size() == 1);
    REACH();
}
