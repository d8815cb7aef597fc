//! property: R19
//! target: the graph bindings (MatchingGraph.add_edge, add_boundary_edge, get_edges, get_edge_data, get_boundary_edge_data, add_noise)
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY -DVP_STRINGS -fno-threadsafe-statics -fno-c++-static-destructors -DVP_CAP=5 -DVP_MAPCAP=6
// Building and reading back a graph through the Python bindings, on the real user graph.
#include "bind.h"
#include "pymatching/sparse_blossom/driver/user_graph.pybind.cc"
static int64_t a_u, a_v;
static size_t q_u, q_v;
static std::set<size_t>* a_obs;
static double a_w, a_p;
static std::string* a_strategy;
static py::list r_list;
static py::dict r_dict;
static bool r_bool;
static py::array_t<uint8_t> r_err, r_syn;
static size_t edges_before;
double pm::merge_weights(double a, double b) {
    CHECK((bits(a, any_d<1>()) && bits(b, any_d<11>())) || (bits(b, any_d<1>()) && bits(a, any_d<11>())));
    return any_d<99>();
}
template <class F>
void vp_def(const char* name, F& f) {
    if constexpr (std::is_invocable_v<F&, UserGraph&, int64_t, int64_t, const std::set<size_t>&, double, double, const std::string&>) {
        if (named(name) && py::vp_same(name, "add_edge")) {
            f(*G, a_u, a_v, *a_obs, a_w, a_p, *a_strategy);
            was_called = true;
        }
    }
    if constexpr (std::is_invocable_v<F&, UserGraph&, int64_t, const std::set<size_t>&, double, double, const std::string&>) {
        if (named(name) && py::vp_same(name, "add_boundary_edge")) {
            f(*G, a_u, *a_obs, a_w, a_p, *a_strategy);
            was_called = true;
        }
    }
    if constexpr (std::is_invocable_r_v<py::list, F&, UserGraph&>) {
        if (named(name) && py::vp_same(name, "get_edges")) {
            r_list = f(*G);
            was_called = true;
        }
    }
    if constexpr (std::is_invocable_r_v<py::dict, F&, UserGraph&, size_t, size_t>) {
        if (named(name) && py::vp_same(name, "get_edge_data")) {
            r_dict = f(*G, q_u, q_v);
            was_called = true;
        }
    }
    if constexpr (std::is_invocable_r_v<py::dict, F&, UserGraph&, size_t>) {
        if (named(name) && py::vp_same(name, "get_boundary_edge_data")) {
            r_dict = f(*G, q_u);
            was_called = true;
        }
    }
    if constexpr (std::is_invocable_r_v<std::pair<py::array_t<uint8_t>, py::array_t<uint8_t>>, F&, UserGraph&>) {
        if (named(name) && py::vp_same(name, "add_noise")) {
            std::pair<py::array_t<uint8_t>, py::array_t<uint8_t>> r = f(*G);
            r_err = r.first;
            r_syn = r.second;
            was_called = true;
        }
    }
}
py::vp_matrix* py::vp_eye(size_t) {
    vp_overflow();
}
#define GRAPH(nodes, obs)                                \
    Raw<UserGraph> g_raw;                                \
    UserGraph& g = *new (g_raw.b) UserGraph(nodes, obs); \
    G = &g;                                              \
    std::set<size_t> set_of_observables;                 \
    a_obs = &set_of_observables;                         \
    was_called = false;                                  \
    n_warned = 0;                                        \
    on_throw = 0;                                        \
    a_w = any_d<1>();                                    \
    a_p = any_d<2>();                                    \
    edges_before = 0
inline void call(const char* name) {
    wanted = name;
    py::module_ m;
    py::class_<UserGraph> c(m, "MatchingGraph");
    pm_pybind::pybind_user_graph_methods(m, c);
    if (!was_called)
        vp_overflow();
}
inline void at_throw(int) {
    CHECK(G->edges.size() == edges_before && G->nodes.size() == 3);
    if (edges_before) {
        auto& e = G->edges.front();
        CHECK(bits(e.weight, any_d<11>()) && bits(e.error_probability, any_d<12>()) && e.observable_indices.size() == 1);
        CHECK(e.observable_indices[0] == 4);
    }
}
// weights that fit
#define FITS(w) ASSUME(!(std::abs(w) > pm::MAX_USER_EDGE_WEIGHT))
inline void is_edge(const UserEdge& e, size_t u, size_t v, double w, double p) {
    CHECK(e.node1 == u && e.node2 == v && bits(e.weight, w) && bits(e.error_probability, p));
}
//@ a new edge has the ends, weight, probability and observables that were asked for
WITNESS(p_add_edge) {
    GRAPH(3, 0);
    a_u = 2;
    a_v = 0;
    FITS(a_w);
    set_of_observables.insert(1);
    set_of_observables.insert(7);
    std::string s("smallest-weight");
    a_strategy = &s;
    call("add_edge");
    CHECK(g.edges.size() == 1 && n_warned == 0);
    is_edge(g.edges.front(), 2, 0, any_d<1>(), any_d<2>());
    CHECK(g.edges.front().observable_indices.size() == 2);
    CHECK(g.edges.front().observable_indices[0] == 1 && g.edges.front().observable_indices[1] == 7);
    CHECK(g.nodes.size() == 3 && g.get_num_observables() == 8);
    REACH();
}
WITNESS(p_add_edge_new_node) {
    GRAPH(1, 0);
    a_u = 0;
    a_v = 3;
    FITS(a_w);
    std::string s("disallow");
    a_strategy = &s;
    call("add_edge");
    CHECK(g.edges.size() == 1 && g.nodes.size() == 4 && n_warned == 0);
    is_edge(g.edges.front(), 0, 3, any_d<1>(), any_d<2>());
    REACH();
}
WITNESS(p_add_boundary_edge) {
    GRAPH(3, 0);
    a_u = 1;
    FITS(a_w);
    set_of_observables.insert(5);
    std::string s("independent");
    a_strategy = &s;
    call("add_boundary_edge");
    CHECK(g.edges.size() == 1 && n_warned == 0);
    is_edge(g.edges.front(), 1, SIZE_MAX, any_d<1>(), any_d<2>());
    CHECK(g.edges.front().observable_indices.size() == 1 && g.edges.front().observable_indices[0] == 5);
    REACH();
}
//@ negative node indices are rejected
WITNESS(p_negative_first) {
    GRAPH(3, 0);
    on_throw = 1;
    a_u = any_time<5>();
    ASSUME(a_u < 0);
    a_v = 1;
    std::string s("replace");
    a_strategy = &s;
    call("add_edge");
    ACCEPTED();
}
WITNESS(p_negative_second) {
    GRAPH(3, 0);
    on_throw = 1;
    a_v = any_time<5>();
    ASSUME(a_v < 0);
    a_u = 1;
    std::string s("replace");
    a_strategy = &s;
    call("add_edge");
    ACCEPTED();
}
WITNESS(p_negative_boundary) {
    GRAPH(3, 0);
    on_throw = 1;
    a_u = any_time<5>();
    ASSUME(a_u < 0);
    std::string s("replace");
    a_strategy = &s;
    call("add_boundary_edge");
    ACCEPTED();
}
//@ ... -1, which stands for the boundary elsewhere, like the others
template <int64_t U, int64_t V>
inline void negative_edge() {
    GRAPH(3, 0);
    on_throw = 1;
    a_u = U;
    a_v = V;
    std::string s("replace");
    a_strategy = &s;
    call("add_edge");
    ACCEPTED();
}
template <int64_t U>
inline void negative_boundary_edge() {
    GRAPH(3, 0);
    on_throw = 1;
    a_u = U;
    std::string s("replace");
    a_strategy = &s;
    call("add_boundary_edge");
    ACCEPTED();
}
WITNESS(p_first_m1) { negative_edge<-1, 1>(); }
WITNESS(p_second_m1) { negative_edge<1, -1>(); }
WITNESS(p_both_m1) { negative_edge<-1, -1>(); }
WITNESS(p_first_min) { negative_edge<INT64_MIN, 1>(); }
WITNESS(p_boundary_m1) { negative_boundary_edge<-1>(); }
WITNESS(p_boundary_m2) { negative_boundary_edge<-2>(); }
//@ an edge whose weight is too large in magnitude is left out with a warning
WITNESS(p_heavy) {
    GRAPH(3, 0);
    a_u = 0;
    a_v = 1;
    ASSUME(std::abs(a_w) > pm::MAX_USER_EDGE_WEIGHT);
    std::string s("replace");
    a_strategy = &s;
    call("add_edge");
    CHECK(g.edges.size() == 0 && g.nodes[0].neighbors.size() == 0 && g.nodes[1].neighbors.size() == 0);
    REACH();
}
WITNESS(p_heavy_negative) {
    GRAPH(3, 0);
    a_u = 0;
    a_v = 1;
    ASSUME(std::abs(a_w) > pm::MAX_USER_EDGE_WEIGHT);
    ASSUME(a_w < 0);
    std::string s("replace");
    a_strategy = &s;
    call("add_edge");
    CHECK(g.edges.size() == 0 && g.nodes[0].neighbors.size() == 0 && g.nodes[1].neighbors.size() == 0);
    REACH();
}
WITNESS(p_heavy_boundary) {
    GRAPH(3, 0);
    a_u = 0;
    ASSUME(std::abs(a_w) > pm::MAX_USER_EDGE_WEIGHT);
    ASSUME(a_w < 0);
    std::string s("replace");
    a_strategy = &s;
    call("add_boundary_edge");
    CHECK(g.edges.size() == 0 && g.nodes[0].neighbors.size() == 0);
    REACH();
}
// --- parallel edges by strategy name ---------------------------------------------------------------------------------
#define EXISTING(u, v)                                                        \
    g.add_or_merge_edge(u, v, {4}, any_d<11>(), any_d<12>(), pm::DISALLOW);   \
    edges_before = 1;                                                         \
    FITS(a_w);                                                                \
    set_of_observables.insert(6)
#define STRATEGY(text)    \
    std::string s(text);  \
    a_strategy = &s
#define EXISTING_B(u)                                                          \
    g.add_or_merge_boundary_edge(u, {4}, any_d<11>(), any_d<12>(), pm::DISALLOW); \
    edges_before = 1;                                                         \
    FITS(a_w);                                                                \
    set_of_observables.insert(6)
inline void only(double w, size_t obs) {
    CHECK(G->edges.size() == 1);
    auto& e = G->edges.front();
    CHECK(bits(e.weight, w) && e.observable_indices.size() == 1 && e.observable_indices[0] == obs);
}
WITNESS(p_replace) {
    GRAPH(3, 0);
    EXISTING(0, 1);
    STRATEGY("replace");
    a_u = 1;
    a_v = 0;
    call("add_edge");
    only(any_d<1>(), 6);
    CHECK(bits(g.edges.front().error_probability, any_d<2>()));
    REACH();
}
WITNESS(p_keep) {
    GRAPH(3, 0);
    EXISTING(0, 1);
    STRATEGY("keep-original");
    a_u = 0;
    a_v = 1;
    call("add_edge");
    only(any_d<11>(), 4);
    CHECK(bits(g.edges.front().error_probability, any_d<12>()));
    REACH();
}
WITNESS(p_smallest_new) {
    GRAPH(3, 0);
    EXISTING(0, 1);
    ASSUME(any_d<1>() < any_d<11>());
    STRATEGY("smallest-weight");
    a_u = 0;
    a_v = 1;
    call("add_edge");
    only(any_d<1>(), 6);
    REACH();
}
WITNESS(p_smallest_old) {
    GRAPH(3, 0);
    EXISTING(0, 1);
    ASSUME(any_d<1>() > any_d<11>());
    STRATEGY("smallest-weight");
    a_u = 1;
    a_v = 0;
    call("add_edge");
    only(any_d<11>(), 4);
    REACH();
}
WITNESS(p_independent) {
    GRAPH(3, 0);
    EXISTING(0, 1);
    STRATEGY("independent");
    a_u = 0;
    a_v = 1;
    call("add_edge");
    only(any_d<99>(), 4);
    REACH();
}
WITNESS(p_disallow) {
    GRAPH(3, 0);
    EXISTING(0, 1);
    STRATEGY("disallow");
    on_throw = 1;
    a_u = 0;
    a_v = 1;
    call("add_edge");
    ACCEPTED();
}
WITNESS(p_unknown) {
    GRAPH(3, 0);
    EXISTING(0, 1);
    STRATEGY("smallest weight");
    on_throw = 1;
    a_u = 0;
    a_v = 1;
    call("add_edge");
    ACCEPTED();
}
WITNESS(p_b_replace) {
    GRAPH(3, 0);
    EXISTING_B(1);
    STRATEGY("replace");
    a_u = 1;
    call("add_boundary_edge");
    only(any_d<1>(), 6);
    REACH();
}
WITNESS(p_b_keep) {
    GRAPH(3, 0);
    EXISTING_B(1);
    STRATEGY("keep-original");
    a_u = 1;
    call("add_boundary_edge");
    only(any_d<11>(), 4);
    REACH();
}
WITNESS(p_b_independent) {
    GRAPH(3, 0);
    EXISTING_B(1);
    STRATEGY("independent");
    a_u = 1;
    call("add_boundary_edge");
    only(any_d<99>(), 4);
    REACH();
}
WITNESS(p_b_unknown) {
    GRAPH(3, 0);
    EXISTING_B(1);
    STRATEGY("");
    on_throw = 1;
    a_u = 1;
    call("add_boundary_edge");
    ACCEPTED();
}
// --- reading back ----------------------------------------------------------------------------------------------------
inline void attrs(const py::dict& d0, double w, double p, size_t o0, size_t o1) {
    py::dict d = d0;
    CHECK(d.n == 3);
    CHECK(d["weight"].kind == py::VP_FLOAT && bits(d["weight"].d, w));
    CHECK(d["error_probability"].kind == py::VP_FLOAT && bits(d["error_probability"].d, p));
    CHECK(d["fault_ids"].kind == py::VP_SET && d["fault_ids"].as_set().size() == 2);
    CHECK(d["fault_ids"].as_set().v[0] == o0 && d["fault_ids"].as_set().v[1] == o1 && d.n == 3);
}
inline const py::tuple& row(size_t i) {
    return *(const py::tuple*)r_list.e[i].ref;
}
//@ get_edges lists every edge once with its data; the boundary is None, an unknown probability is -1
WITNESS(p_get_edges) {
    GRAPH(3, 0);
    double p = any_d<2>(), q = any_d<3>();
    ASSUME(p >= 0 && p <= 1);
    ASSUME(q > 1);
    g.add_or_merge_edge(2, 0, {3, 1}, any_d<1>(), p, pm::DISALLOW);
    g.add_or_merge_boundary_edge(1, {0, 9}, any_d<4>(), q, pm::DISALLOW);
    call("get_edges");
    CHECK(r_list.n == 2 && row(0).n == 3 && row(1).n == 3);
    CHECK(row(0)[0].kind == py::VP_INT && row(0)[0].i == 2 && row(0)[1].kind == py::VP_INT && row(0)[1].i == 0);
    CHECK(row(1)[0].kind == py::VP_INT && row(1)[0].i == 1 && row(1)[1].kind == py::VP_NONE);
    attrs(*(const py::dict*)row(0)[2].ref, any_d<1>(), p, 1, 3);
    attrs(*(const py::dict*)row(1)[2].ref, any_d<4>(), -1.0, 0, 9);
    REACH();
}
//@ the data of one edge, from either end
WITNESS(p_edge_data) {
    GRAPH(3, 0);
    g.add_or_merge_edge(0, 1, {3, 1}, any_d<1>(), any_d<2>(), pm::DISALLOW);
    g.add_or_merge_edge(2, 0, {5, 6}, any_d<3>(), any_d<4>(), pm::DISALLOW);
    q_u = 0;
    q_v = 2;
    call("get_edge_data");
    attrs(r_dict, any_d<3>(), any_d<4>(), 5, 6);
    REACH();
}
WITNESS(p_boundary_edge_data) {
    GRAPH(3, 0);
    g.add_or_merge_edge(0, 1, {3, 1}, any_d<1>(), any_d<2>(), pm::DISALLOW);
    g.add_or_merge_boundary_edge(0, {5, 6}, any_d<3>(), any_d<4>(), pm::DISALLOW);
    q_u = 0;
    call("get_boundary_edge_data");
    attrs(r_dict, any_d<3>(), any_d<4>(), 5, 6);
    REACH();
}
//@ asking for an edge or node that does not exist is rejected
WITNESS(p_edge_data_missing) {
    GRAPH(3, 0);
    g.add_or_merge_edge(0, 1, {4}, any_d<11>(), any_d<12>(), pm::DISALLOW);
    edges_before = 1;
    on_throw = 1;
    q_u = 1;
    q_v = 2;
    call("get_edge_data");
    ACCEPTED();
}
WITNESS(p_edge_data_no_node) {
    GRAPH(3, 0);
    on_throw = 1;
    q_u = any_u64<5>();
    q_v = any_u64<6>();
    ASSUME(q_u >= 3);
    call("get_edge_data");
    ACCEPTED();
}
WITNESS(p_boundary_edge_data_missing) {
    GRAPH(3, 0);
    g.add_or_merge_edge(0, 1, {4}, any_d<11>(), any_d<12>(), pm::DISALLOW);
    edges_before = 1;
    on_throw = 1;
    q_u = 1;
    call("get_boundary_edge_data");
    ACCEPTED();
}
WITNESS(p_boundary_edge_data_no_node) {
    GRAPH(3, 0);
    on_throw = 1;
    q_u = any_u64<5>();
    ASSUME(q_u >= 3);
    call("get_boundary_edge_data");
    ACCEPTED();
}
