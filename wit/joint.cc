//! property: R17
//! target: pm::add_decomposed_error_to_joint_probabilities / pm::UserGraph::populate_implied_edge_weights / handle_dem_instruction*
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY
// From error instructions to weights and correlations.
#include "driver.h"
#include "reject.h"
inline void at_throw(int mode) {
}
using Edge = std::pair<size_t, size_t>;
using Joint = std::map<Edge, std::map<Edge, double>>;
inline UserEdge part(size_t a, size_t b) {
    UserEdge e{};
    e.node1 = a;
    e.node2 = b;
    return e;
}
constexpr double W_8 = 1.9459101490553132, W_4 = 1.0986122886681098, W_5_16 = 0.78845736036427016941;
inline bool near(double a, double b) {
    return a - b < 1e-9 && b - a < 1e-9;
}
#define E0 Edge(1, 2)
#define E1 Edge(3, SIZE_MAX)
#define E2 Edge(0, 4)
//@ one component: only its own probability
WITNESS(j_single) {
    on_throw = 0;
    Joint j;
    DecomposedDemError e;
    e.probability = 0.125;
    e.components.push_back(part(2, 1));
    add_decomposed_error_to_joint_probabilities(e, j);
    CHECK(j.size() == 1 && j[E0].size() == 1 && near(j[E0][E0], 0.125));
    REACH();
}
//@ two components: both probabilities and the joint one, from either side
WITNESS(j_pair) {
    on_throw = 0;
    Joint j;
    DecomposedDemError e;
    e.probability = 0.125;
    e.components.push_back(part(1, 2));
    e.components.push_back(part(3, SIZE_MAX));
    add_decomposed_error_to_joint_probabilities(e, j);
    CHECK(j.size() == 2 && j[E0].size() == 2 && j[E1].size() == 2);
    CHECK(near(j[E0][E0], 0.125) && near(j[E0][E1], 0.125) && near(j[E1][E0], 0.125) && near(j[E1][E1], 0.125));
    REACH();
}
//@ three components: all pairs
WITNESS(j_triple) {
    on_throw = 0;
    Joint j;
    DecomposedDemError e;
    e.probability = 0.125;
    e.components.push_back(part(1, 2));
    e.components.push_back(part(3, SIZE_MAX));
    e.components.push_back(part(4, 0));
    add_decomposed_error_to_joint_probabilities(e, j);
    CHECK(j.size() == 3 && j[E0].size() == 3 && j[E1].size() == 3 && j[E2].size() == 3);
    CHECK(near(j[E0][E0], 0.125) && near(j[E0][E1], 0.125) && near(j[E0][E2], 0.125));
    CHECK(near(j[E1][E0], 0.125) && near(j[E1][E1], 0.125) && near(j[E1][E2], 0.125));
    CHECK(near(j[E2][E0], 0.125) && near(j[E2][E1], 0.125) && near(j[E2][E2], 0.125));
    REACH();
}
//@ several errors on the same edges combine as independent mechanisms; edges given in either direction are the same
WITNESS(j_combine) {
    on_throw = 0;
    Joint j;
    DecomposedDemError e;
    e.probability = 0.125;
    e.components.push_back(part(1, 2));
    e.components.push_back(part(3, SIZE_MAX));
    add_decomposed_error_to_joint_probabilities(e, j);
    DecomposedDemError f;
    f.probability = 0.25;
    f.components.push_back(part(2, 1));
    add_decomposed_error_to_joint_probabilities(f, j);
    CHECK(j.size() == 2 && near(j[E0][E0], 0.3125) && near(j[E0][E1], 0.125) && near(j[E1][E0], 0.125) && near(j[E1][E1], 0.125));
    DecomposedDemError g;
    g.probability = 0.25;
    g.components.push_back(part(3, SIZE_MAX));
    g.components.push_back(part(2, 1));
    add_decomposed_error_to_joint_probabilities(g, j);
    CHECK(near(j[E0][E1], 0.3125) && near(j[E1][E0], 0.3125) && near(j[E1][E1], 0.3125) && near(j[E0][E0], 0.40625));
    CHECK(j.size() == 2 && j[E0].size() == 2 && j[E1].size() == 2);
    REACH();
}
#define TWO_EDGES(g)                                                    \
    on_throw = 0;                                                       \
    OBJ(UserGraph, g, 5);                                               \
    g.add_or_merge_edge(2, 1, {}, any_d<1>(), 0.1, DISALLOW);           \
    g.add_or_merge_boundary_edge(3, {}, any_d<2>(), 0.1, DISALLOW);     \
    auto& a = g.edges.front();                                          \
    auto& b = g.edges.back()
//@ implied weights: conditional probability of the other edge given this one, attached to this one
WITNESS(i_conditional) {
    TWO_EDGES(g);
    Joint j;
    j[E0][E0] = 0.5;
    j[E0][E1] = 0.125;
    j[E1][E1] = 0.25;
    j[E1][E0] = 0.03125;
    g.populate_implied_edge_weights(j);
    CHECK(a.implied_weights_for_other_edges.size() == 1 && b.implied_weights_for_other_edges.size() == 1);
    auto& i = a.implied_weights_for_other_edges[0];
    CHECK(i.node1 == 3 && i.node2 == SIZE_MAX && near(i.implied_weight, W_4));
    auto& k = b.implied_weights_for_other_edges[0];
    CHECK(((k.node1 == 1 && k.node2 == 2) || (k.node1 == 2 && k.node2 == 1)) && near(k.implied_weight, W_8));
    REACH();
}
//@ implied weights never become negative: certain and more likely than not count as one half
WITNESS(i_half) {
    TWO_EDGES(g);
    Joint j;
    j[E0][E0] = 0.125;
    j[E0][E1] = 0.125;
    j[E1][E1] = 0.25;
    j[E1][E0] = 0.1875;
    g.populate_implied_edge_weights(j);
    CHECK(a.implied_weights_for_other_edges.size() == 1 && b.implied_weights_for_other_edges.size() == 1);
    CHECK(near(b.implied_weights_for_other_edges[0].implied_weight, 0));
    CHECK(near(a.implied_weights_for_other_edges[0].implied_weight, 0));
    REACH();
}
//@ an edge with no correlated partner implies nothing, nor does one that never happens
WITNESS(i_none) {
    TWO_EDGES(g);
    Joint j;
    j[E0][E0] = 0.125;
    g.populate_implied_edge_weights(j);
    CHECK(a.implied_weights_for_other_edges.size() == 0 && b.implied_weights_for_other_edges.size() == 0);
    REACH();
}
WITNESS(i_impossible) {
    TWO_EDGES(g);
    Joint j;
    j[E0][E0] = 0;
    j[E0][E1] = 0;
    g.populate_implied_edge_weights(j);
    CHECK(a.implied_weights_for_other_edges.size() == 0 && b.implied_weights_for_other_edges.size() == 0);
    REACH();
}
//@ ... and the other edges still imply what they should
WITNESS(i_impossible_first) {
    TWO_EDGES(g);
    Joint j;
    j[E0][E0] = 0;
    j[E0][E1] = 0;
    j[E1][E1] = 0.25;
    j[E1][E0] = 0.03125;
    g.populate_implied_edge_weights(j);
    CHECK(a.implied_weights_for_other_edges.size() == 0 && b.implied_weights_for_other_edges.size() == 1);
    CHECK(near(b.implied_weights_for_other_edges[0].implied_weight, W_8));
    REACH();
}
//@ ... also when the first edge took part in no error at all
WITNESS(i_absent_first) {
    TWO_EDGES(g);
    Joint j;
    j[E1][E1] = 0.25;
    j[E1][E0] = 0.03125;
    g.populate_implied_edge_weights(j);
    CHECK(a.implied_weights_for_other_edges.size() == 0 && b.implied_weights_for_other_edges.size() == 1);
    CHECK(near(b.implied_weights_for_other_edges[0].implied_weight, W_8));
    REACH();
}
//@ an error of one or two detectors becomes an edge with the weight of its probability
template <bool C>
inline void handle(UserGraph& g, double p, const std::vector<size_t>& d, const std::vector<size_t>& o) {
    if (C)
        g.handle_dem_instruction_include_correlations(p, d, o);
    else
        g.handle_dem_instruction(p, d, o);
}
template <bool C>
inline void into_edge() {
    on_throw = 0;
    OBJ(UserGraph, g, 5);
    handle<C>(g, 0.125, {3, 1}, {any_obs<1>()});
    CHECK(g.edges.size() == 1);
    auto& e = g.edges.front();
    CHECK(((e.node1 == 3 && e.node2 == 1) || (e.node1 == 1 && e.node2 == 3)) && near(e.weight, W_8) && near(e.error_probability, 0.125));
    CHECK(e.observable_indices.size() == 1 && e.observable_indices[0] == any_obs<1>() && g.get_num_observables() == any_obs<1>() + 1);
    handle<C>(g, 0.25, {3}, {any_obs<1>()});
    CHECK(g.edges.size() == 2);
    auto& b = g.edges.back();
    CHECK(b.node1 == 3 && b.node2 == SIZE_MAX && near(b.weight, W_4) && near(b.error_probability, 0.25));
    CHECK(b.observable_indices.size() == 1 && b.observable_indices[0] == any_obs<1>());
    REACH();
}
//@ ... and repeated errors on the same detectors combine as independent mechanisms
template <bool C>
inline void combined() {
    on_throw = 0;
    OBJ(UserGraph, g, 5);
    handle<C>(g, 0.125, {3, 1}, {});
    handle<C>(g, 0.25, {1, 3}, {});
    CHECK(g.edges.size() == 1);
    CHECK(near(g.edges.front().weight, W_5_16) && near(g.edges.front().error_probability, 0.3125));
    handle<C>(g, 0.125, {2}, {});
    handle<C>(g, 0.25, {2}, {});
    CHECK(g.edges.size() == 2);
    CHECK(near(g.edges.back().weight, W_5_16) && near(g.edges.back().error_probability, 0.3125));
    REACH();
}
WITNESS(h_edge) { into_edge<false>(); }
WITNESS(h_edge_correlated) { into_edge<true>(); }
WITNESS(h_combined) { combined<false>(); }
WITNESS(h_combined_correlated) { combined<true>(); }
//@ errors that happen half of the time make weightless edges, likelier ones (without correlations) negative edges
template <bool C>
inline void half() {
    on_throw = 0;
    OBJ(UserGraph, g, 5);
    handle<C>(g, 0.5, {3, 1}, {4});
    handle<C>(g, 0.5, {2}, {6});
    CHECK(g.edges.size() == 2);
    auto& e = g.edges.front();
    auto& b = g.edges.back();
    CHECK(near(e.weight, 0) && e.error_probability == 0.5 && e.observable_indices.size() == 1 && e.observable_indices[0] == 4);
    CHECK(near(b.weight, 0) && b.error_probability == 0.5 && b.observable_indices.size() == 1 && b.observable_indices[0] == 6);
    REACH();
}
WITNESS(h_half) { half<false>(); }
WITNESS(h_half_correlated) { half<true>(); }
WITNESS(h_likely) {
    on_throw = 0;
    OBJ(UserGraph, g, 5);
    handle<false>(g, 0.75, {3, 1}, {4});
    handle<false>(g, 0.75, {2}, {6});
    CHECK(g.edges.size() == 2);
    auto& e = g.edges.front();
    auto& b = g.edges.back();
    CHECK(near(e.weight, -W_4) && e.error_probability == 0.75 && e.observable_indices.size() == 1 && e.observable_indices[0] == 4);
    CHECK(near(b.weight, -W_4) && b.error_probability == 0.75 && b.observable_indices.size() == 1 && b.observable_indices[0] == 6);
    REACH();
}
//@ errors without a detector, and without correlations those with more than two, have no edge
WITNESS(h_no_edge) {
    on_throw = 0;
    OBJ(UserGraph, g, 5);
    g.handle_dem_instruction(0.125, {}, {0});
    g.handle_dem_instruction(0.125, {1, 2, 3}, {});
    CHECK(g.edges.size() == 0);
    REACH();
}
