//! property: R17
//! target: pm::detector_error_model_to_user_graph / pm::detector_error_model_to_mwpm
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY
// The graph of an error model: all its detectors and observables, all its errors, and correlations exactly when asked for.
#include "driver.h"
#include "reject.h"
inline void at_throw(int mode) {
}
constexpr double W_8 = 1.9459101490553132, W_4 = 1.0986122886681098, W_5_16 = 0.78845736036427016941;
inline bool near(double a, double b) {
    return a - b < 1e-9 && b - a < 1e-9;
}
inline stim::DemTarget D(uint64_t i) {
    return stim::DemTarget::relative_detector_id(i);
}
inline stim::DemTarget L(uint64_t i) {
    return stim::DemTarget::observable_id(i);
}
// error(1/8) D1 D0 L2 ^ D2     error(1/4) D2
#define MODEL(m)                                                        \
    on_throw = 0;                                                       \
    stim::DetectorErrorModel m;                                         \
    m.num_detectors = 4;                                                \
    m.num_observables = 3 + (any_u64<1>() >> 8);                        \
    m.instructions.resize(2);                                           \
    m.instructions[0].arg_data.push_back(0.125);                        \
    m.instructions[0].target_data.push_back(D(1));                      \
    m.instructions[0].target_data.push_back(D(0));                      \
    m.instructions[0].target_data.push_back(L(2));                      \
    m.instructions[0].target_data.push_back(stim::DemTarget::separator()); \
    m.instructions[0].target_data.push_back(D(2));                      \
    m.instructions[1].arg_data.push_back(0.25);                         \
    m.instructions[1].target_data.push_back(D(2))
inline void same_graph(UserGraph& g) {
    CHECK(g.get_num_nodes() == 4 && g.get_num_detectors() == 4);
    CHECK(g.get_num_observables() == 3 + (any_u64<1>() >> 8));
    CHECK(g.edges.size() == 2 && g.has_edge(0, 1) && g.has_boundary_edge(2) && !g.has_boundary_edge(3));
    CHECK(rebuilds(g) && g.all_edges_have_error_probabilities());
    auto &a = g.edges.front(), &b = g.edges.back();
    CHECK(near(a.weight, W_8) && near(a.error_probability, 0.125));
    CHECK(a.observable_indices.size() == 1 && a.observable_indices[0] == 2);
    CHECK(near(b.weight, W_5_16) && near(b.error_probability, 0.3125));
    CHECK(b.node1 == 2 && b.node2 == SIZE_MAX && b.observable_indices.size() == 0);
}
//@ without correlations
WITNESS(g_plain) {
    MODEL(m);
    auto g = detector_error_model_to_user_graph(m, false, NUM_DISTINCT_WEIGHTS);
    same_graph(g);
    CHECK(g.loaded_from_dem_without_correlations);
    CHECK(g.edges.front().implied_weights_for_other_edges.size() == 0 && g.edges.back().implied_weights_for_other_edges.size() == 0);
    REACH();
}
//@ with correlations
WITNESS(g_correlated) {
    MODEL(m);
    auto g = detector_error_model_to_user_graph(m, true, NUM_DISTINCT_WEIGHTS);
    same_graph(g);
    CHECK(!g.loaded_from_dem_without_correlations);
    auto &a = g.edges.front(), &b = g.edges.back();
    CHECK(a.implied_weights_for_other_edges.size() == 1 && b.implied_weights_for_other_edges.size() == 1);
    auto &i = a.implied_weights_for_other_edges[0], &k = b.implied_weights_for_other_edges[0];
    CHECK(i.node1 == 2 && i.node2 == SIZE_MAX && near(i.implied_weight, 0));
    // 1/8 of 5/16: two in five
    CHECK((k.node1 ^ k.node2) == 1 && (k.node1 & k.node2) == 0 && near(k.implied_weight, 0.40546510810816438));
    REACH();
}
