//! property: R17
//! target: pm::detector_error_model_to_mwpm
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY
// Straight from an error model to a decoder: the flags reach the right places.
#include "driver.h"
#include "reject.h"
inline void at_throw(int mode) {
}
static bool asked_search, asked_correlations;
static weight_int asked_weights;
static const stim::DetectorErrorModel* asked_model;
static size_t asked_nodes;
UserGraph pm::detector_error_model_to_user_graph(const stim::DetectorErrorModel& m, bool correlations, weight_int n) {
    asked_model = &m;
    asked_correlations = correlations;
    return UserGraph(3);
}
Mwpm UserGraph::to_mwpm(weight_int n, bool with_search) {
    asked_weights = n;
    asked_search = with_search;
    asked_nodes = nodes.size();
    return Mwpm();
}
template <bool S, bool C>
inline void flags() {
    on_throw = 0;
    asked_model = nullptr;
    asked_nodes = 0;
    stim::DetectorErrorModel m;
    auto w = detector_error_model_to_mwpm(m, any_u32<2>(), S, C);
    CHECK(asked_model == &m && asked_nodes == 3 && asked_weights == any_u32<2>());
    CHECK(asked_search == S && asked_correlations == C);
    REACH();
}
//@ plain
WITNESS(g_mwpm) { flags<false, false>(); }
//@ with a search graph
WITNESS(g_mwpm_search) { flags<true, false>(); }
//@ with correlations
WITNESS(g_mwpm_correlated) { flags<true, true>(); }
