//! property: R17
//! target: pm::iter_detector_error_model_edges / pm::iter_dem_instructions_include_correlations
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=7
// Reading an error model: every component of every error instruction arrives once, with its own detectors and observables and
// the probability of the instruction.
#include "driver.h"
#include "reject.h"
static int n_seen;
inline void at_throw(int mode) {
    CHECK(n_seen == mode - 1);
}
static double seen_p[3];
static size_t seen_d[3][2], seen_nd[3], seen_o[3][2], seen_no[3];
struct Record {
    void operator()(double p, const std::vector<size_t>& d, const std::vector<size_t>& o) const {
        int k = n_seen++;
        CHECK(k < 3);
        seen_p[k] = p;
        seen_nd[k] = d.size();
        seen_no[k] = o.size();
        for (int i = 0; i < 2; i++) {
            seen_d[k][i] = (size_t)i < d.size() ? d[i] : 0;
            seen_o[k][i] = (size_t)i < o.size() ? o[i] : 0;
        }
    }
};
inline stim::DemTarget D(uint64_t i) {
    return stim::DemTarget::relative_detector_id(i);
}
inline stim::DemTarget L(uint64_t i) {
    return stim::DemTarget::observable_id(i);
}
inline stim::DemTarget sep() {
    return stim::DemTarget::separator();
}
template <int K>
inline uint64_t any_det() {
    uint64_t d = any_u64<K>();
    ASSUME(d < (uint64_t(1) << 60));
    return d;
}
inline bool pair_is(const size_t* d, size_t a, size_t b) {
    return (d[0] == a && d[1] == b) || (d[0] == b && d[1] == a);
}
using Joint = std::map<std::pair<size_t, size_t>, std::map<std::pair<size_t, size_t>, double>>;
#define MODEL(m)                       \
    on_throw = 0;                      \
    n_seen = 0;                        \
    stim::DetectorErrorModel m;        \
    m.instructions.resize(1);          \
    m.instructions[0].arg_data.push_back(any_d<1>()); \
    auto& t = m.instructions[0].target_data
#define POSITIVE() ASSUME(any_d<1>() > 0 && any_d<1>() <= 1)
// Joint probabilities are decided in wit/joint.cc.
static int n_joint;
static size_t joint_components;
static double joint_p;
static size_t joint_node[3][2];
void pm::add_decomposed_error_to_joint_probabilities(DecomposedDemError& e, Joint&) {
    n_joint++;
    joint_components = e.components.size();
    joint_p = e.probability;
    for (int i = 0; i < 3; i++)
        if ((size_t)i < e.components.size()) {
            joint_node[i][0] = e.components[i].node1;
            joint_node[i][1] = e.components[i].node2;
        }
}
//@ one edge with two observables
WITNESS(m_edge) {
    MODEL(m);
    POSITIVE();
    t.push_back(D(any_det<2>()));
    t.push_back(L(any_det<3>()));
    t.push_back(D(any_det<4>()));
    t.push_back(L(any_det<5>()));
    iter_detector_error_model_edges(m, Record());
    CHECK(n_seen == 1 && bits(seen_p[0], any_d<1>()));
    CHECK(seen_nd[0] == 2 && seen_no[0] == 2);
    CHECK(pair_is(seen_d[0], any_det<2>(), any_det<4>()));
    CHECK(pair_is(seen_o[0], any_det<3>(), any_det<5>()));
    REACH();
}
//@ components of a decomposed error do not mix
WITNESS(m_decomposed) {
    MODEL(m);
    POSITIVE();
    t.push_back(D(any_det<2>()));
    t.push_back(D(any_det<3>()));
    t.push_back(L(any_det<4>()));
    t.push_back(sep());
    t.push_back(D(any_det<5>()));
    iter_detector_error_model_edges(m, Record());
    CHECK(n_seen == 2 && bits(seen_p[0], any_d<1>()) && bits(seen_p[1], any_d<1>()));
    CHECK(seen_nd[0] == 2 && seen_no[0] == 1 && pair_is(seen_d[0], any_det<2>(), any_det<3>()) && seen_o[0][0] == any_det<4>());
    CHECK(seen_nd[1] == 1 && seen_no[1] == 0 && seen_d[1][0] == any_det<5>());
    REACH();
}
WITNESS(m_decomposed_second) {
    MODEL(m);
    POSITIVE();
    t.push_back(D(any_det<2>()));
    t.push_back(sep());
    t.push_back(D(any_det<3>()));
    t.push_back(D(any_det<5>()));
    t.push_back(L(any_det<4>()));
    iter_detector_error_model_edges(m, Record());
    CHECK(n_seen == 2 && bits(seen_p[0], any_d<1>()) && bits(seen_p[1], any_d<1>()));
    CHECK(seen_nd[0] == 1 && seen_no[0] == 0 && seen_d[0][0] == any_det<2>());
    CHECK(seen_nd[1] == 2 && seen_no[1] == 1 && pair_is(seen_d[1], any_det<3>(), any_det<5>()) && seen_o[1][0] == any_det<4>());
    REACH();
}
// ND1, NO1, ND2, NO2: detectors and observables of the first and the second component
template <int ND1, int NO1, int ND2, int NO2>
inline void components() {
    MODEL(m);
    POSITIVE();
    if (ND1 > 0)
        t.push_back(D(any_det<2>()));
    if (NO1 > 0)
        t.push_back(L(any_det<3>()));
    if (ND1 > 1)
        t.push_back(D(any_det<4>()));
    t.push_back(sep());
    if (ND2 > 0)
        t.push_back(D(any_det<5>()));
    if (ND2 > 1)
        t.push_back(D(any_det<6>()));
    if (NO2 > 0)
        t.push_back(L(any_det<7>()));
    iter_detector_error_model_edges(m, Record());
    // a component without detectors may be passed on (it is ignored later) or not
    CHECK(n_seen == 2 || (n_seen == 1 && (ND1 == 0 || ND2 == 0)));
    int a = 0, b = n_seen - 1;
    if (ND1 > 0) {
        CHECK(bits(seen_p[a], any_d<1>()) && seen_nd[a] == ND1 && seen_no[a] == NO1);
        CHECK(ND1 == 2 ? pair_is(seen_d[a], any_det<2>(), any_det<4>()) : seen_d[a][0] == any_det<2>());
        CHECK(NO1 == 0 || seen_o[a][0] == any_det<3>());
    }
    if (ND2 > 0) {
        CHECK(bits(seen_p[b], any_d<1>()) && seen_nd[b] == ND2 && seen_no[b] == NO2);
        CHECK(ND2 == 2 ? pair_is(seen_d[b], any_det<5>(), any_det<6>()) : seen_d[b][0] == any_det<5>());
        CHECK(NO2 == 0 || seen_o[b][0] == any_det<7>());
    }
    REACH();
}
//@ ... with any number of detectors and observables in either
WITNESS(m_parts_0110) { components<0, 1, 1, 0>(); }
WITNESS(m_parts_0111) { components<0, 1, 1, 1>(); }
WITNESS(m_parts_0120) { components<0, 1, 2, 0>(); }
WITNESS(m_parts_0121) { components<0, 1, 2, 1>(); }
WITNESS(m_parts_1001) { components<1, 0, 0, 1>(); }
WITNESS(m_parts_1010) { components<1, 0, 1, 0>(); }
WITNESS(m_parts_1011) { components<1, 0, 1, 1>(); }
WITNESS(m_parts_1020) { components<1, 0, 2, 0>(); }
WITNESS(m_parts_1021) { components<1, 0, 2, 1>(); }
WITNESS(m_parts_1101) { components<1, 1, 0, 1>(); }
WITNESS(m_parts_1110) { components<1, 1, 1, 0>(); }
WITNESS(m_parts_1111) { components<1, 1, 1, 1>(); }
WITNESS(m_parts_1120) { components<1, 1, 2, 0>(); }
WITNESS(m_parts_1121) { components<1, 1, 2, 1>(); }
WITNESS(m_parts_2001) { components<2, 0, 0, 1>(); }
WITNESS(m_parts_2010) { components<2, 0, 1, 0>(); }
WITNESS(m_parts_2011) { components<2, 0, 1, 1>(); }
WITNESS(m_parts_2020) { components<2, 0, 2, 0>(); }
WITNESS(m_parts_2021) { components<2, 0, 2, 1>(); }
WITNESS(m_parts_2101) { components<2, 1, 0, 1>(); }
WITNESS(m_parts_2110) { components<2, 1, 1, 0>(); }
WITNESS(m_parts_2111) { components<2, 1, 1, 1>(); }
WITNESS(m_parts_2120) { components<2, 1, 2, 0>(); }
WITNESS(m_parts_2121) { components<2, 1, 2, 1>(); }
//@ errors that never happen are left out
WITNESS(m_zero) {
    MODEL(m);
    ASSUME(any_d<1>() == 0);
    t.push_back(D(any_det<2>()));
    t.push_back(sep());
    t.push_back(D(any_det<3>()));
    t.push_back(L(any_det<4>()));
    iter_detector_error_model_edges(m, Record());
    CHECK(n_seen == 0);
    REACH();
}
//@ instructions do not mix
WITNESS(m_two_instructions) {
    MODEL(m);
    POSITIVE();
    t.push_back(D(any_det<2>()));
    t.push_back(L(any_det<3>()));
    m.instructions.resize(2);
    m.instructions[1].arg_data.push_back(any_d<4>());
    ASSUME(any_d<4>() > 0 && any_d<4>() <= 1);
    m.instructions[1].target_data.push_back(D(any_det<5>()));
    m.instructions[1].target_data.push_back(D(any_det<6>()));
    iter_detector_error_model_edges(m, Record());
    CHECK(n_seen == 2 && bits(seen_p[0], any_d<1>()) && bits(seen_p[1], any_d<4>()));
    CHECK(seen_nd[0] == 1 && seen_no[0] == 1 && seen_d[0][0] == any_det<2>() && seen_o[0][0] == any_det<3>());
    CHECK(seen_nd[1] == 2 && seen_no[1] == 0 && pair_is(seen_d[1], any_det<5>(), any_det<6>()));
    REACH();
}
#define MODEL_C(m)  \
    MODEL(m);       \
    n_joint = 0;    \
    Joint joint
#define AT_MOST_HALF() ASSUME(any_d<1>() > 0 && any_d<1>() <= 0.5)
//@ with correlations: an undecomposed edge
WITNESS(mc_edge) {
    MODEL_C(m);
    AT_MOST_HALF();
    t.push_back(D(any_det<2>()));
    t.push_back(L(any_det<3>()));
    t.push_back(D(any_det<4>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    CHECK(n_seen == 1 && bits(seen_p[0], any_d<1>()));
    CHECK(seen_nd[0] == 2 && seen_no[0] == 1 && pair_is(seen_d[0], any_det<2>(), any_det<4>()) && seen_o[0][0] == any_det<3>());
    CHECK(n_joint == 1 && joint_components == 1 && bits(joint_p, any_d<1>()));
    CHECK(pair_is(joint_node[0], any_det<2>(), any_det<4>()));
    REACH();
}
WITNESS(mc_boundary_edge) {
    MODEL_C(m);
    AT_MOST_HALF();
    t.push_back(D(any_det<2>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    CHECK(n_seen == 1 && bits(seen_p[0], any_d<1>()) && seen_nd[0] == 1 && seen_no[0] == 0 && seen_d[0][0] == any_det<2>());
    CHECK(n_joint == 1 && joint_components == 1 && pair_is(joint_node[0], any_det<2>(), SIZE_MAX));
    REACH();
}
//@ with correlations: components keep their own detectors and observables, and are reported together as one error
WITNESS(mc_decomposed) {
    MODEL_C(m);
    AT_MOST_HALF();
    t.push_back(D(any_det<2>()));
    t.push_back(D(any_det<3>()));
    t.push_back(L(any_det<4>()));
    t.push_back(sep());
    t.push_back(D(any_det<5>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    CHECK(n_seen == 2 && bits(seen_p[0], any_d<1>()) && bits(seen_p[1], any_d<1>()));
    CHECK(seen_nd[0] == 2 && seen_no[0] == 1 && pair_is(seen_d[0], any_det<2>(), any_det<3>()) && seen_o[0][0] == any_det<4>());
    CHECK(seen_nd[1] == 1 && seen_no[1] == 0 && seen_d[1][0] == any_det<5>());
    CHECK(n_joint == 1 && joint_components == 2 && bits(joint_p, any_d<1>()));
    CHECK(pair_is(joint_node[0], any_det<2>(), any_det<3>()) && pair_is(joint_node[1], any_det<5>(), SIZE_MAX));
    REACH();
}
WITNESS(mc_edge_without_decomposed_weights) {
    MODEL_C(m);
    AT_MOST_HALF();
    t.push_back(D(any_det<2>()));
    t.push_back(D(any_det<3>()));
    t.push_back(L(any_det<4>()));
    iter_dem_instructions_include_correlations(m, Record(), joint, false);
    CHECK(n_seen == 1 && bits(seen_p[0], any_d<1>()));
    CHECK(seen_nd[0] == 2 && seen_no[0] == 1 && pair_is(seen_d[0], any_det<2>(), any_det<3>()) && seen_o[0][0] == any_det<4>());
    CHECK(n_joint == 1 && joint_components == 1 && bits(joint_p, any_d<1>()));
    REACH();
}
WITNESS(mc_decomposed_without_decomposed_weights) {
    MODEL_C(m);
    AT_MOST_HALF();
    t.push_back(D(any_det<2>()));
    t.push_back(D(any_det<3>()));
    t.push_back(sep());
    t.push_back(D(any_det<5>()));
    iter_dem_instructions_include_correlations(m, Record(), joint, false);
    CHECK(n_seen == 0);
    CHECK(n_joint == 1 && joint_components == 2 && bits(joint_p, any_d<1>()));
    CHECK(pair_is(joint_node[0], any_det<2>(), any_det<3>()) && pair_is(joint_node[1], any_det<5>(), SIZE_MAX));
    REACH();
}
template <int ND1, int NO1, int ND2, int NO2>
inline void components_c() {
    MODEL_C(m);
    AT_MOST_HALF();
    t.push_back(D(any_det<2>()));
    if (NO1 > 0)
        t.push_back(L(any_det<3>()));
    if (ND1 > 1)
        t.push_back(D(any_det<4>()));
    t.push_back(sep());
    t.push_back(D(any_det<5>()));
    if (ND2 > 1)
        t.push_back(D(any_det<6>()));
    if (NO2 > 0)
        t.push_back(L(any_det<7>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    CHECK(n_seen == 2 && n_joint == 1 && joint_components == 2 && bits(joint_p, any_d<1>()));
    CHECK(bits(seen_p[0], any_d<1>()) && seen_nd[0] == ND1 && seen_no[0] == NO1);
    CHECK(ND1 == 2 ? pair_is(seen_d[0], any_det<2>(), any_det<4>()) : seen_d[0][0] == any_det<2>());
    CHECK(NO1 == 0 || seen_o[0][0] == any_det<3>());
    CHECK(bits(seen_p[1], any_d<1>()) && seen_nd[1] == ND2 && seen_no[1] == NO2);
    CHECK(ND2 == 2 ? pair_is(seen_d[1], any_det<5>(), any_det<6>()) : seen_d[1][0] == any_det<5>());
    CHECK(NO2 == 0 || seen_o[1][0] == any_det<7>());
    CHECK(pair_is(joint_node[0], any_det<2>(), ND1 == 2 ? any_det<4>() : SIZE_MAX));
    CHECK(pair_is(joint_node[1], any_det<5>(), ND2 == 2 ? any_det<6>() : SIZE_MAX));
    REACH();
}
WITNESS(mc_parts_1010) { components_c<1, 0, 1, 0>(); }
WITNESS(mc_parts_1011) { components_c<1, 0, 1, 1>(); }
WITNESS(mc_parts_1020) { components_c<1, 0, 2, 0>(); }
WITNESS(mc_parts_1021) { components_c<1, 0, 2, 1>(); }
WITNESS(mc_parts_1110) { components_c<1, 1, 1, 0>(); }
WITNESS(mc_parts_1111) { components_c<1, 1, 1, 1>(); }
WITNESS(mc_parts_1120) { components_c<1, 1, 2, 0>(); }
WITNESS(mc_parts_1121) { components_c<1, 1, 2, 1>(); }
WITNESS(mc_parts_2010) { components_c<2, 0, 1, 0>(); }
WITNESS(mc_parts_2011) { components_c<2, 0, 1, 1>(); }
WITNESS(mc_parts_2020) { components_c<2, 0, 2, 0>(); }
WITNESS(mc_parts_2021) { components_c<2, 0, 2, 1>(); }
WITNESS(mc_parts_2110) { components_c<2, 1, 1, 0>(); }
WITNESS(mc_parts_2111) { components_c<2, 1, 1, 1>(); }
WITNESS(mc_parts_2120) { components_c<2, 1, 2, 0>(); }
WITNESS(mc_parts_2121) { components_c<2, 1, 2, 1>(); }
//@ with correlations: impossible and undetectable errors are left out
WITNESS(mc_zero) {
    MODEL_C(m);
    ASSUME(any_d<1>() == 0);
    t.push_back(D(any_det<2>()));
    t.push_back(sep());
    t.push_back(D(any_det<3>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    CHECK(n_seen == 0 && n_joint == 0);
    REACH();
}
WITNESS(mc_undetectable) {
    MODEL_C(m);
    AT_MOST_HALF();
    t.push_back(L(any_det<2>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    CHECK(n_seen == 0 && n_joint == 0);
    REACH();
}
//@ with correlations: what is not supported is rejected before anything of it is used
WITNESS(mc_reject_probability) {
    MODEL_C(m);
    on_throw = 1;
    ASSUME(any_d<1>() > 0.5 && any_d<1>() <= 1);
    t.push_back(D(any_det<2>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    ACCEPTED();
}
WITNESS(mc_reject_hyperedge) {
    MODEL_C(m);
    on_throw = 1;
    AT_MOST_HALF();
    t.push_back(D(any_det<2>()));
    t.push_back(D(any_det<3>()));
    t.push_back(D(any_det<4>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    ACCEPTED();
}
WITNESS(mc_reject_hyperedge_component) {
    MODEL_C(m);
    on_throw = 1;
    AT_MOST_HALF();
    t.push_back(D(any_det<2>()));
    t.push_back(sep());
    t.push_back(D(any_det<3>()));
    t.push_back(D(any_det<4>()));
    t.push_back(D(any_det<5>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    ACCEPTED();
}
WITNESS(mc_reject_undetectable_first) {
    MODEL_C(m);
    on_throw = 1;
    AT_MOST_HALF();
    t.push_back(L(any_det<2>()));
    t.push_back(sep());
    t.push_back(D(any_det<3>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    ACCEPTED();
}
WITNESS(mc_reject_undetectable_last) {
    MODEL_C(m);
    on_throw = 1;
    AT_MOST_HALF();
    t.push_back(D(any_det<3>()));
    t.push_back(sep());
    t.push_back(L(any_det<2>()));
    iter_dem_instructions_include_correlations(m, Record(), joint);
    ACCEPTED();
}
