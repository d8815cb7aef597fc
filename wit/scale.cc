//! property: R15
//! target: pm::UserGraph::get_edge_weight_normalising_constant
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY
// The common scale of all weights: 1 when every weight is an integer, otherwise the heaviest weight uses the whole range; what
// cannot be represented is rejected.
#include "driver.h"
#include "reject.h"
inline void at_throw(int mode) {
}
inline double mag(double x) {
    return __builtin_fabs(x);
}
inline bool fractional(double x) {
    return __builtin_round(x) != x;
}
constexpr double LIMIT = 16777215;
//@ integer weights are kept as they are
WITNESS(sc_integral) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    double a = any_d<1>(), b = any_d<2>();
    ASSUME(!fractional(a) && !fractional(b) && mag(a) <= LIMIT && mag(b) <= LIMIT);
    g.add_or_merge_edge(0, 1, {}, a, 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(2, {}, b, 0.1, DISALLOW);
    CHECK(g.get_edge_weight_normalising_constant(any_u32<3>()) == 1.0);
    REACH();
}
//@ one fractional weight, wherever it is: scaled by the magnitude of the heaviest weight
WITNESS(sc_fractional_first) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    double a = any_d<1>(), b = any_d<2>();
    ASSUME(fractional(a) && !fractional(b) && mag(a) <= LIMIT && mag(b) < mag(a) && mag(a) > 0);
    g.add_or_merge_edge(0, 1, {}, a, 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(2, {}, b, 0.1, DISALLOW);
    CHECK(bits(g.get_edge_weight_normalising_constant(any_u32<3>()), (double)(uint32_t)(any_u32<3>() - 1) / mag(a)));
    REACH();
}
WITNESS(sc_fractional_second) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    double a = any_d<1>(), b = any_d<2>();
    ASSUME(!fractional(a) && fractional(b) && mag(b) < mag(a) && mag(a) <= LIMIT && mag(a) > 0);
    g.add_or_merge_edge(0, 1, {}, a, 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(2, {}, b, 0.1, DISALLOW);
    CHECK(bits(g.get_edge_weight_normalising_constant(any_u32<3>()), (double)(uint32_t)(any_u32<3>() - 1) / mag(a)));
    REACH();
}
WITNESS(sc_fractional_heavier_second) {
    on_throw = 0;
    OBJ(UserGraph, g, 3);
    double a = any_d<1>(), b = any_d<2>();
    ASSUME(fractional(a) && mag(a) < mag(b) && mag(b) <= LIMIT && mag(b) > 0);
    g.add_or_merge_edge(0, 1, {}, a, 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(2, {}, b, 0.1, DISALLOW);
    CHECK(bits(g.get_edge_weight_normalising_constant(any_u32<3>()), (double)(uint32_t)(any_u32<3>() - 1) / mag(b)));
    REACH();
}
//@ a weight beyond the representable range is rejected, wherever it is and of either sign
WITNESS(sc_reject_first) {
    OBJ(UserGraph, g, 3);
    on_throw = 1;
    double a = any_d<1>(), b = any_d<2>();
    ASSUME(mag(a) > LIMIT && mag(b) < mag(a));
    g.add_or_merge_edge(0, 1, {}, a, 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(2, {}, b, 0.1, DISALLOW);
    g.get_edge_weight_normalising_constant(any_u32<3>());
    ACCEPTED();
}
WITNESS(sc_reject_second) {
    OBJ(UserGraph, g, 3);
    on_throw = 1;
    double a = any_d<1>(), b = any_d<2>();
    ASSUME(mag(a) <= LIMIT && mag(b) > LIMIT && mag(b) > mag(a));
    g.add_or_merge_edge(0, 1, {}, a, 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(2, {}, b, 0.1, DISALLOW);
    g.get_edge_weight_normalising_constant(any_u32<3>());
    ACCEPTED();
}
//@ implied weights count too: range, integrality, existence of the edge they refer to, unchanged sign
WITNESS(sc_implied_integral) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    double a = any_d<1>(), b = any_d<2>(), c = any_d<3>();
    ASSUME(!fractional(a) && !fractional(b) && !fractional(c) && mag(a) <= LIMIT && mag(b) <= LIMIT && mag(c) <= LIMIT && b * c >= 0);
    g.add_or_merge_edge(0, 1, {}, a, 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(0, {}, b, 0.1, DISALLOW);
    g.edges.front().implied_weights_for_other_edges.push_back({0, SIZE_MAX, c});
    CHECK(g.get_edge_weight_normalising_constant(any_u32<4>()) == 1.0);
    REACH();
}
WITNESS(sc_implied_heaviest) {
    on_throw = 0;
    OBJ(UserGraph, g, 2);
    double a = any_d<1>(), b = any_d<2>(), c = any_d<3>();
    ASSUME(!fractional(a) && !fractional(b) && fractional(c) && mag(a) < mag(c) && mag(b) < mag(c) && mag(c) <= LIMIT && mag(c) > 0 && b * c >= 0);
    g.add_or_merge_edge(0, 1, {}, a, 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(0, {}, b, 0.1, DISALLOW);
    g.edges.front().implied_weights_for_other_edges.push_back({0, SIZE_MAX, c});
    CHECK(bits(g.get_edge_weight_normalising_constant(any_u32<4>()), (double)(uint32_t)(any_u32<4>() - 1) / mag(c)));
    REACH();
}
WITNESS(sc_implied_reject_range) {
    OBJ(UserGraph, g, 2);
    on_throw = 1;
    double a = any_d<1>(), b = any_d<2>(), c = any_d<3>();
    ASSUME(mag(a) < mag(c) && mag(b) < mag(c) && mag(c) > LIMIT && b * c >= 0);
    g.add_or_merge_edge(0, 1, {}, a, 0.1, DISALLOW);
    g.add_or_merge_boundary_edge(0, {}, b, 0.1, DISALLOW);
    g.edges.front().implied_weights_for_other_edges.push_back({0, SIZE_MAX, c});
    g.get_edge_weight_normalising_constant(any_u32<4>());
    ACCEPTED();
}
WITNESS(sc_implied_reject_missing) {
    OBJ(UserGraph, g, 3);
    on_throw = 1;
    g.add_or_merge_edge(0, 1, {}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_edge(1, 2, {}, any_d<2>(), 0.1, DISALLOW);
    g.edges.front().implied_weights_for_other_edges.push_back({0, 2, any_d<3>()});
    g.get_edge_weight_normalising_constant(any_u32<4>());
    ACCEPTED();
}
WITNESS(sc_implied_reject_sign) {
    OBJ(UserGraph, g, 3);
    on_throw = 1;
    double b = any_d<2>(), c = any_d<3>();
    ASSUME(b * c < 0);
    g.add_or_merge_edge(0, 1, {}, any_d<1>(), 0.1, DISALLOW);
    g.add_or_merge_edge(1, 2, {}, b, 0.1, DISALLOW);
    g.edges.front().implied_weights_for_other_edges.push_back({2, 1, c});
    g.get_edge_weight_normalising_constant(any_u32<4>());
    ACCEPTED();
}
