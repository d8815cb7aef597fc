//! property: R16
//! target: pm::UserGraph::add_noise
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY
// Sampling noise: each edge fails on its own random draw; failing edges flip both ends and their observables, nothing else.
#include "driver.h"
#include "pymatching/rand/rand_gen.h"
#include "reject.h"
inline void at_throw(int mode) {
}
static int n_draws;
double pm::rand_float(double a, double b) {
    CHECK(a == 0 && b == 1);
    n_draws++;
    return n_draws == 1 ? any_d<31>() : n_draws == 2 ? any_d<32>() : any_d<33>();
}
inline bool fails(double r, double p) {
    ASSUME(p > 0 && p < 1 && r >= 0 && r < 1);
    return r < p;
}
// 0 -L0- 1 -L1,L0- 2, and 0 -L2- boundary (virtual)
#define NOISY(g)                                                                     \
    on_throw = 0;                                                                    \
    n_draws = 0;                                                                     \
    OBJ(UserGraph, g, 3);                                                            \
    g.add_or_merge_edge(0, 1, {0}, any_d<1>(), any_d<2>(), DISALLOW);                \
    g.add_or_merge_edge(1, 2, {1, 0}, any_d<3>(), any_d<4>(), DISALLOW);             \
    g.add_or_merge_boundary_edge(0, {2}, any_d<5>(), any_d<6>(), DISALLOW);          \
    uint8_t o[3] = {0, 0, 0}, s[3] = {0, 0, 0}
#define F1 fails(any_d<31>(), any_d<2>())
#define F2 fails(any_d<32>(), any_d<4>())
#define F3 fails(any_d<33>(), any_d<6>())
//@ each failing edge flips its ends and observables
WITNESS(n_flips) {
    NOISY(g);
    bool a = F1, b = F2, c = F3;
    g.add_noise(o, s);
    CHECK(s[0] == (a != c) && s[1] == (a != b) && s[2] == b);
    CHECK(o[0] == (a != b) && o[1] == b && o[2] == c);
    CHECK(n_draws == 3);
    REACH();
}
//@ a self-loop flips its detector twice, and its observables
WITNESS(n_self_loop) {
    on_throw = 0;
    n_draws = 0;
    OBJ(UserGraph, g, 2);
    g.add_or_merge_edge(1, 1, {0}, any_d<1>(), any_d<2>(), DISALLOW);
    uint8_t o[1] = {0}, s[2] = {0, 0};
    bool a = F1;
    g.add_noise(o, s);
    CHECK(s[0] == 0 && s[1] == 0 && o[0] == a);
    REACH();
}
//@ flips are added to what is there
WITNESS(n_accumulates) {
    NOISY(g);
    bool a = F1, b = F2, c = F3;
    s[0] = any_u32<7>() & 1;
    o[1] = any_u32<8>() & 1;
    g.add_noise(o, s);
    CHECK(s[0] == ((any_u32<7>() & 1) ^ a ^ c) && o[1] == ((any_u32<8>() & 1) ^ b));
    REACH();
}
//@ boundary nodes carry no syndrome
WITNESS(n_boundary) {
    NOISY(g);
    bool a = F1, b = F2, c = F3;
    std::set<size_t> bs;
    bs.insert(2);
    g.set_boundary(bs);
    s[2] = any_u32<7>();
    g.add_noise(o, s);
    CHECK(s[0] == (a != c) && s[1] == (a != b) && s[2] == 0);
    CHECK(o[0] == (a != b) && o[1] == b && o[2] == c);
    REACH();
}
WITNESS(n_boundaries) {
    NOISY(g);
    bool a = F1, b = F2, c = F3;
    std::set<size_t> bs;
    bs.insert(0);
    bs.insert(1);
    g.set_boundary(bs);
    s[0] = any_u32<7>();
    s[1] = any_u32<8>();
    g.add_noise(o, s);
    CHECK(s[0] == 0 && s[1] == 0 && s[2] == b);
    CHECK(o[0] == (a != b) && o[1] == b && o[2] == c);
    REACH();
}
//@ nothing happens unless every probability is known
WITNESS(n_unknown) {
    on_throw = 0;
    n_draws = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_edge(0, 1, {0}, any_d<1>(), 1, DISALLOW);
    g.add_or_merge_edge(1, 2, {1}, any_d<3>(), -1, DISALLOW);
    uint8_t o[2] = {0, 1}, s[3] = {0, 1, 0};
    g.add_noise(o, s);
    CHECK(o[0] == 0 && o[1] == 1 && s[0] == 0 && s[1] == 1 && s[2] == 0);
    REACH();
}
//@ certain and impossible errors
WITNESS(n_extremes) {
    on_throw = 0;
    n_draws = 0;
    OBJ(UserGraph, g, 3);
    g.add_or_merge_edge(0, 1, {0}, any_d<1>(), 1, DISALLOW);
    g.add_or_merge_boundary_edge(2, {1}, any_d<3>(), 0, DISALLOW);
    uint8_t o[2] = {0, 0}, s[3] = {0, 0, 0};
    ASSUME(any_d<31>() >= 0 && any_d<31>() < 1 && any_d<32>() >= 0 && any_d<32>() < 1);
    g.add_noise(o, s);
    CHECK(o[0] == 1 && o[1] == 0 && s[0] == 1 && s[1] == 1 && s[2] == 0);
    CHECK(n_draws == 2);
    REACH();
}
