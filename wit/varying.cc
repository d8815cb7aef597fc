//! property: R01
//! target: pm::Varying, pm::cyclic
// Radius algebra and cyclic time: changing how a radius varies never changes its present value.
#include "wit.h"
#include "pymatching/sparse_blossom/flooder_matcher_interop/varying.h"
#include "pymatching/sparse_blossom/ints.h"
using namespace pm;

static inline VaryingCT mk(int64_t y, int slope) {
    return VaryingCT((y << 2) + slope);
}

//@ growing radius: value, slope and y intercept agree with the packed line at every time
WITNESS(v_read_growing) {
    int64_t y = any_time<1>(), t = any_time<2>();
    VaryingCT v = mk(y, 1);
    CHECK(v.is_growing() && !v.is_shrinking() && !v.is_frozen());
    CHECK(v.get_distance_at_time(t) == y + t);
    CHECK(v.get_growing_distance_at_time(t) == y + t);
    CHECK(v.y_intercept() == y);
    CHECK(v.time_of_x_intercept() == -y);
    CHECK(v.time_of_x_intercept_for_growing() == -y);
    REACH();
}
//@ shrinking radius
WITNESS(v_read_shrinking) {
    int64_t y = any_time<1>(), t = any_time<2>();
    VaryingCT v = mk(y, 2);
    CHECK(!v.is_growing() && v.is_shrinking() && !v.is_frozen());
    CHECK(v.get_distance_at_time(t) == y - t);
    CHECK(v.get_shrinking_distance_at_time(t) == y - t);
    CHECK(v.y_intercept() == y);
    CHECK(v.time_of_x_intercept() == y);
    CHECK(v.time_of_x_intercept_for_shrinking() == y);
    REACH();
}
//@ frozen radius
WITNESS(v_read_frozen) {
    int64_t y = any_time<1>(), t = any_time<2>();
    VaryingCT v = mk(y, 0);
    CHECK(!v.is_growing() && !v.is_shrinking() && v.is_frozen());
    CHECK(v.get_distance_at_time(t) == y);
    CHECK(v.y_intercept() == y);
    REACH();
}
//@ then_growing_at_time: value continuous at the change, slope +1 afterwards, whatever the slope before
template <int S>
static inline void to_growing() {
    int64_t y = any_time<1>(), t = any_time<2>(), u = any_time<3>();
    VaryingCT v = mk(y, S), w = v.then_growing_at_time(t);
    CHECK(w.is_growing() && !w.is_shrinking());
    // the line of slope +1 through (t, v(t)); v_read_growing says how such a line is read
    CHECK(w.data == ((v.get_distance_at_time(t) - t) << 2) + 1);
    REACH();
}
template <int S>
static inline void to_shrinking() {
    int64_t y = any_time<1>(), t = any_time<2>(), u = any_time<3>();
    VaryingCT v = mk(y, S), w = v.then_shrinking_at_time(t);
    CHECK(!w.is_growing() && w.is_shrinking());
    // the line of slope -1 through (t, v(t)); v_read_shrinking says how such a line is read
    CHECK(w.data == ((v.get_distance_at_time(t) + t) << 2) + 2);
    REACH();
}
template <int S>
static inline void to_frozen() {
    int64_t y = any_time<1>(), t = any_time<2>(), u = any_time<3>();
    VaryingCT v = mk(y, S), w = v.then_frozen_at_time(t);
    CHECK(w.is_frozen() && !w.is_growing() && !w.is_shrinking());
    CHECK(w.get_distance_at_time(t) == v.get_distance_at_time(t));
    CHECK(w.get_distance_at_time(u) == v.get_distance_at_time(t));
    REACH();
}
WITNESS(v_grow_from_growing) { to_growing<1>(); }
WITNESS(v_grow_from_shrinking) { to_growing<2>(); }
WITNESS(v_grow_from_frozen) { to_growing<0>(); }
WITNESS(v_shrink_from_growing) { to_shrinking<1>(); }
WITNESS(v_shrink_from_shrinking) { to_shrinking<2>(); }
WITNESS(v_shrink_from_frozen) { to_shrinking<0>(); }
WITNESS(v_freeze_from_growing) { to_frozen<1>(); }
WITNESS(v_freeze_from_shrinking) { to_frozen<2>(); }
WITNESS(v_freeze_from_frozen) { to_frozen<0>(); }
//@ constructors: zero / given value at the given time
WITNESS(v_make) {
    int64_t y = any_time<1>(), t = any_time<2>();
    VaryingCT z = VaryingCT::growing_varying_with_zero_distance_at_time(t);
    CHECK(z.is_growing() && z.data == ((0 - t) << 2) + 1);
    VaryingCT g = VaryingCT::growing_value_at_time(y, t);
    CHECK(g.is_growing() && g.get_distance_at_time(t) == y);
    VaryingCT s = VaryingCT::shrinking_value_at_time(y, t);
    CHECK(s.is_shrinking() && s.get_distance_at_time(t) == y);
    VaryingCT f = VaryingCT::frozen(y);
    CHECK(f.is_frozen() && f.get_distance_at_time(t) == y);
    VaryingCT d;
    CHECK(d.is_frozen() && d.get_distance_at_time(t) == 0);
    REACH();
}
//@ offsets shift the value and leave the slope alone
WITNESS(v_offset) {
    int64_t o = any_time<3>();
    VaryingCT v((int64_t)any_u64<1>());
    CHECK((v + o).data == v.data + (o << 2));  // y intercept + o, slope bits untouched
    CHECK((v - o).data == v.data - (o << 2));
    VaryingCT a = v, b = v;
    a += o;
    b -= o;
    CHECK(a == v + o && b == v - o);
    REACH();
}
//@ meeting times of two lines
WITNESS(v_meet) {
    int64_t a = any_time<1>(), b = any_time<2>();
    VaryingCT ga = mk(a, 1), gb = mk(b, 1), fb = mk(b, 0), sb = mk(b, 2);
    CHECK_HALF(-a - b, ga.time_of_x_intercept_when_added_to(gb) == ((-a - b) >> 1));
    CHECK(ga.time_of_x_intercept_when_added_to(fb) == -a - b);
    CHECK(fb.time_of_x_intercept_when_added_to(ga) == -a - b);
    CHECK(ga.time_of_x_intercept_when_added_to_giving_unit_slope(fb) == -a - b);
    CHECK(ga.colliding_with(gb) && ga.colliding_with(fb) && fb.colliding_with(ga));
    CHECK(!ga.colliding_with(sb) && !sb.colliding_with(ga) && !fb.colliding_with(fb) && !fb.colliding_with(sb));
    REACH();
}
//@ equality is equality of the whole line
WITNESS(v_eq) {
    VaryingCT a(any_time<1>()), b(any_time<2>());
    CHECK((a == b) == (a.data == b.data));
    CHECK((a != b) == (a.data != b.data));
    REACH();
}
//@ the width of every quantity that accumulates weight or time
WITNESS(v_widths) {
    CHECK(sizeof(cumulative_time_int) == 8 && (cumulative_time_int)-1 < 0);
    CHECK(sizeof(total_weight_int) == 8 && (total_weight_int)-1 < 0);
    CHECK(sizeof(obs_int) == 8 && (obs_int)-1 > 0);
    CHECK(sizeof(VaryingCT::data) == 8 && (decltype(VaryingCT::data))-1 < 0);
    REACH();
}
//@ cyclic order: with a distance below half a turn, every comparison agrees with the true order
WITNESS(c_cmp_ahead) {
    uint32_t a = any_u32<1>(), d = any_u32<2>() >> 1;  // b = a + d, 0 <= d < 2^31
    ASSUME(d != 0);
    cyclic_time_int x{a}, y{(uint32_t)(a + d)};
    CHECK(x < y && x <= y && !(x > y) && !(x >= y) && x != y && !(x == y));
    CHECK(y > x && y >= x && !(y < x) && !(y <= x) && y != x);
    REACH();
}
WITNESS(c_cmp_equal) {
    uint32_t a = any_u32<1>();
    cyclic_time_int x{a}, y{a};
    CHECK(!(x < y) && x <= y && !(x > y) && x >= y && x == y && !(x != y));
    REACH();
}
//@ arithmetic wraps modulo 2^32
WITNESS(c_arith) {
    uint32_t a = any_u32<1>(), b = any_u32<2>();
    cyclic_time_int x{a}, y{b};
    CHECK((x + y).value == (uint32_t)(a + b) && (x - y).value == (uint32_t)(a - b));
    cyclic_time_int z = x;
    ++z;
    CHECK(z.value == (uint32_t)(a + 1));
    z--;
    CHECK(z.value == a);
    z += b;
    CHECK(z.value == (uint32_t)(a + b));
    z -= b;
    CHECK(z.value == a);
    CHECK(cyclic_time_int{any_time<3>()}.value == (uint32_t)any_time<3>());
    REACH();
}
//@ widening a cyclic time next to a 64-bit reference gives back the 64-bit time (ahead and behind, any wrap count)
WITNESS(c_widen_ahead) {
    int64_t ref = any_time<1>();
    uint32_t d = any_u32<2>() >> 1;
    cyclic_time_int x{ref + (int64_t)d};
    CHECK(x.widen_from_nearby_reference(ref) == ref + (int64_t)d);
    REACH();
}
WITNESS(c_widen_behind) {
    int64_t ref = (int64_t)any_u64<1>();
    uint32_t e = (any_u32<2>() >> 1) | 0x80000000u;  // the time is ref + (int32_t)e, 0 > (int32_t)e > -2^31
    ASSUME(e != 0x80000000u);
    cyclic_time_int x{(uint32_t)ref + e};
    CHECK(x.widen_from_nearby_reference(ref) - ref == (int64_t)(uint64_t)e - (1LL << 32));
    REACH();
}
