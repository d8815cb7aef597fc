//! property: R16
//! target: pm::set_seed / pm::rand_float / pm::randomize
//! units: none
//! defs: -fno-threadsafe-statics
// The random numbers: one generator, seeded by set_seed, feeds every draw.
#include <random>
#include "reject.h"
inline void at_throw(int mode) {
}
static int n_seeds, n_devices;
static uint64_t last_seed;
// A generator with an arbitrary output function of seed and position.
struct vp_engine {
    using result_type = uint_fast32_t;
    uint64_t s = 5489, n = 0;
    static constexpr result_type min() {
        return 0;
    }
    static constexpr result_type max() {
        return 0xffffffffu;
    }
    void seed(uint64_t v = 5489) {
        s = v;
        n = 0;
        n_seeds++;
        last_seed = v;
    }
    result_type operator()() {
        n++;
        return (uint32_t)((s ^ (s >> 7)) * 2654435761u + n * 40503u);
    }
};
struct vp_device {
    using result_type = unsigned;
    unsigned operator()() {
        n_devices++;
        return any_u32<9>();
    }
};
// The standard distribution: an affine image of the generator's output, in the range asked for.
template <class T = double>
struct vp_uniform {
    using result_type = T;
    struct param_type {
        T lo, hi;
        explicit param_type(T a = 0, T b = 1) : lo(a), hi(b) {
        }
    };
    param_type own;
    explicit vp_uniform(T a = 0, T b = 1) : own(a, b) {
    }
    explicit vp_uniform(param_type q) : own(q) {
    }
    template <class G>
    T operator()(G& g, const param_type& q) {
        return q.lo + (q.hi - q.lo) * ((double)(uint32_t)g() * 0x1p-32);
    }
    template <class G>
    T operator()(G& g) {
        return (*this)(g, own);
    }
};
namespace std {
template <class T = double>
using vp_uniform = ::vp_uniform<T>;
using vp_engine = ::vp_engine;
using vp_device = ::vp_device;
}
#define mt19937 vp_engine
#define random_device vp_device
#define uniform_real_distribution vp_uniform
#include "pymatching/rand/rand_gen.cc"
#undef uniform_real_distribution
#undef mt19937
#undef random_device
inline uint64_t raw(double d) {
    uint64_t x;
    __builtin_memcpy(&x, &d, 8);
    return x;
}
//@ the same seed gives the same numbers, whatever was drawn before
WITNESS(r_repeatable) {
    on_throw = 0;
    n_seeds = 0;
    pm::set_seed(any_u32<1>());
    CHECK(n_seeds == 1 && last_seed == any_u32<1>());
    double a = pm::rand_float(0, 1);
    double b = pm::rand_float(0, 1);
    pm::set_seed(any_u32<1>());
    double c = pm::rand_float(0, 1);
    double d = pm::rand_float(0, 1);
    CHECK(raw(a) == raw(c) && raw(b) == raw(d));
    REACH();
}
//@ every draw advances the shared generator
WITNESS(r_advances) {
    on_throw = 0;
    pm::set_seed(1);
    uint64_t n0 = pm::global_urng().n;
    pm::rand_float(0, 1);
    uint64_t n1 = pm::global_urng().n;
    pm::rand_float(0, 1);
    CHECK(n1 > n0 && pm::global_urng().n > n1);
    REACH();
}
//@ draws lie in the requested range and depend on the seed
WITNESS(r_range) {
    on_throw = 0;
    for (unsigned s = 0; s < 4; s++) {
        pm::set_seed(s);
        double a = pm::rand_float(0, 1), b = pm::rand_float(2, 4);
        CHECK(a >= 0 && a < 1 && b >= 2 && b < 4);
    }
    pm::set_seed(1);
    double a = pm::rand_float(0, 1);
    pm::set_seed(2);
    CHECK(raw(a) != raw(pm::rand_float(0, 1)));
    REACH();
}
//@ randomize takes its seed from the system
WITNESS(r_randomize) {
    on_throw = 0;
    n_seeds = n_devices = 0;
    pm::randomize();
    CHECK(n_seeds == 1 && n_devices == 1 && last_seed == any_u32<9>());
    REACH();
}
