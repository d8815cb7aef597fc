// Vocabulary of the witnesses.
//
//   any*<K>()      an unconstrained input, named K (the optimiser knows nothing about it)
//   ASSUME(c)      precondition
//   CHECK(c)       obligation: the optimiser must prove the failure branch dead, otherwise a call to vp_fail
//                  with this line number survives in the optimised module
//   REACH()        the optimiser must NOT be able to prove this point dead (keeps the witness non-vacuous)
#pragma once
#include <cstdint>
#include <cstddef>
#include <new>
#include <utility>
extern "C" {
uint64_t vp_any(int) __attribute__((const, nothrow, leaf));
int64_t vp_time(int) __attribute__((const, nothrow, leaf));
uint32_t vp_small(int) __attribute__((const, nothrow, leaf));
double vp_double(int) __attribute__((const, nothrow, leaf));
void vp_fail(int) __attribute__((nothrow));
void vp_reach(int) __attribute__((nothrow));
void vp_sink(int, uint64_t) __attribute__((nothrow));
}
#define CHECK(...)             \
    do {                       \
        if (!(__VA_ARGS__))    \
            vp_fail(__LINE__); \
    } while (0)
// Two growing fronts meet at half their distance.  Distances are even there (weights are doubled when a graph is built), so
// how an odd one would be rounded is nobody's business: an obligation that names d/2 only speaks about even d.
#define CHECK_HALF(d, ...) CHECK((((d) & 1) != 0) || (__VA_ARGS__))
#define ASSUME(...)                  \
    do {                             \
        if (!(__VA_ARGS__))          \
            __builtin_unreachable(); \
    } while (0)
#define REACH() vp_reach(__LINE__)
#define WITNESS(name) extern "C" void name()

template <int K>
inline uint64_t any_u64() {
    return vp_any(K);
}
// Signed quantity of at most 44 bits: the range in which times, radii and total weights live.
template <int K>
inline int64_t any_time() {
    return vp_time(K);
}
// Even edge weight (any 30-bit half).
template <int K>
inline uint32_t any_even() {
    return vp_small(K) << 1;
}
inline int64_t time_at(int k) {
    return vp_time(k);
}
template <int K>
inline uint32_t any_u32() {
    return (uint32_t)vp_any(K);
}
template <int K, class T>
inline T* any_ptr() {
    return (T*)vp_any(K);
}
template <class T>
struct Raw {
    alignas(T) unsigned char b[sizeof(T)];
};
// A live object that is never destroyed (its destructor is not part of what is analysed).
#define OBJ(T, name, ...)              \
    Raw<T> name##_raw;                 \
    T& name = *new (name##_raw.b) T { __VA_ARGS__ }
// Byte snapshot of an object: .same() is true iff no byte changed since.
template <class T>
struct Snap {
    const T* p;
    Raw<T> r;
    explicit Snap(const T& t) : p(&t) {
        __builtin_memcpy(r.b, &t, sizeof(T));
    }
    bool same() const {
        const unsigned char* q = (const unsigned char*)p;
        bool ok = true;
#pragma clang loop unroll(full)
        for (size_t i = 0; i + 8 <= sizeof(T); i += 8) {
            uint64_t x, y;
            __builtin_memcpy(&x, q + i, 8);
            __builtin_memcpy(&y, r.b + i, 8);
            ok = ok & (x == y);
        }
#pragma clang loop unroll(full)
        for (size_t i = sizeof(T) / 8 * 8; i < sizeof(T); i++)
            ok = ok & (q[i] == r.b[i]);
        return ok;
    }
};
