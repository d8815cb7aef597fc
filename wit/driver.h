// Shared by the witnesses about the driver.
#pragma once
#include "mw.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"
template <int K>
inline double any_d() {
    return vp_double(K);
}
inline bool bits(double a, double b) {
    uint64_t x, y;
    __builtin_memcpy(&x, &a, 8);
    __builtin_memcpy(&y, &b, 8);
    return x == y;
}
template <int K>
inline size_t any_obs() {
    size_t o = any_u64<K>();
    ASSUME(o < ((size_t)1 << 60));
    return o;
}
// The flag that makes the next decoding rebuild the decoder, where the tree keeps it under this name.
template <class G>
inline void mark_built(G& g) {
    if constexpr (requires { g._mwpm_needs_updating = false; })
        g._mwpm_needs_updating = false;
}
template <class G>
inline bool rebuilds(G& g) {
    if constexpr (requires { (bool)g._mwpm_needs_updating; })
        return g._mwpm_needs_updating;
    else
        return true;
}
inline size_t later(size_t a, size_t b) {
    return a > b ? a : b;
}
