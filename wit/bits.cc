//! property: R13
//! target: pm::bit_vector_to_obs_mask
//! units: driver
//! defs: -DVP_CAP=40
#include "wit.h"
#include "reject.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
inline void at_throw(int mode) {
}
//@ bit arrays convert to masks at every position
WITNESS(d_mask_of_bits) {
    on_throw = 0;
    std::vector<uint8_t> v;
    v.vp_n = 40;
    for (int i = 0; i < 40; i++)
        v.p()[i] = 0;
    v.p()[0] = any_u64<1>() & 1;
    v.p()[31] = any_u64<2>() & 1;
    v.p()[32] = any_u64<3>() & 1;
    v.p()[39] = any_u64<4>() & 1;
    CHECK(pm::bit_vector_to_obs_mask(v) == ((any_u64<1>() & 1) | (any_u64<2>() & 1) << 31 | (any_u64<3>() & 1) << 32 | (any_u64<4>() & 1) << 39));
    REACH();
}
WITNESS(d_mask_of_few_bits) {
    on_throw = 0;
    std::vector<uint8_t> v;
    v.push_back(any_u64<1>() & 1);
    v.push_back(any_u64<2>() & 1);
    CHECK(pm::bit_vector_to_obs_mask(v) == ((any_u64<1>() & 1) | (any_u64<2>() & 1) << 1));
    REACH();
}
