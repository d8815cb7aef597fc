//! property: R08
//! target: pm::Mwpm reading off the matching (value)
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=8
// Reading off a finished matching: the parity is that of exactly the paths used, the weight the exact sum of all radii;
// the list of matched pairs has exactly one path per matched pair.
#include "extract_util.h"
//@ parity and weight of two plain regions matched to each other
WITNESS(x_pair) { sc_pair<VALUE>(); }
//@ matched pairs of two plain regions matched to each other
WITNESS(xe_pair) { sc_pair<PATHS>(); }
//@ parity and weight of a plain region matched to the boundary
WITNESS(x_boundary) { sc_boundary<VALUE>(); }
//@ matched pairs of a plain region matched to the boundary
WITNESS(xe_boundary) { sc_boundary<PATHS>(); }
//@ parity and weight of a blossom matched to the boundary from its first region
WITNESS(x_bb0) { sc_blossom_boundary<VALUE, 0>(); }
//@ matched pairs of a blossom matched to the boundary from its first region
WITNESS(xe_bb0) { sc_blossom_boundary<PATHS, 0>(); }
//@ parity and weight of a blossom matched to the boundary from its second region
WITNESS(x_bb1) { sc_blossom_boundary<VALUE, 1>(); }
//@ matched pairs of a blossom matched to the boundary from its second region
WITNESS(xe_bb1) { sc_blossom_boundary<PATHS, 1>(); }
//@ parity and weight of a blossom matched to the boundary from its third region
WITNESS(x_bb2) { sc_blossom_boundary<VALUE, 2>(); }
//@ matched pairs of a blossom matched to the boundary from its third region
WITNESS(xe_bb2) { sc_blossom_boundary<PATHS, 2>(); }
//@ parity and weight of a blossom matched to a plain region
WITNESS(x_bp0) { sc_blossom_plain<VALUE, 0, 0>(); }
//@ matched pairs of a blossom matched to a plain region
WITNESS(xe_bp0) { sc_blossom_plain<PATHS, 0, 0>(); }
//@ parity and weight of a blossom matched to a plain region from its third region
WITNESS(x_bp2) { sc_blossom_plain<VALUE, 2, 0>(); }
//@ matched pairs of a blossom matched to a plain region from its third region
WITNESS(xe_bp2) { sc_blossom_plain<PATHS, 2, 0>(); }
//@ parity and weight of a blossom matched to a plain region, read off from the plain side
WITNESS(x_pb1) { sc_blossom_plain<VALUE, 1, 1>(); }
//@ matched pairs of a blossom matched to a plain region, read off from the plain side
WITNESS(xe_pb1) { sc_blossom_plain<PATHS, 1, 1>(); }
//@ parity and weight of two blossoms matched to each other
WITNESS(x_bl_bl) { sc_blossom_blossom<VALUE>(); }
//@ matched pairs of two blossoms matched to each other
WITNESS(xe_bl_bl) { sc_blossom_blossom<PATHS>(); }
//@ parity and weight of a five-cycle matched to the boundary
WITNESS(x_five0) { sc_five_boundary<VALUE, 0>(); }
//@ matched pairs of a five-cycle matched to the boundary
WITNESS(xe_five0) { sc_five_boundary<PATHS, 0>(); }
//@ parity and weight of a five-cycle matched to the boundary from its fourth region
WITNESS(x_five3) { sc_five_boundary<VALUE, 3>(); }
//@ matched pairs of a five-cycle matched to the boundary from its fourth region
WITNESS(xe_five3) { sc_five_boundary<PATHS, 3>(); }
//@ parity and weight of a nested blossom matched from inside
WITNESS(x_nest_in) { sc_nested_boundary<VALUE, 0>(); }
//@ matched pairs of a nested blossom matched from inside
WITNESS(xe_nest_in) { sc_nested_boundary<PATHS, 0>(); }
//@ parity and weight of a nested blossom matched from the outer cycle
WITNESS(x_nest_out) { sc_nested_boundary<VALUE, 1>(); }
//@ matched pairs of a nested blossom matched from the outer cycle
WITNESS(xe_nest_out) { sc_nested_boundary<PATHS, 1>(); }
//@ results add up: parities XOR, weights add in 64 bits
WITNESS(x_results_add) {
    MatchingResult a(O(1), T(2)), b(O(3), T(4));
    MatchingResult c = a + b;
    CHECK(c.obs_mask == (O(1) ^ O(3)) && c.weight == T(2) + T(4));
    CHECK(a.obs_mask == O(1) && a.weight == T(2) && b.obs_mask == O(3) && b.weight == T(4));
    a += b;
    CHECK(a.obs_mask == (O(1) ^ O(3)) && a.weight == T(2) + T(4));
    MatchingResult z;
    CHECK(z.obs_mask == 0 && z.weight == 0);
    REACH();
}
//@ results are equal exactly when parity and weight are
WITNESS(x_results_equal) {
    MatchingResult a(O(1), T(2)), b(O(3), T(4));
    CHECK((a == b) == (O(1) == O(3) && T(2) == T(4)));
    CHECK((a != b) == !(O(1) == O(3) && T(2) == T(4)));
    REACH();
}
//! property: R07
//@ nothing is left behind by two plain regions matched to each other
WITNESS(xc_pair) { sc_pair<CLEAN>(); }
//@ nothing is left behind by two plain regions matched to each other (list of pairs)
WITNESS(xce_pair) { sc_pair<CLEAN_PATHS>(); }
//@ nothing is left behind by a plain region matched to the boundary
WITNESS(xc_boundary) { sc_boundary<CLEAN>(); }
//@ nothing is left behind by a plain region matched to the boundary (list of pairs)
WITNESS(xce_boundary) { sc_boundary<CLEAN_PATHS>(); }
//@ nothing is left behind by a blossom matched to the boundary from its first region
WITNESS(xc_bb0) { sc_blossom_boundary<CLEAN, 0>(); }
//@ nothing is left behind by a blossom matched to the boundary from its first region (list of pairs)
WITNESS(xce_bb0) { sc_blossom_boundary<CLEAN_PATHS, 0>(); }
//@ nothing is left behind by a blossom matched to the boundary from its second region
WITNESS(xc_bb1) { sc_blossom_boundary<CLEAN, 1>(); }
//@ nothing is left behind by a blossom matched to the boundary from its second region (list of pairs)
WITNESS(xce_bb1) { sc_blossom_boundary<CLEAN_PATHS, 1>(); }
//@ nothing is left behind by a blossom matched to the boundary from its third region
WITNESS(xc_bb2) { sc_blossom_boundary<CLEAN, 2>(); }
//@ nothing is left behind by a blossom matched to the boundary from its third region (list of pairs)
WITNESS(xce_bb2) { sc_blossom_boundary<CLEAN_PATHS, 2>(); }
//@ nothing is left behind by a blossom matched to a plain region
WITNESS(xc_bp0) { sc_blossom_plain<CLEAN, 0, 0>(); }
//@ nothing is left behind by a blossom matched to a plain region (list of pairs)
WITNESS(xce_bp0) { sc_blossom_plain<CLEAN_PATHS, 0, 0>(); }
//@ nothing is left behind by a blossom matched to a plain region from its third region
WITNESS(xc_bp2) { sc_blossom_plain<CLEAN, 2, 0>(); }
//@ nothing is left behind by a blossom matched to a plain region from its third region (list of pairs)
WITNESS(xce_bp2) { sc_blossom_plain<CLEAN_PATHS, 2, 0>(); }
//@ nothing is left behind by a blossom matched to a plain region, read off from the plain side
WITNESS(xc_pb1) { sc_blossom_plain<CLEAN, 1, 1>(); }
//@ nothing is left behind by a blossom matched to a plain region, read off from the plain side (list of pairs)
WITNESS(xce_pb1) { sc_blossom_plain<CLEAN_PATHS, 1, 1>(); }
//@ nothing is left behind by two blossoms matched to each other
WITNESS(xc_bl_bl) { sc_blossom_blossom<CLEAN>(); }
//@ nothing is left behind by two blossoms matched to each other (list of pairs)
WITNESS(xce_bl_bl) { sc_blossom_blossom<CLEAN_PATHS>(); }
//@ nothing is left behind by a five-cycle matched to the boundary
WITNESS(xc_five0) { sc_five_boundary<CLEAN, 0>(); }
//@ nothing is left behind by a five-cycle matched to the boundary (list of pairs)
WITNESS(xce_five0) { sc_five_boundary<CLEAN_PATHS, 0>(); }
//@ nothing is left behind by a five-cycle matched to the boundary from its fourth region
WITNESS(xc_five3) { sc_five_boundary<CLEAN, 3>(); }
//@ nothing is left behind by a five-cycle matched to the boundary from its fourth region (list of pairs)
WITNESS(xce_five3) { sc_five_boundary<CLEAN_PATHS, 3>(); }
//@ nothing is left behind by a nested blossom matched from inside
WITNESS(xc_nest_in) { sc_nested_boundary<CLEAN, 0>(); }
//@ nothing is left behind by a nested blossom matched from inside (list of pairs)
WITNESS(xce_nest_in) { sc_nested_boundary<CLEAN_PATHS, 0>(); }
//@ nothing is left behind by a nested blossom matched from the outer cycle
WITNESS(xc_nest_out) { sc_nested_boundary<CLEAN, 1>(); }
//@ nothing is left behind by a nested blossom matched from the outer cycle (list of pairs)
WITNESS(xce_nest_out) { sc_nested_boundary<CLEAN_PATHS, 1>(); }
