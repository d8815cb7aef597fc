//! property: R06
//! target: pm::Mwpm blossom formation and dissolution
//! defs: -DVP_COLLAPSE_ARRAY
// Shattering for every (parent, child) position of cycles of three and five.
#include "tree_util.h"

#include "shatter.h"
//@ shatter 3-cycle, 1 and 1
WITNESS(b_shatter3_11) { shatter3<1, 1>(); }
//@ shatter 3-cycle, 1 and 2
WITNESS(b_shatter3_12) { shatter3<1, 2>(); }
//@ shatter 3-cycle, 2 and 0
WITNESS(b_shatter3_20) { shatter3<2, 0>(); }
//@ shatter 5-cycle, 0 and 0
WITNESS(b_shatter5_00) { shatter5<0, 0>(); }
//@ shatter 5-cycle, 0 and 1
WITNESS(b_shatter5_01) { shatter5<0, 1>(); }
//@ shatter 5-cycle, 0 and 2
WITNESS(b_shatter5_02) { shatter5<0, 2>(); }
//@ shatter 5-cycle, 0 and 3
WITNESS(b_shatter5_03) { shatter5<0, 3>(); }
//@ shatter 5-cycle, 1 and 0
WITNESS(b_shatter5_10) { shatter5<1, 0>(); }
//@ shatter 5-cycle, 1 and 3
WITNESS(b_shatter5_13) { shatter5<1, 3>(); }
//@ shatter 5-cycle, 1 and 4
WITNESS(b_shatter5_14) { shatter5<1, 4>(); }
//@ shatter 5-cycle, 2 and 0
WITNESS(b_shatter5_20) { shatter5<2, 0>(); }
//@ shatter 5-cycle, 2 and 1
WITNESS(b_shatter5_21) { shatter5<2, 1>(); }
//@ shatter 5-cycle, 2 and 2
WITNESS(b_shatter5_22) { shatter5<2, 2>(); }
//@ shatter 5-cycle, 2 and 3
WITNESS(b_shatter5_23) { shatter5<2, 3>(); }
//@ shatter 5-cycle, 2 and 4
WITNESS(b_shatter5_24) { shatter5<2, 4>(); }
//@ shatter 5-cycle, 3 and 1
WITNESS(b_shatter5_31) { shatter5<3, 1>(); }
//@ shatter 5-cycle, 3 and 2
WITNESS(b_shatter5_32) { shatter5<3, 2>(); }
//@ shatter 5-cycle, 3 and 3
WITNESS(b_shatter5_33) { shatter5<3, 3>(); }
//@ shatter 5-cycle, 3 and 4
WITNESS(b_shatter5_34) { shatter5<3, 4>(); }
//@ shatter 5-cycle, 4 and 0
WITNESS(b_shatter5_40) { shatter5<4, 0>(); }
//@ shatter 5-cycle, 4 and 1
WITNESS(b_shatter5_41) { shatter5<4, 1>(); }
//@ shatter 5-cycle, 4 and 3
WITNESS(b_shatter5_43) { shatter5<4, 3>(); }
//@ shatter 5-cycle, 4 and 4
WITNESS(b_shatter5_44) { shatter5<4, 4>(); }
