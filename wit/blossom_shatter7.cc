//! property: R06
//! target: pm::Mwpm blossom formation and dissolution
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=8
// Shattering for cycles of seven.
#include "tree_util.h"

#include "shatter.h"
//@ shatter 7-cycle, 2 and 5
WITNESS(b_shatter7_25) { shatter7<2, 5>(); }
//@ shatter 7-cycle, 6 and 1
WITNESS(b_shatter7_61) { shatter7<6, 1>(); }
//@ shatter 7-cycle, 0 and 6
WITNESS(b_shatter7_06) { shatter7<0, 6>(); }
//@ shatter 7-cycle, 5 and 3
WITNESS(b_shatter7_53) { shatter7<5, 3>(); }
//@ shatter 7-cycle, 3 and 3
WITNESS(b_shatter7_33) { shatter7<3, 3>(); }
