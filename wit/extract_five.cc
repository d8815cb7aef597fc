//! property: R08
//! target: pm::Mwpm reading off the matching (value)
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=8
// Reading off the remaining members of a five-cycle.
#include "extract_util.h"
//@ parity and weight, five-cycle from member 1
WITNESS(y_five1) { sc_five_boundary<VALUE, 1>(); }
//@ parity and weight, five-cycle from member 2
WITNESS(y_five2) { sc_five_boundary<VALUE, 2>(); }
//@ parity and weight, five-cycle from member 4
WITNESS(y_five4) { sc_five_boundary<VALUE, 4>(); }
//@ matched pairs, five-cycle from member 1
WITNESS(ye_five1) { sc_five_boundary<PATHS, 1>(); }
//@ matched pairs, five-cycle from member 2
WITNESS(ye_five2) { sc_five_boundary<PATHS, 2>(); }
//@ matched pairs, five-cycle from member 4
WITNESS(ye_five4) { sc_five_boundary<PATHS, 4>(); }
//! property: R07
//@ nothing left behind, five-cycle from member 1
WITNESS(yc_five1) { sc_five_boundary<CLEAN, 1>(); }
//@ nothing left behind, five-cycle from member 2
WITNESS(yc_five2) { sc_five_boundary<CLEAN, 2>(); }
//@ nothing left behind, five-cycle from member 4
WITNESS(yc_five4) { sc_five_boundary<CLEAN, 4>(); }
//@ nothing left behind, five-cycle from member 1
WITNESS(yce_five1) { sc_five_boundary<CLEAN_PATHS, 1>(); }
//@ nothing left behind, five-cycle from member 2
WITNESS(yce_five2) { sc_five_boundary<CLEAN_PATHS, 2>(); }
//@ nothing left behind, five-cycle from member 4
WITNESS(yce_five4) { sc_five_boundary<CLEAN_PATHS, 4>(); }
