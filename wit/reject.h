// Witnesses about rejected inputs.  The repository's throw calls vp_thrown; a witness file that includes this header
// defines it: every witness sets on_throw (an int) and the file's AT_THROW(on_throw) macro body states what must hold
// at the moment of the throw.  ACCEPTED() marks code that must be unreachable because the input must be rejected.
#pragma once
#include "wit.h"
extern "C" [[noreturn]] void vp_stop();
static int on_throw;
__attribute__((always_inline)) static inline void at_throw(int mode);
extern "C" [[noreturn]] void vp_thrown() {
    if (on_throw == 0)
        CHECK(!"legal input rejected");
    else
        at_throw(on_throw);
    vp_reach(1);
    vp_stop();
}
#define ACCEPTED() CHECK(!"input must be rejected")
