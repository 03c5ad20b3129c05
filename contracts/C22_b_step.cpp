// C22, inductive: a is in an arbitrary state (all floating-point state, counts and markers havocked; caches
// stale).  Queries, in any number, leave the state that later results depend on and the results unchanged;
// copies (constructed or assigned, before or after a query) agree with the original and are independent of it.
// Bit-exact: floating-point arithmetic is uninterpreted.
#include "hcopy.hpp"
CT(roll, c_roll)
CT(lroll, c_lroll)
CT(density, c_dens)
CT(wdensity, c_wdens)
CR(dmedian, c_dmed)
CR(wdmedian, c_wdmed)
