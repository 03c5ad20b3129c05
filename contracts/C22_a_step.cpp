// C22, inductive: a is in an arbitrary state (all floating-point state, counts and markers havocked; caches
// stale).  Queries, in any number, leave the state that later results depend on and the results unchanged;
// copies (constructed or assigned, before or after a query) agree with the original and are independent of it.
// Bit-exact: floating-point arithmetic is uninterpreted.
#include "hcopy.hpp"
CT(light, c_light)
CT(light2, c_light2)
CT(wlight, c_wlight)
