// C22, inductive: a is in an arbitrary state (all floating-point state, counts and markers havocked; caches
// stale).  Queries, in any number, leave the state that later results depend on and the results unchanged;
// copies (constructed or assigned, before or after a query) agree with the original and are independent of it.
// Bit-exact: floating-point arithmetic is uninterpreted.
#include "hcopy.hpp"
CT(pot_left, c_pot<left>)
CT(pot_right, c_pot<right>)
CT(wpot_left, c_wpot<left>)
CT(wpot_right, c_wpot<right>)
