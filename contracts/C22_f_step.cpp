// C22, inductive: a is in an arbitrary state (all floating-point state, counts and markers havocked; caches
// stale).  Queries, in any number, leave the state that later results depend on and the results unchanged;
// copies (constructed or assigned, before or after a query) agree with the original and are independent of it.
// Bit-exact: floating-point arithmetic is uninterpreted.
#include "hcopy.hpp"
CR(tail_left, c_tail<left>)
CR(tail_right, c_tail<right>)
CR(tq_left, c_tq<left>)
CR(tq_right, c_tq<right>)
CU(wtq_left, c_wtq<left>)
CU(wtq_right, c_wtq<right>)
CU(potp_left, c_potp<left>)
CU(potp_right, c_potp<right>)
CU(wpotp_left, c_wpotp<left>)
CU(wpotp_right, c_wpotp<right>)
