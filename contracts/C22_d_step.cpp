// C22, inductive: a is in an arbitrary state (all floating-point state, counts and markers havocked; caches
// stale).  Queries, in any number, leave the state that later results depend on and the results unchanged;
// copies (constructed or assigned, before or after a query) agree with the original and are independent of it.
// Bit-exact: floating-point arithmetic is uninterpreted.
#include "hcopy.hpp"
CH(xpsq, c_xpsq)
CH(wxpsq, c_wxpsq)
CS(xq, c_xq)
CS(xqq, c_xqq)
