// C22, inductive: a is in an arbitrary state (all floating-point state, counts and markers havocked; caches
// stale).  Queries, in any number, leave the state that later results depend on and the results unchanged;
// copies (constructed or assigned, before or after a query) agree with the original and are independent of it.
// Bit-exact: floating-point arithmetic is uninterpreted.
#include "hcopy.hpp"
CH(psq, c_psq)
CH(wpsq, c_wpsq)
CH(median, c_med)
CH(wmedian, c_wmed)
CT(cdf, c_cdf)
CT(wcdf, c_wcdf)
CR(cmedian, c_cmed)
CR(wcmedian, c_wcmed)
