// C25, inductive: from an arbitrary state (every floating-point word and count arbitrary) a set is saved and
// loaded into another set built with the same parameters, fresh or used: afterwards the two hold the same state
// (word for word, vectors and ring buffers by contents), so every result and every later history agree.
#include "hserstep.hpp"
S(light, c_light) S(light2, s_light2) S(wlight, s_wlight) S(variates, s_var) S(immediate_variates, s_ivar) S(wvariates, s_wvar) S(int_samples, s_int) S(vector_samples, s_vec)
S(rolling, c_roll) S(lazy_rolling, c_lroll) S(density, c_dens) S(wdensity, c_wdens)
