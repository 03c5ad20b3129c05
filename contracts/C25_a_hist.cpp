// flags: -fexceptions
// libs: -lboost_serialization
#include "hserhist.hpp"
CT(light, 2, c_light) CT(light2, 2, s_light2) CT(wlight, 2, s_wlight) CT(variates, 2, s_var) CT(immediate_variates, 2, s_ivar) CT(wvariates, 2, s_wvar) CT(int_samples, 2, s_int) CT(vector_samples, 2, s_vec)
CT(rolling, 3, c_roll) CT(lazy_rolling, 3, c_lroll) CT(density, 3, c_dens) CT(wdensity, 2, c_wdens)
