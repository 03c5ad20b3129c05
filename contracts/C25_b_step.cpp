// C25, inductive (see C25_a_step.cpp)
#include "hserstep.hpp"
S(p_square, c_psq) S(wp_square, c_wpsq) S(xp_square, c_xpsq) S(wxp_square, c_wxpsq) S(xp_square_quantile, c_xq) S(xp_square_quadratic, c_xqq) S(distribution, c_cdf) S(wdistribution, c_wcdf) S(median, c_med) S(density_median, c_dmed) S(wdensity_median, c_wdmed) S(distribution_median, c_cmed) S(wdistribution_median, c_wcmed)
