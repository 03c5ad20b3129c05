// flags: -fexceptions
// libs: -lboost_serialization
#include "hserhist.hpp"
CT(p_square, 3, c_psq) CT(wp_square, 3, c_wpsq) CT(xp_square, 3, c_xpsq) CT(wxp_square, 3, c_wxpsq) CT(xp_square_quantile, 3, c_xq) CT(xp_square_quadratic, 3, c_xqq) CT(distribution, 3, c_cdf) CT(wdistribution, 3, c_wcdf) CT(median, 3, c_med) CT(density_median, 3, c_dmed, false) CT(wdensity_median, 2, c_wdmed, false) CT(distribution_median, 3, c_cmed, false) CT(wdistribution_median, 3, c_wcmed, false)
