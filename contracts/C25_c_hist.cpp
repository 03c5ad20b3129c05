// flags: -fexceptions
// libs: -lboost_serialization
#include "hserhist.hpp"
CT(tail_left, 3, c_tail<left>) CT(tail_right, 3, c_tail<right>) CT(tail_quantile_left, 2, s_tq<left>) CT(tail_quantile_right, 2, s_tq<right>) CT(tail_weights_left, 2, s_wtail<left>) CT(tail_weights_right, 2, s_wtail<right>) CT(tail_variate_means_left, 2, s_tvm<left>) CT(tail_variate_means_right, 2, s_tvm<right>)
CT(pot_left, 3, c_pot<left>) CT(pot_right, 3, c_pot<right>) CT(wpot_left, 3, c_wpot<left>) CT(wpot_right, 3, c_wpot<right>) CT(pot_probability_left, 2, c_potp<left>) CT(pot_probability_right, 2, c_potp<right>)
