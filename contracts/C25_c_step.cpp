// C25, inductive (see C25_a_step.cpp)
#include "hserstep.hpp"
S(tail_left, c_tail<left>) S(tail_right, c_tail<right>) S(tail_quantile_left, s_tq<left>) S(tail_quantile_right, s_tq<right>) S(tail_weights_left, s_wtail<left>) S(tail_weights_right, s_wtail<right>) S(tail_variate_means_left, s_tvm<left>) S(tail_variate_means_right, s_tvm<right>)
S(pot_left, c_pot<left>) S(pot_right, c_pot<right>) S(wpot_left, c_wpot<left>) S(wpot_right, c_wpot<right>) S(pot_probability_left, c_potp<left>) S(pot_probability_right, c_potp<right>)
