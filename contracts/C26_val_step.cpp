// C26, std::valarray samples (see C26_vec_step.cpp).
#include "hvecstep.hpp"
typedef std::valarray<double> A; typedef std::valarray<int> AI;
OB(step_valarray) LISTS((vl<A, tag::sum>), (vl<A, tag::mean>), (vl<A, tag::immediate_mean>), (vl<A, tag::min, tag::max>), (vl<A, tag::moment<2> >), (vl<A, tag::moment<3> >), (vl<A, tag::variance, tag::immediate_mean>), (vl<A, tag::lazy_variance>), (vl<A, tag::sum_kahan>), (vl<A, MOV(A)>), (vl<A, tag::immediate_mean_of_variates<A, tag::covariate1> >))
OB(step_valarray_int) LISTS((vl<AI, tag::sum>), (vl<AI, tag::mean>), (vl<AI, tag::immediate_mean>), (vl<AI, tag::min, tag::max>), (vl<AI, MOV(AI)>), (vl<AI, tag::moment<2> >))
OB(step_valarray_weighted) LISTS((wl<A, double, tag::weighted_sum>), (wl<A, double, tag::weighted_mean>), (wl<A, double, tag::immediate_weighted_mean>), (wl<A, double, tag::weighted_variance, tag::immediate_weighted_mean>), (wl<A, double, tag::lazy_weighted_variance>), (wl<A, double, tag::weighted_moment<2> >), (wl<A, double, tag::weighted_sum_kahan>), (wl<A, double, tag::weighted_mean_of_variates<A, tag::covariate1> >))
OB(step_valarray_mixed_weighted) LISTS((wl<AI, double, tag::weighted_sum>), (wl<AI, double, tag::weighted_mean>), (wl<AI, int, tag::weighted_sum>), (wl<AI, int, tag::weighted_mean>), (wl<A, int, tag::weighted_mean>), (wl<AI, int, tag::immediate_weighted_mean>), (wl<AI, double, tag::immediate_weighted_mean>))
