// C26, std::vector samples: from any state, one sample acts on each component as the scalar accumulator
// would (bit for bit; dimension 2 — the components never interact, see DESIGN).
#include "hvecstep.hpp"
typedef std::vector<double> V; typedef std::vector<int> VI;
OB(step_vector) LISTS((vl<V, tag::sum>), (vl<V, tag::mean>), (vl<V, tag::immediate_mean>), (vl<V, tag::min, tag::max>), (vl<V, tag::moment<2> >), (vl<V, tag::moment<3> >), (vl<V, tag::variance, tag::immediate_mean>), (vl<V, tag::lazy_variance>), (vl<V, tag::sum_kahan>), (vl<V, MOV(V)>), (vl<V, tag::immediate_mean_of_variates<V, tag::covariate1> >), (vl<V, tag::mean, MOV(V), COV(V)>))
OB(step_vector_int) LISTS((vl<VI, tag::sum>), (vl<VI, tag::mean>), (vl<VI, tag::immediate_mean>), (vl<VI, tag::min, tag::max>), (vl<VI, tag::variance, tag::immediate_mean>), (vl<VI, MOV(VI)>), (vl<VI, tag::mean, MOV(VI), COV(VI)>), (vl<VI, tag::moment<2> >), (vl<VI, tag::lazy_variance>))
OB(step_vector_weighted) LISTS((wl<V, double, tag::weighted_sum>), (wl<V, double, tag::weighted_mean>), (wl<V, double, tag::immediate_weighted_mean>), (wl<V, double, tag::weighted_variance, tag::immediate_weighted_mean>), (wl<V, double, tag::lazy_weighted_variance>), (wl<V, double, tag::weighted_moment<2> >), (wl<V, double, tag::weighted_sum_kahan>), (wl<V, double, tag::weighted_mean_of_variates<V, tag::covariate1> >), (wl<V, double, tag::weighted_mean, tag::weighted_mean_of_variates<V, tag::covariate1>, tag::weighted_covariance<V, tag::covariate1> >))
OB(step_vector_mixed_weighted) LISTS((wl<VI, double, tag::weighted_sum>), (wl<VI, double, tag::weighted_mean>), (wl<VI, int, tag::weighted_sum>), (wl<VI, int, tag::weighted_mean>), (wl<V, int, tag::weighted_mean>), (wl<VI, int, tag::immediate_weighted_mean>), (wl<VI, double, tag::immediate_weighted_mean>), (wl<VI, int, tag::weighted_variance, tag::immediate_weighted_mean>), (wl<VI, int, tag::weighted_moment<2> >))
