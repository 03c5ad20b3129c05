// C19: medians as functions of their estimator's (arbitrary) state, queried before and after a sample
#include "hmed.hpp"
OB(step_p_square_median) {
  accumulator_set<double, stats<tag::median> > acc; auto& a = st<tag::p_square_quantile_for_median>(acc);
  vs_check_eq(a.p, 0.5, "median.probability"); double inc[5] = {0, 0.25, 0.5, 0.75, 1}; for (int i = 0; i < 5; ++i) vs_check_eq(a.positions_increments[i], inc[i], "median.increments");
  double h[5]; for (int i = 0; i < 5; ++i) a.heights[i] = h[i] = vs_real("h");
  vs_check_eq(median(acc), h[2], "median.post"); vs_check_eq(median(acc), h[2], "median.pure"); vs_check_eq(p_square_quantile_for_median(acc), h[2], "median.estimator"); vs_cover("end");
}
OB(step_p_square_weighted_median) {
  accumulator_set<double, stats<tag::weighted_median>, double> acc; auto& a = st<tag::weighted_p_square_quantile_for_median>(acc);
  vs_check_eq(a.p, 0.5, "weighted_median.probability");
  double h[5]; for (int i = 0; i < 5; ++i) a.heights[i] = h[i] = vs_real("h");
  vs_check_eq(weighted_median(acc), h[2], "weighted_median.post"); vs_check_eq(median(acc), h[2], "weighted_median.pure"); vs_cover("end");
}
template<class DTag, bool WT, class A> static void dens(A& acc, int nb) {
  vs_flag("nlskip", 1);
  auto& a = st<DTag>(acc); long cnt = vs_int("cnt", 1, CNT_MAX); double lo = vs_real("lo"), bs = vs_real("bs"), tot = 0; vs_assume_lt(0, bs);
  for (int i = 0; i < nb + 2; ++i) { double s; if (i == nb + 1 && !WT) s = (double)cnt - tot; else s = vs_real("s"); vs_assume_le(0, s); tot += s; a.samples_in_bin[i] = s; a.bin_positions[i] = lo + (i - 1.) * bs; }
  st<tag::count>(acc).cnt = cnt; double mx = vs_real("mx"); vs_assume_le(lo + nb * bs, mx); st<tag::max>(acc).max_ = mx; st<tag::min>(acc).min_ = lo;
  if constexpr (WT) { vs_assume_lt(0, tot); st<tag::sum_of_weights>(acc).sum = tot; }
  if (vs_choose("query-first", 2)) (void)median(acc);
  double x = vs_real("x"); if constexpr (WT) acc(x, weight = w_in("w")); else acc(x);
  double m = median(acc), r = ref_density_median(density(acc), nb + 2, (max)(acc));
  vs_check_eq(m, r, "density_median.post"); vs_check_eq(median(acc), r, "density_median.pure"); vs_cover("end");
}
#define D(nb) OB(step_density_median_nb##nb) { accumulator_set<double, stats<tag::median(with_density)> > acc(density_cache_size = 1, density_num_bins = nb); dens<tag::density, false>(acc, nb); } \
  OB(step_density_weighted_median_nb##nb) { accumulator_set<double, stats<tag::weighted_median(with_density)>, double> acc(density_cache_size = 1, density_num_bins = nb); dens<tag::weighted_density, true>(acc, nb); }
D(1) D(2) D(3)
template<class PTag, bool WT, class A> static void cdf(A& acc, int b) {
  vs_flag("nlskip", 1);
  auto& a = st<PTag>(acc); long cnt = vs_int("cnt", b + 1, CNT_MAX); double h[6], n[6];
  for (int i = 0; i <= b; ++i) {
    h[i] = vs_real("h"); n[i] = !WT && i == 0 ? 1. : !WT && i == b ? (double)cnt : vs_real("n"); 
    if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } else vs_assume_lt(0, n[0]);
    a.heights[i] = h[i]; a.actual_positions[i] = n[i]; a.desired_positions[i] = n[i];
  }
  st<tag::count>(acc).cnt = cnt; if constexpr (WT) st<tag::sum_of_weights>(acc).sum = n[b];
  if (vs_choose("query-first", 2)) (void)median(acc);
  double x = vs_real("x"); if constexpr (WT) acc(x, weight = w_in("w")); else acc(x);
  double m = median(acc), r = ref_cdf_median(extractor<PTag>()(acc), b + 1);
  vs_check_eq(m, r, "cdf_median.post"); vs_check_eq(median(acc), r, "cdf_median.pure"); vs_cover("end");
}
#define P(b) OB(step_cdf_median_b##b) { accumulator_set<double, stats<tag::median(with_p_square_cumulative_distribution)> > acc(p_square_cumulative_distribution_num_cells = b); cdf<tag::p_square_cumulative_distribution, false>(acc, b); } \
  OB(step_cdf_weighted_median_b##b) { accumulator_set<double, stats<tag::weighted_median(with_p_square_cumulative_distribution)>, double> acc(p_square_cumulative_distribution_num_cells = b); cdf<tag::weighted_p_square_cumulative_distribution, true>(acc, b); }
P(1) P(2)
// between the markers around one half
OB(lem_cdf_median_range) { double f0 = vs_real("f"), f1 = vs_real("f"), h0 = vs_real("h"), h1 = vs_real("h"); vs_assume_lt(f0, 0.5); vs_assume_le(0.5, f1); vs_assume_le(h0, h1);
  std::pair<double, double> r[2] = {{h0, f0}, {h1, f1}}; double m = ref_cdf_median(r, 2); vs_check_le(h0, m, "cdf_median.lower"); vs_check_le(m, h1, "cdf_median.upper"); vs_cover("end"); }
