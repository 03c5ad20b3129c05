// C19: medians through the public interface, queried at arbitrary moments
#include "hmed.hpp"
template<bool WT, class A> static double push(A& acc) { double x = vs_real("x"); if constexpr (WT) acc(x, weight = w_in("w")); else acc(x); return x; }
template<bool WT, class A> static void dens(A& acc, int nb, int k) {
  long n = vs_len("n", k, k > 3 ? k : 3, 40);
  for (long i = 0; i < n; ++i) { (void)push<WT>(acc); if (i < k - 1 || (i < n - 1 && vs_choose("q", 2))) continue;
    double m = median(acc), r = ref_density_median(density(acc), nb + 2, (max)(acc), !WT && ((i + 1) & i) == 0); vs_check_eq(m, r, "density_median"); vs_check_eq(median(acc), r, "density_median.pure"); }
  vs_cover("end");
}
template<class PTag, bool WT, class A> static void cdf(A& acc, int b) {
  vs_flag("nlskip", 1); long n = vs_len("n", b + 1, b + 1, 40); double lo = 0, hi = 0;
  for (long i = 0; i < n; ++i) { double x = push<WT>(acc); lo = i && lo < x ? lo : x; hi = i && hi > x ? hi : x; if (i < b || (i < n - 1 && vs_choose("q", 2))) continue;
    double m = median(acc), r = ref_cdf_median(extractor<PTag>()(acc), b + 1); vs_check_eq(m, r, "cdf_median"); vs_check_eq(median(acc), r, "cdf_median.pure"); vs_check_le(lo, m, "cdf_median.min"); vs_check_le(m, hi, "cdf_median.max"); }
  vs_cover("end");
}
OB(hist_density) { int nb = 1 + vs_choose("nb", vs_native() ? 10 : 2), k = 1 + vs_choose("k", vs_native() ? 6 : 2); accumulator_set<double, stats<tag::median(with_density)> > a(density_cache_size = k, density_num_bins = nb); dens<false>(a, nb, k); }
OB(hist_density_weighted) { int nb = 1 + vs_choose("nb", vs_native() ? 10 : 2), k = 1 + vs_choose("k", vs_native() ? 6 : 2); vs_flag("nlskip", 1); accumulator_set<double, stats<tag::weighted_median(with_density)>, double> a(density_cache_size = k, density_num_bins = nb); dens<true>(a, nb, k); }
OB(hist_cdf) { int b = 1 + vs_choose("b", vs_native() ? 8 : 2); accumulator_set<double, stats<tag::median(with_p_square_cumulative_distribution)> > a(p_square_cumulative_distribution_num_cells = b); cdf<tag::p_square_cumulative_distribution, false>(a, b); }
OB(hist_cdf_weighted) { int b = 1 + vs_choose("b", vs_native() ? 8 : 2); accumulator_set<double, stats<tag::weighted_median(with_p_square_cumulative_distribution)>, double> a(p_square_cumulative_distribution_num_cells = b); cdf<tag::weighted_p_square_cumulative_distribution, true>(a, b); }
OB(hist_p_square) { accumulator_set<double, stats<tag::median> > a; accumulator_set<double, stats<tag::p_square_quantile> > b(quantile_probability = 0.5); long n = vs_len("n", 5, 5, 60);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"); a(x); b(x); if (i >= 4) vs_check_eq(median(a), p_square_quantile(b), "p_square_median"); } vs_cover("end"); }
OB(hist_p_square_weighted) { accumulator_set<double, stats<tag::median>, double> a; accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> b(quantile_probability = 0.5); long n = vs_len("n", 5, 5, 60);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"), w = w_in("w"); if (!vs_native()) vs_assume_eq(x, 3 * (double)(i * i % 5)); a(x, weight = w); b(x, weight = w); if (i >= 4) vs_check_eq(median(a), weighted_p_square_quantile(b), "weighted_p_square_median"); } vs_cover("end"); }
// many bins or cells: a fixed history, then one arbitrary sample
template<bool WT, class A> static void wpush(A& acc, double x, int i) { if constexpr (WT) acc(x, weight = 0.5 + i % 3); else acc(x); }
template<bool WT, class A> static void wdens(A& acc, int nb, int n) {
  for (int i = 0; i < n; ++i) wpush<WT>(acc, wide_sample(i), i);
  (void)median(acc); wpush<WT>(acc, vs_real("x"), n); double m = median(acc); vs_check_eq(m, ref_density_median(density(acc), nb + 2, (max)(acc)), "density_median"); vs_check_eq(median(acc), m, "density_median.pure"); vs_cover("end");
}
template<class PTag, bool WT, class A> static void wcdf(A& acc, int b, int n) {
  for (int i = 0; i < n; ++i) wpush<WT>(acc, wide_sample(i), i);
  (void)median(acc); wpush<WT>(acc, vs_real("x"), n); double m = median(acc); vs_check_eq(m, ref_cdf_median(extractor<PTag>()(acc), b + 1), "cdf_median"); vs_check_eq(median(acc), m, "cdf_median.pure"); vs_cover("end");
}
OB(hist_wide_density) { int nb = 5 + 9 * vs_choose("nb", 5); accumulator_set<double, stats<tag::median(with_density)> > a(density_cache_size = 20, density_num_bins = nb); wdens<false>(a, nb, 40); }
OB(hist_wide_density_weighted) { int nb = 5 + 9 * vs_choose("nb", 5); accumulator_set<double, stats<tag::weighted_median(with_density)>, double> a(density_cache_size = 20, density_num_bins = nb); wdens<true>(a, nb, 40); }
OB(hist_wide_cdf) { vs_flag("nlskip", 1); int b = 5 + 5 * vs_choose("b", 5); accumulator_set<double, stats<tag::median(with_p_square_cumulative_distribution)> > a(p_square_cumulative_distribution_num_cells = b); wcdf<tag::p_square_cumulative_distribution, false>(a, b, b + 9); }
OB(hist_wide_cdf_weighted) { vs_flag("nlskip", 1); int b = 5 + 5 * vs_choose("b", 5); accumulator_set<double, stats<tag::weighted_median(with_p_square_cumulative_distribution)>, double> a(p_square_cumulative_distribution_num_cells = b); wcdf<tag::weighted_p_square_cumulative_distribution, true>(a, b, b + 9); }
