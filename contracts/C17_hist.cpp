// C17: quantile() against the tracked quantiles through the public interface
#include "hutil.hpp"
#include <vector>
static std::vector<double> probs() {
  if (vs_native()) { int m = 1 + vs_choose("m", 6); std::vector<double> p(m); double lo = 0; for (int i = 0; i < m; ++i) { lo += (1 + vs_choose("p", 4)) / 32.; p[i] = lo; } return p; }
  int m = 2; std::vector<double> p(m); for (int i = 0; i < m; ++i) { p[i] = vs_real("p"); vs_assume_lt(i ? p[i - 1] : 0., p[i]); vs_assume_lt(p[i], 1); } return p; }
static double lagr(double q, double a, double ha, double b, double hb, double c, double hc) {
  return ha * (q - b) / (a - b) * (q - c) / (a - c) + hb * (q - a) / (b - a) * (q - c) / (b - c) + hc * (q - a) / (c - a) * (q - b) / (c - b); }
template<class ETag, bool WT, class A> static void q17(A& acc, std::vector<double> const& p, bool quad) {
  vs_flag("nlskip", 1); int m = (int)p.size(); long n = vs_len("n", 2 * m + 2, 2 * m + 2, 40);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"); if constexpr (WT) acc(x, weight = w_in("w")); else acc(x); }
  std::vector<double> h(m); for (int i = 0; i < m; ++i) h[i] = extractor<ETag>()(acc)[i];
  for (int rep = 0; rep < (vs_native() ? 6 : 1); ++rep) {
    double q = vs_native() ? (vs_choose("t", 3) == 0 ? p[vs_choose("k", m)] : vs_choose("q", 129) / 128.) : vs_real("q");
    double r = quantile(acc, quantile_probability = q);
    if (q < p[0] || q > p[m - 1]) { vs_check(vs_isnan(r), "quantile.outside-is-nan"); continue; }
    int i = 0; while (p[i] < q) ++i;
    if (p[i] == q) { vs_check_eq(r, h[i], "quantile.tracked"); continue; }
    if (!quad || m < 3) { vs_check_eq(r, h[i - 1] + (h[i] - h[i - 1]) * (q - p[i - 1]) / (p[i] - p[i - 1]), "quantile.linear"); continue; }
    int k = (i == 1 || p[i] - q <= q - p[i - 1]) && i != m - 1 ? i - 1 : i - 2;
    vs_check_eq(r, lagr(q, p[k], h[k], p[k + 1], h[k + 1], p[k + 2], h[k + 2]), "quantile.quadratic");
  }
  vs_cover("end");
}
OB(hist_linear) { auto p = probs(); accumulator_set<double, stats<tag::extended_p_square_quantile> > acc(extended_p_square_probabilities = p); q17<tag::extended_p_square, false>(acc, p, false); }
OB(hist_quadratic) { auto p = probs(); accumulator_set<double, stats<tag::extended_p_square_quantile(quadratic)> > acc(extended_p_square_probabilities = p); q17<tag::extended_p_square, false>(acc, p, true); }
OB(hist_weighted_linear) { auto p = probs(); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile>, double> acc(extended_p_square_probabilities = p); q17<tag::weighted_extended_p_square, true>(acc, p, false); }
OB(hist_weighted_quadratic) { auto p = probs(); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile(quadratic)>, double> acc(extended_p_square_probabilities = p); q17<tag::weighted_extended_p_square, true>(acc, p, true); }
// many tracked probabilities: a fixed history, any query
template<class ETag, bool WT, class A> static void w17(A& acc, std::vector<double> const& p, bool quad) {
  int m = (int)p.size(); for (int i = 0; i < 2 * m + 12; ++i) { if constexpr (WT) acc(wide_sample(i), weight = 0.5 + i % 3); else acc(wide_sample(i)); }
  std::vector<double> h(m); for (int i = 0; i < m; ++i) h[i] = extractor<ETag>()(acc)[i];
  double q = vs_native() ? vs_choose("q", 257) / 256. : vs_real("q"), r = quantile(acc, quantile_probability = q);
  if (q < p[0] || q > p[m - 1]) vs_check(vs_isnan(r), "quantile.outside-is-nan");
  else { int i = 0; while (p[i] < q) ++i;
    if (p[i] == q) vs_check_eq(r, h[i], "quantile.tracked");
    else if (!quad || m < 3) vs_check_eq(r, h[i - 1] + (h[i] - h[i - 1]) * (q - p[i - 1]) / (p[i] - p[i - 1]), "quantile.linear");
    else { int k = (i == 1 || p[i] - q <= q - p[i - 1]) && i != m - 1 ? i - 1 : i - 2; vs_check_eq(r, lagr(q, p[k], h[k], p[k + 1], h[k + 1], p[k + 2], h[k + 2]), "quantile.quadratic"); } }
  vs_cover("end");
}
static std::vector<double> wp(int m) { std::vector<double> p(m); for (int i = 0; i < m; ++i) p[i] = (i + 1) / 64. + (i % 3) / 256.; return p; }
OB(hist_wide_linear) { auto p = wp(6 + 7 * vs_choose("m", 6)); accumulator_set<double, stats<tag::extended_p_square_quantile> > acc(extended_p_square_probabilities = p); w17<tag::extended_p_square, false>(acc, p, false); }
OB(hist_wide_quadratic) { auto p = wp(6 + 7 * vs_choose("m", 6)); accumulator_set<double, stats<tag::extended_p_square_quantile(quadratic)> > acc(extended_p_square_probabilities = p); w17<tag::extended_p_square, false>(acc, p, true); }
OB(hist_wide_weighted_linear) { auto p = wp(6 + 7 * vs_choose("m", 6)); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile>, double> acc(extended_p_square_probabilities = p); w17<tag::weighted_extended_p_square, true>(acc, p, false); }
OB(hist_wide_weighted_quadratic) { auto p = wp(6 + 7 * vs_choose("m", 6)); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile(quadratic)>, double> acc(extended_p_square_probabilities = p); w17<tag::weighted_extended_p_square, true>(acc, p, true); }
