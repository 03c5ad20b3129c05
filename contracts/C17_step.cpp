// C17: extended_p_square_quantile (linear, quadratic; weighted and not).  The markers are arbitrary (havocked):
// the contract relates quantile() to the tracked (probability, extended_p_square) pairs, m of them.
#include "hutil.hpp"
#include <vector>
static std::vector<double> probs(int m) { std::vector<double> p(m); for (int i = 0; i < m; ++i) { p[i] = vs_real("p"); vs_assume_lt(i ? p[i - 1] : 0., p[i]); vs_assume_lt(p[i], 1); } return p; }
static double lagr(double q, double a, double ha, double b, double hb, double c, double hc) {
  return ha * (q - b) / (a - b) * (q - c) / (a - c) + hb * (q - a) / (b - a) * (q - c) / (b - c) + hc * (q - a) / (c - a) * (q - b) / (c - b); }
template<class QTag, class ETag, class A> static void q17(A& acc, std::vector<double> const& p, bool quad) {
  vs_flag("nlskip", 1);
  int m = (int)p.size(); auto& e = st<ETag>(acc); std::vector<double> h(m);
  for (int i = 0; i < 2 * m + 3; ++i) { double v = vs_real("h"); e.heights[i] = v; if (i % 2 == 0 && i >= 2 && i < 2 * m + 2) h[i / 2 - 1] = v; }
  double q = vs_real("q");
  for (int rep = 0; rep < 2; ++rep) {
    if (rep) { double q2 = vs_real("q2"); (void)quantile(acc, quantile_probability = q2); }
    double r = quantile(acc, quantile_probability = q);
    if (q < p[0] || q > p[m - 1]) { vs_check(vs_isnan(r), "quantile.outside-is-nan"); continue; }
    int i = 0; while (p[i] < q) ++i;
    if (p[i] == q) { vs_check_eq(r, h[i], "quantile.tracked"); continue; }
    if (!quad || m < 3) { vs_check_eq(r, h[i - 1] + (h[i] - h[i - 1]) * (q - p[i - 1]) / (p[i] - p[i - 1]), "quantile.linear"); continue; }
    int k = (i == 1 || p[i] - q <= q - p[i - 1]) && i != m - 1 ? i - 1 : i - 2;
    vs_check_eq(r, lagr(q, p[k], h[k], p[k + 1], h[k + 1], p[k + 2], h[k + 2]), "quantile.quadratic");
  }
  vs_check_ieq((long)extractor<ETag>()(acc).size(), m, "tracked.size"); for (int i = 0; i < m; ++i) vs_check_eq(extractor<ETag>()(acc)[i], h[i], "tracked.unchanged");
  vs_cover("end");
}
#define Q(name, m, Feat, QT, ET, quad, ...) OB(step_##name##_m##m) { auto p = probs(m); accumulator_set<double, stats<Feat>, ##__VA_ARGS__> acc(extended_p_square_probabilities = p); q17<QT, ET>(acc, p, quad); }
#define QQ(m) Q(linear_, m, tag::extended_p_square_quantile, tag::extended_p_square_quantile, tag::extended_p_square, false) \
  Q(quadratic_, m, tag::extended_p_square_quantile(quadratic), tag::extended_p_square_quantile_quadratic, tag::extended_p_square, true) \
  Q(weighted_linear_, m, tag::weighted_extended_p_square_quantile, tag::weighted_extended_p_square_quantile, tag::weighted_extended_p_square, false, double) \
  Q(weighted_quadratic_, m, tag::weighted_extended_p_square_quantile(quadratic), tag::weighted_extended_p_square_quantile_quadratic, tag::weighted_extended_p_square, true, double)
QQ(1) QQ(2) QQ(3) QQ(4) QQ(5)
