// C06: weighted statistics.  Ghosts n, W = sum w, Sk = sum w x^k, Y = sum w y, P = sum w x y (weights non-negative, the first one positive).
#include "hutil.hpp"
typedef tag::covariate1 C1;
struct G { long n; double W, s1, s2, s3, s4, x, w; };
static G ghost() { G g; g.n = vs_int("n", 0, CNT_MAX); g.W = vs_real("W"); g.s1 = vs_real("S1"); g.s2 = vs_real("S2"); g.s3 = vs_real("S3"); g.s4 = vs_real("S4"); g.x = vs_real("x"); g.w = vs_real("w");
  if (g.n == 0) { vs_assume_lt(0., g.w); g.W = g.s1 = g.s2 = g.s3 = g.s4 = 0; } else { vs_assume_le(0., g.w); vs_assume_lt(0., g.W); }
  if (g.n == 1) { double m = g.s1 / g.W; g.s2 = g.W * m * m; }
  return g; }
static void adv(G& g) { double x = g.x, w = g.w; g.n += 1; g.W += w; g.s1 += w * x; g.s2 += w * x * x; g.s3 += w * x * x * x; g.s4 += w * x * x * x * x; }
static double c2(G const& g) { double m = g.s1 / g.W; return g.s2 / g.W - m * m; }
static double c3(G const& g) { double m = g.s1 / g.W; return (g.s3 - 3 * m * g.s2 + 3 * m * m * g.s1) / g.W - m * m * m; }
static double c4(G const& g) { double m = g.s1 / g.W; return (g.s4 - 4 * m * g.s3 + 6 * m * m * g.s2 - 4 * m * m * m * g.s1) / g.W + m * m * m * m; }
OB(step_sum_mean_moment) {
  accumulator_set<double, stats<tag::sum, tag::mean, tag::moment<2>, tag::moment<3>, tag::count>, double> a; G g = ghost();
  st<tag::count>(a).cnt = g.n; st<tag::sum_of_weights>(a).sum = g.W; st<tag::weighted_sum>(a).weighted_sum_ = g.s1;
  st<tag::weighted_moment<2> >(a).sum = g.s2; st<tag::weighted_moment<3> >(a).sum = g.s3;
  a(g.x, weight = g.w); adv(g);
  vs_check_eq(sum(a), g.s1, "weighted_sum.post"); vs_check_eq(sum_of_weights(a), g.W, "sum_of_weights.post");
  vs_check_eq(mean(a), g.s1 / g.W, "weighted_mean.post"); vs_check_eq(moment<2>(a), g.s2 / g.W, "weighted_moment2.post"); vs_check_eq(moment<3>(a), g.s3 / g.W, "weighted_moment3.post");
  vs_check_eq(weighted_mean(a), g.s1 / g.W, "weighted_mean.pure"); vs_check_ieq((long)count(a), g.n, "count.post");
  vs_cover("end");
}
// every order: sum of w x^K over total weight
template<int K> static void wmoment_step() {
  accumulator_set<double, stats<tag::moment<K> >, double> a; G g = ghost(); double P = g.n ? g.s3 : 0.;
  st<tag::sum_of_weights>(a).sum = g.W; st<tag::weighted_moment<K> >(a).sum = P;
  double xk = 1; for (int i = 0; i < K; ++i) xk *= g.x;
  a(g.x, weight = g.w);
  vs_check_eq(moment<K>(a), (P + g.w * xk) / (g.W + g.w), "weighted_moment.post");
  vs_check_eq(weighted_moment<K>(a), (P + g.w * xk) / (g.W + g.w), "weighted_moment.pure");
  vs_cover("end");
}
OB(step_weighted_moment1) { wmoment_step<1>(); }
OB(step_weighted_moment4) { wmoment_step<4>(); }
OB(step_weighted_moment5) { wmoment_step<5>(); }
OB(step_weighted_moment6) { wmoment_step<6>(); }
OB(step_weighted_moment7) { wmoment_step<7>(); }
OB(step_weighted_moment8) { wmoment_step<8>(); }
OB(step_weighted_moment9) { wmoment_step<9>(); }
OB(step_weighted_moment10) { wmoment_step<10>(); }
OB(step_weighted_moment11) { wmoment_step<11>(); }
OB(step_weighted_moment12) { wmoment_step<12>(); }
OB(step_weighted_moment13) { wmoment_step<13>(); }
OB(step_weighted_moment15) { wmoment_step<15>(); }
OB(step_weighted_moment16) { wmoment_step<16>(); }
OB(step_weighted_moment17) { wmoment_step<17>(); }
OB(step_weighted_moment31) { wmoment_step<31>(); }
OB(step_weighted_moment32) { wmoment_step<32>(); }
OB(step_immediate_mean) {
  accumulator_set<double, stats<tag::mean(immediate)>, double> a; G g = ghost();
  st<tag::sum_of_weights>(a).sum = g.W; st<tag::immediate_weighted_mean>(a).mean = g.n ? g.s1 / g.W : 0.;
  a(g.x, weight = g.w); adv(g);
  vs_check_eq(mean(a), g.s1 / g.W, "immediate_weighted_mean.post"); vs_check_eq(mean(a), g.s1 / g.W, "immediate_weighted_mean.pure");
  vs_cover("end");
}
OB(step_immediate_mean_int_weight) {
  accumulator_set<double, stats<tag::mean(immediate), tag::sum>, int> a;
  long n = vs_int("n", 0, CNT_MAX); int W = (int)vs_int("W", 1, 1000000), w = (int)vs_int("w", 1, 1000); double s1 = vs_real("S1"), x = vs_real("x");
  st<tag::sum_of_weights>(a).sum = W; st<tag::immediate_weighted_mean>(a).mean = s1 / W; st<tag::weighted_sum>(a).weighted_sum_ = s1;
  a(x, weight = w);
  vs_check_eq(mean(a), (s1 + w * x) / ((double)W + w), "immediate_weighted_mean.post"); vs_check_eq(sum(a), s1 + w * x, "weighted_sum.post");
  vs_cover("end");
}
OB(step_mean_int_sample_int_weight) {
  accumulator_set<int, stats<tag::mean, tag::immediate_weighted_mean, tag::moment<2> >, int> a;
  int W = (int)vs_int("W", 1, 1000000), w = (int)vs_int("w", 1, 1000), s1 = in<int>("S1"), s2 = in<int>("S2"), x = (int)vs_int("x", -100, 100);
  st<tag::sum_of_weights>(a).sum = W; st<tag::weighted_sum>(a).weighted_sum_ = s1; st<tag::weighted_moment<2> >(a).sum = s2;
  a(x, weight = w);
  vs_check_eq(weighted_mean(a), ((double)s1 + (double)w * x) / ((double)W + w), "weighted_mean.post");
  vs_check_eq(weighted_moment<2>(a), ((double)s2 + (double)w * x * x) / ((double)W + w), "weighted_moment2.post");
  vs_cover("end");
}
OB(step_variance) {
  accumulator_set<double, stats<tag::variance>, double> a; G g = ghost();
  st<tag::count>(a).cnt = g.n; st<tag::sum_of_weights>(a).sum = g.W; st<tag::immediate_weighted_mean>(a).mean = g.n ? g.s1 / g.W : 0.; st<tag::weighted_variance>(a).weighted_variance = g.n ? c2(g) : 0.;
  a(g.x, weight = g.w); adv(g);
  vs_check_eq(variance(a), c2(g), "weighted_variance.post"); vs_check_eq(weighted_variance(a), c2(g), "weighted_variance.pure");
  vs_check_eq(mean(a), g.s1 / g.W, "immediate_weighted_mean.post");
  vs_cover("end");
}
OB(step_variance_int_weight) {
  accumulator_set<double, stats<tag::variance>, int> a;
  long n = vs_int("n", 2, CNT_MAX); int W = (int)vs_int("W", 1, 1000000), w = (int)vs_int("w", 1, 1000);
  G g; g.n = n; g.W = W; g.w = w; g.s1 = vs_real("S1"); g.s2 = vs_real("S2"); g.s3 = g.s4 = 0; g.x = vs_real("x");
  st<tag::count>(a).cnt = n; st<tag::sum_of_weights>(a).sum = W; st<tag::immediate_weighted_mean>(a).mean = g.s1 / g.W; st<tag::weighted_variance>(a).weighted_variance = c2(g);
  a(g.x, weight = w); adv(g);
  vs_check_eq(variance(a), c2(g), "weighted_variance.post");
  vs_cover("end");
}
OB(step_lazy_variance) {
  accumulator_set<double, stats<tag::variance(lazy)>, double> a; G g = ghost();
  st<tag::count>(a).cnt = g.n; st<tag::sum_of_weights>(a).sum = g.W; st<tag::weighted_sum>(a).weighted_sum_ = g.s1; st<tag::weighted_moment<2> >(a).sum = g.s2;
  a(g.x, weight = g.w); adv(g);
  vs_check_eq(variance(a), c2(g), "lazy_weighted_variance.post"); vs_check_eq(lazy_weighted_variance(a), c2(g), "lazy_weighted_variance.pure");
  vs_cover("end");
}
OB(step_skewness_kurtosis) {
  accumulator_set<double, stats<tag::skewness, tag::kurtosis>, double> a; G g = ghost();
  st<tag::count>(a).cnt = g.n; st<tag::sum_of_weights>(a).sum = g.W; st<tag::weighted_sum>(a).weighted_sum_ = g.s1; st<tag::weighted_moment<2> >(a).sum = g.s2; st<tag::weighted_moment<3> >(a).sum = g.s3; st<tag::weighted_moment<4> >(a).sum = g.s4;
  a(g.x, weight = g.w); adv(g);
  vs_flag("nlskip", 3);
  vs_assume_lt(0., c2(g));
  vs_check_eq(skewness(a), c3(g) / (c2(g) * std::sqrt(c2(g))), "weighted_skewness.post");
  vs_check_eq(kurtosis(a), c4(g) / (c2(g) * c2(g)) - 3, "weighted_kurtosis.post");
  vs_cover("end");
}
OB(step_covariance) {
  typedef tag::weighted_covariance<double, C1> F; typedef tag::weighted_sum_of_variates<double, C1> SV;
  accumulator_set<double, stats<tag::covariance<double, C1> >, double> a; G g = ghost();
  double Y = vs_real("Y"), P = vs_real("P"), y = vs_real("y");
  if (g.n == 0) Y = P = 0;
  if (g.n == 1) P = g.s1 * Y / g.W;
  st<tag::count>(a).cnt = g.n; st<tag::sum_of_weights>(a).sum = g.W; st<tag::weighted_sum>(a).weighted_sum_ = g.s1; st<SV>(a).weighted_sum_ = Y;
  st<F>(a).cov_ = g.n ? P / g.W - g.s1 * Y / (g.W * g.W) : 0.;
  a(g.x, weight = g.w, covariate1 = y); adv(g); Y += g.w * y; P += g.w * g.x * y;
  vs_check_eq(weighted_covariance(a), P / g.W - g.s1 * Y / (g.W * g.W), "weighted_covariance.post");
  vs_check_eq((mean_of_variates<double, C1>(a)), Y / g.W, "weighted_mean_of_variates.post");
  vs_cover("end");
}
OB(step_variates) {
  typedef tag::weighted_sum_of_variates<double, C1> SV; typedef tag::immediate_weighted_mean_of_variates<double, C1> MI;
  accumulator_set<double, stats<SV, MI>, double> a; G g = ghost();
  double Y = vs_real("Y"), y = vs_real("y"); if (g.n == 0) Y = 0;
  st<tag::sum_of_weights>(a).sum = g.W; st<SV>(a).weighted_sum_ = Y; st<MI>(a).mean = g.n ? Y / g.W : 0.;
  a(g.x, weight = g.w, covariate1 = y); adv(g); Y += g.w * y;
  vs_check_eq(weighted_sum_of_variates(a), Y, "weighted_sum_of_variates.post");
  vs_check_eq(extractor<MI>()(a), Y / g.W, "immediate_weighted_mean_of_variates.post");
  vs_cover("end");
}
OB(base_weighted) {
  accumulator_set<double, stats<tag::sum, tag::mean, tag::variance, tag::moment<2> >, double> a; accumulator_set<double, stats<tag::variance(lazy), tag::covariance<double, C1> >, double> b;
  vs_check_eq(sum(a), 0, "weighted_sum.init"); vs_check_eq(sum_of_weights(a), 0, "sum_of_weights.init"); vs_check_eq(variance(a), 0, "weighted_variance.init");
  double x = vs_real("x"), w = vs_real("w"), y = vs_real("y"); vs_assume_lt(0., w);
  a(x, weight = w); b(x, weight = w, covariate1 = y);
  vs_check_eq(mean(a), x, "weighted_mean.first"); vs_check_eq(variance(a), 0, "weighted_variance.first"); vs_check_eq(variance(b), 0, "lazy_weighted_variance.first"); vs_check_eq(weighted_covariance(b), 0, "weighted_covariance.first");
  vs_check_eq(moment<2>(a), x * x, "weighted_moment2.first");
  vs_cover("end");
}
