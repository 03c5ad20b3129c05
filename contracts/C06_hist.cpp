// C06: weighted statistics over the public interface, against the weighted definitions
#include "hutil.hpp"
#define MAXN 200
typedef tag::covariate1 C1;
struct D { double x[MAXN], w[MAXN], y[MAXN]; long n; };
static double wsum(D const& d, int k) { double r = 0; for (long i = 0; i < d.n; ++i) { double t = d.w[i]; for (int j = 0; j < k; ++j) t = t * d.x[i]; r += t; } return r; }
static double wcm(D const& d, int k) { double W = wsum(d, 0), m = wsum(d, 1) / W, r = 0; for (long i = 0; i < d.n; ++i) { double t = d.w[i]; for (int j = 0; j < k; ++j) t = t * (d.x[i] - m); r += t; } return r / W; }
static double wcov(D const& d) { double W = wsum(d, 0), m = wsum(d, 1) / W, my = 0, r = 0; for (long i = 0; i < d.n; ++i) my += d.w[i] * d.y[i]; my = my / W; for (long i = 0; i < d.n; ++i) r += d.w[i] * (d.x[i] - m) * (d.y[i] - my); return r / W; }
template<class T, class W, class A> static void basic(A& a, int hi, bool ints) {
  D d; long n = vs_len("n", 1, hi, 80); if (n > MAXN) n = MAXN; d.n = 0; T c = scale<T>();
  for (long i = 0; i < n; ++i) {
    T x = ints ? (T)vs_int("x", -50, 50) : (T)vs_real("x") * c; W w = sizeof(W) == 4 ? (W)vs_int("w", i == 0, 20) : (W)wz_in("w", i == 0);
    d.x[i] = x; d.w[i] = w; d.n = i + 1; a(x, weight = w);
    double WW = wsum(d, 0);
    vs_check_eq(sum_of_weights(a), WW, "sum_of_weights"); vs_check_eq(sum(a), wsum(d, 1), "weighted_sum");
    vs_check_eq(mean(a) / c, wsum(d, 1) / WW / c, "weighted_mean"); vs_check_eq(moment<2>(a) / c / c, wsum(d, 2) / WW / c / c, "weighted_moment2"); vs_check_eq(moment<3>(a), wsum(d, 3) / WW, "weighted_moment3");
    vs_check_eq(variance(a) / c / c, wcm(d, 2) / c / c, "weighted_variance");
  }
  vs_cover("end");
}
OB(hist_lazy) { accumulator_set<double, stats<tag::sum, tag::mean, tag::moment<2>, tag::moment<3>, tag::variance(lazy)>, double> a; basic<double, double>(a, 3, false); }
OB(hist_immediate) { accumulator_set<double, stats<tag::sum, tag::mean(immediate), tag::moment<2>, tag::moment<3>, tag::variance>, double> a; basic<double, double>(a, 3, false); }
OB(hist_intweight) { accumulator_set<double, stats<tag::sum, tag::mean(immediate), tag::moment<2>, tag::moment<3>, tag::variance>, int> a; basic<double, int>(a, 3, false); }
OB(hist_intboth) { accumulator_set<int, stats<tag::sum, tag::mean, tag::moment<2>, tag::moment<3>, tag::variance(lazy)>, int> a; basic<int, int>(a, 2, true); }
OB(hist_cov) {
  accumulator_set<double, stats<tag::covariance<double, C1> >, double> a; D d; long n = vs_len("n", 1, 3, 60); if (n > MAXN) n = MAXN;
  for (long i = 0; i < n; ++i) { d.x[i] = vs_real("x"); d.y[i] = vs_real("y"); d.w[i] = wz_in("w", i == 0); d.n = i + 1; a(d.x[i], covariate1 = d.y[i], weight = d.w[i]); vs_check_eq(weighted_covariance(a), wcov(d), "weighted_covariance"); }
  vs_cover("end");
}
OB(hist_skewkurt) {
  accumulator_set<double, stats<tag::skewness, tag::kurtosis>, double> a; D d; long n = vs_len("n", 2, 2, 40); if (n > MAXN) n = MAXN; vs_flag("nlskip", 4); double c = scale<double>();
  for (long i = 0; i < n; ++i) { d.x[i] = vs_real("x") * c; d.w[i] = wz_in("w", i == 0); d.n = i + 1; a(d.x[i], weight = d.w[i]); }
  double v = wcm(d, 2); vs_assume_lt(vs_native() ? 0.05 * c * c + 1e-2 * d.x[0] * d.x[0] : 0., v);
  vs_check_eq(skewness(a), wcm(d, 3) / (v * std::sqrt(v)), "weighted_skewness"); vs_check_eq(kurtosis(a), wcm(d, 4) / (v * v) - 3, "weighted_kurtosis");
  vs_cover("end");
}
// constant weights reproduce the unweighted statistics
OB(hist_constant_weight) {
  accumulator_set<double, stats<tag::mean, tag::variance, tag::moment<2>, tag::moment<4> >, double> a; accumulator_set<double, stats<tag::mean, tag::variance, tag::moment<2>, tag::moment<4> > > b;
  double w = w_in("w"); long n = vs_len("n", 1, 3, 60);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"); a(x, weight = w); b(x);
    vs_check_eq(mean(a), mean(b), "mean.unit"); vs_check_eq(variance(a), variance(b), "variance.unit"); vs_check_eq(moment<2>(a), moment<2>(b), "moment2.unit"); vs_check_eq(moment<4>(a), moment<4>(b), "moment4.unit"); }
  vs_cover("end");
}
