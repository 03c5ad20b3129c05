// C04: public interface, bounded histories, against the textbook definitions
#include "hutil.hpp"
#include <boost/accumulators/statistics/with_error.hpp>
#define MAXN 200
static double cm(double const* x, long n, int k) {
  double m = 0, r = 0; for (long i = 0; i < n; ++i) m += x[i]; m = m / n;
  for (long i = 0; i < n; ++i) { double d = 1; for (int j = 0; j < k; ++j) d = d * (x[i] - m); r += d; }
  return r / n;
}
template<class T, class A> static void sk(A& a, int hi) {
  long n = vs_len("n", 2, hi, 40); if (n > MAXN) n = MAXN; double x[MAXN];
  T c = scale<T>();
  for (long i = 0; i < n; ++i) { T t = in<T>("x") * c; if (sizeof(T) == 4) vs_assume(t < 30 && t > -30); x[i] = (double)t; a(t); }
  double v = cm(x, n, 2); vs_assume_lt(vs_native() ? 0.05 * c * c + 1e-2 * x[0] * x[0] : 0., v);
  vs_check_eq(skewness(a), cm(x, n, 3) / (v * std::sqrt(v)), "skewness");
  vs_check_eq(kurtosis(a), cm(x, n, 4) / (v * v) - 3, "kurtosis");
  vs_cover("end");
}
OB(hist_lazy) { accumulator_set<double, stats<tag::skewness, tag::kurtosis> > a; sk<double>(a, 3); }
OB(hist_imm) { accumulator_set<double, stats<tag::mean(immediate), tag::kurtosis, tag::skewness> > a; sk<double>(a, 3); }
OB(hist_int) { accumulator_set<int, stats<tag::kurtosis, tag::skewness> > a; sk<int>(a, 2); }
template<class F, class A> static void err(A& a) {
  long n = vs_len("n", 2, 3, 60); if (n > MAXN) n = MAXN; double x[MAXN];
  double c = scale<double>();
  for (long i = 0; i < n; ++i) { x[i] = vs_real("x") * c; a(x[i]); }
  double v = cm(x, n, 2); if (vs_native()) vs_assume_lt(1e-6 * (c * c + x[0] * x[0]), v);
  vs_check_eq(error_of<F>(a) / c, std::sqrt(v / (n - 1)) / c, "error_of_mean");
  vs_cover("end");
}
OB(hist_err_lazy) { accumulator_set<double, stats<tag::error_of<tag::mean> > > a; err<tag::mean>(a); }
OB(hist_with_error) { accumulator_set<double, stats<with_error<tag::mean(lazy)>, tag::sum> > a; err<tag::mean>(a); }
OB(hist_with_error_imm) { accumulator_set<double, stats<tag::max, with_error<tag::mean(immediate)> > > a; err<tag::mean(immediate)>(a); }
OB(hist_err_imm) { accumulator_set<double, stats<tag::error_of<tag::mean(immediate)> > > a; err<tag::mean(immediate)>(a); }
