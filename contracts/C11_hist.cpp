// C11: tail quantile and tail means through the public interface
#include "hutil.hpp"
#include <algorithm>
#define MX 120
template<class LR> static double share(double p) { return std::is_same<LR, left>::value ? p : 1. - p; }
static double prob() { if (!vs_native()) { double p = vs_real("p"); vs_assume_le(0, p); vs_assume_le(p, 1); return p; } return vs_choose("p", 65) / 64.; }
template<class LR> static void sort_ext(double* x, long n) { for (long i = 1; i < n; ++i) for (long j = i; j > 0 && (std::is_same<LR, left>::value ? x[j] < x[j - 1] : x[j] > x[j - 1]); --j) { double t = x[j]; x[j] = x[j - 1]; x[j - 1] = t; } }
template<class LR, class T> static void go(int kmax, int hi) {
  int k = 1 + vs_choose("k", vs_native() ? 10 : kmax); long n = vs_len("n", 1, hi, 30); double x[MX];
  accumulator_set<T, stats<tag::coherent_tail_mean<LR>, tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> > > acc(tag::tail<LR>::cache_size = k);
  for (long i = 0; i < n; ++i) { T v = in<T>("x"); x[i] = (double)v; acc(v); if (vs_native() && vs_choose("q", 3) == 0) (void)tail(acc); }
  double p = prob(); double a = share<LR>(p); long r = (long)std::ceil(n * a), m = n < k ? n : k; sort_ext<LR>(x, n);
  if (std::numeric_limits<T>::has_quiet_NaN || (r >= 1 && r <= m)) {
    for (int rep = 0; rep < 2; ++rep) {
      double q = (double)quantile(acc, quantile_probability = p), nc = non_coherent_tail_mean(acc, quantile_probability = p);
      if (r < 1 || r > m) { vs_check(vs_isnan(q), "tail_quantile.nan"); vs_check(vs_isnan(nc), "non_coherent_tail_mean.nan"); vs_check(vs_isnan(tail_mean(acc, quantile_probability = p)), "tail_mean.nan"); }
      else { double s = 0; for (long i = 0; i < r; ++i) s += x[i]; vs_check_eq(q, x[r - 1], "tail_quantile"); vs_check_eq(nc, s / r, "non_coherent_tail_mean");
        vs_check_eq(tail_mean(acc, quantile_probability = p), s / r + x[r - 1] / r * (a - (double)r / n), "coherent_tail_mean"); }
    }
  }
  vs_cover("end");
}
OB(hist_left) { go<left, double>(2, 3); }
OB(hist_right) { go<right, double>(2, 3); }
OB(hist_left_int) { go<left, int>(2, 2); }
OB(hist_right_int) { go<right, int>(2, 2); }
// wide caches: a fixed history, any probability
template<class LR, class T> static void wide(int k, int n) {
  double x[MX]; accumulator_set<T, stats<tag::coherent_tail_mean<LR>, tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> > > acc(tag::tail<LR>::cache_size = k);
  for (int i = 0; i < n; ++i) { x[i] = wide_sample(i); acc((T)x[i]); if (i % 19 == 18) (void)tail(acc); }
  double p = prob(), a = share<LR>(p); long r = (long)std::ceil(n * a), m = n < k ? n : k; sort_ext<LR>(x, n);
  if (!std::numeric_limits<T>::has_quiet_NaN) vs_assume(r >= 1 && r <= m);
  double q = (double)quantile(acc, quantile_probability = p), nc = non_coherent_tail_mean(acc, quantile_probability = p), c = tail_mean(acc, quantile_probability = p);
  if (r < 1 || r > m) { vs_check(vs_isnan(q), "tail_quantile.nan"); vs_check(vs_isnan(nc), "non_coherent_tail_mean.nan"); vs_check(vs_isnan(c), "tail_mean.nan"); }
  else { double s = 0; for (long i = 0; i < r; ++i) s += x[i]; vs_check_eq(q, x[r - 1], "tail_quantile"); vs_check_eq(nc, s / r, "non_coherent_tail_mean"); vs_check_eq(c, s / r + x[r - 1] / r * (a - (double)r / n), "coherent_tail_mean"); }
  vs_cover("end");
}
OB(hist_wide_left) { wide<left, double>(70, 101); }
OB(hist_wide_right) { wide<right, double>(70, 101); }
OB(hist_wide_int) { wide<left, int>(40, 40); }
OB(hist_wide_unfilled) { wide<right, double>(90, 33); }
