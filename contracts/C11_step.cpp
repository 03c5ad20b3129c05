// C11: tail_quantile, non_coherent_tail_mean, coherent_tail_mean for any number n of samples and any
// probability p, from an arbitrary tail state (invariant of C10: m = min(n,k) cached, most extreme
// first); cache sizes enumerated.  r = ceil(n p) (left) or ceil(n (1-p)) (right).
#include "htail.hpp"
template<class LR, class A> static int setup(A& acc, int k, double* t, long& n) {
  int m = 1 + vs_choose("m", k);
  if (m < k) n = m; else n = vs_int("n", k, 1000000000);
  auto& c = st<tag::tail<LR> >(acc);
  c.is_sorted = true; c.indices.clear();
  for (int i = 0; i < m; ++i) { c.indices.push_back((std::size_t)(m - 1 - i)); c.samples[i] = t[i] = vs_real("t"); if (i) assume_me<LR>(t[i - 1], t[i]); }
  st<tag::count>(acc).cnt = n;
  return m;
}
static long ceil_of(double v) { long r = vs_int("r", 0, 2000000000); vs_assume_le(v, (double)r); vs_assume_lt((double)r - 1, v); return r; }
template<class LR> static double share(double p) { return std::is_same<LR, left>::value ? p : 1. - p; }
template<class LR> static void quantile_(int kmax) {
  int k = 1 + vs_choose("k", kmax); accumulator_set<double, stats<tag::tail_quantile<LR> > > acc(tag::tail<LR>::cache_size = k);
  double t[9], p = vs_real("p"); long n; int m = setup<LR>(acc, k, t, n); vs_assume_le(0, p); vs_assume_le(p, 1);
  long r = ceil_of(n * share<LR>(p));
  double q = quantile(acc, quantile_probability = p);
  if (r < 1 || r > m) vs_check(vs_isnan(q), "tail_quantile.nan-when-not-cached"); else vs_check_eq(q, t[r - 1], "tail_quantile");
  double q2 = quantile(acc, quantile_probability = p); if (r >= 1 && r <= m) vs_check_eq(q2, q, "tail_quantile.pure");
  vs_cover("end");
}
OB(fn_quantile_left) { quantile_<left>(3); }
OB(fn_quantile_right) { quantile_<right>(3); }
OB(slow_fn_quantile_left) { quantile_<left>(6); }
OB(slow_fn_quantile_right) { quantile_<right>(6); }
template<class LR> static void ncmean(int kmax) {
  int k = 1 + vs_choose("k", kmax); accumulator_set<double, stats<tag::non_coherent_tail_mean<LR> > > acc(tag::tail<LR>::cache_size = k);
  double t[9], p = vs_real("p"); long n; int m = setup<LR>(acc, k, t, n); vs_assume_le(0, p); vs_assume_le(p, 1);
  long r = ceil_of(n * share<LR>(p));
  double v = non_coherent_tail_mean(acc, quantile_probability = p);
  if (r < 1 || r > m) vs_check(vs_isnan(v), "non_coherent_tail_mean.nan-when-not-cached");
  else { double s = 0; for (long i = 0; i < r; ++i) s += t[i]; vs_check_eq(v, s / r, "non_coherent_tail_mean"); }
  vs_cover("end");
}
OB(fn_ncmean_left) { ncmean<left>(3); }
OB(fn_ncmean_right) { ncmean<right>(3); }
OB(slow_fn_ncmean_left) { ncmean<left>(6); }
OB(slow_fn_ncmean_right) { ncmean<right>(6); }
template<class LR> static void cmean(int kmax) {
  int k = 1 + vs_choose("k", kmax); accumulator_set<double, stats<tag::coherent_tail_mean<LR>, tag::tail_quantile<LR> > > acc(tag::tail<LR>::cache_size = k);
  double t[9], p = vs_real("p"); long n; int m = setup<LR>(acc, k, t, n); vs_assume_le(0, p); vs_assume_le(p, 1);
  double a = share<LR>(p); long r = ceil_of(n * a);
  double v = tail_mean(acc, quantile_probability = p);
  if (r < 1 || r > m) vs_check(vs_isnan(v), "coherent_tail_mean.nan-when-not-cached");
  else { double s = 0; for (long i = 0; i < r; ++i) s += t[i]; vs_check_eq(v, s / r + t[r - 1] / r * (a - (double)r / n), "coherent_tail_mean"); }
  vs_cover("end");
}
OB(fn_cmean_left) { cmean<left>(3); }
OB(fn_cmean_right) { cmean<right>(3); }
OB(slow_fn_cmean_left) { cmean<left>(5); }
OB(slow_fn_cmean_right) { cmean<right>(5); }
