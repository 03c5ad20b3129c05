// C12: tail_variate_means through the public interface
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "hutil.hpp"
#define MX 120
typedef std::vector<double> V;
template<class LR, class Mode> static void go(int kmax, int hi) {
  bool rel = std::is_same<Mode, relative>::value;
  int k = 1 + vs_choose("k", vs_native() ? 10 : kmax); long n = vs_len("n", 1, hi, 30); double x[MX], y[MX][2];
  accumulator_set<double, stats<tag::tail_variate_means<LR, V, tag::covariate1>(Mode)> > acc(tag::tail<LR>::cache_size = k);
  double sgn = vs_native() && vs_choose("sign", 2) ? -1 : 1;
  for (long i = 0; i < n; ++i) { x[i] = vs_real("x"); if (vs_native()) { x[i] = sgn * (std::fabs(x[i]) + i * 1e-3 + 1); } V v(2); for (int d = 0; d < 2; ++d) v[d] = y[i][d] = vs_real("y"); acc(x[i], covariate1 = v); if (vs_native() && vs_choose("q", 3) == 0) (void)tail(acc); }
  double p; if (vs_native()) p = vs_choose("p", 65) / 64.; else { p = vs_real("p"); vs_assume_le(0, p); vs_assume_le(p, 1); }
  double a = std::is_same<LR, left>::value ? p : 1. - p; long r = (long)std::ceil(n * a), m = n < k ? n : k;
  for (long i = 1; i < n; ++i) for (long j = i; j > 0; --j) {
    if (!vs_native()) vs_assume_ne(x[j], x[j - 1]);
    if (!(std::is_same<LR, left>::value ? x[j] < x[j - 1] : x[j] > x[j - 1])) break;
    std::swap(x[j], x[j - 1]); std::swap(y[j][0], y[j - 1][0]); std::swap(y[j][1], y[j - 1][1]); }
  double s = 0, sy[2] = {0, 0}; for (long i = 0; i < r && i < m; ++i) { s += x[i]; sy[0] += y[i][0]; sy[1] += y[i][1]; }
  if (rel) vs_assume_ne(s, 0);
  for (int rep = 0; rep < 2; ++rep) {
    V res; if constexpr (std::is_same<Mode, relative>::value) { auto q = relative_tail_variate_means(acc, quantile_probability = p); res.assign(q.begin(), q.end()); } else { auto q = tail_variate_means(acc, quantile_probability = p); res.assign(q.begin(), q.end()); }
    vs_check_ieq((long)res.size(), 2, "dimension");
    for (int d = 0; d < 2 && d < (int)res.size(); ++d)
      if (r < 1 || r > m) vs_check(vs_isnan(res[d]), "tail_variate_means.nan"); else vs_check_eq(res[d], rel ? sy[d] / s : sy[d] / r, "tail_variate_means");
  }
  vs_cover("end");
}
OB(hist_abs_left) { go<left, absolute>(2, 3); }
OB(hist_abs_right) { go<right, absolute>(2, 3); }
OB(hist_rel_left) { go<left, relative>(2, 3); }
OB(hist_rel_right) { go<right, relative>(2, 3); }
// wide caches and covariates: a fixed history, any probability
template<class LR, class Mode> static void wide(int k, int n, int D) {
  bool rel = std::is_same<Mode, relative>::value; static double x[MX], y[MX][20]; accumulator_set<double, stats<tag::tail_variate_means<LR, V, tag::covariate1>(Mode)> > acc(tag::tail<LR>::cache_size = k);
  for (int i = 0; i < n; ++i) { x[i] = wide_sample(i) + 1; V v(D); for (int d = 0; d < D; ++d) v[d] = y[i][d] = (i * (d + 3)) % 17 - 8; acc(x[i], covariate1 = v); if (i % 19 == 18) (void)tail(acc); }
  double p; if (vs_native()) p = vs_choose("p", 65) / 64.; else { p = vs_real("p"); vs_assume_le(0, p); vs_assume_le(p, 1); }
  double a = std::is_same<LR, left>::value ? p : 1. - p; long r = (long)std::ceil(n * a), m = n < k ? n : k;
  for (int i = 1; i < n; ++i) for (int j = i; j > 0 && (std::is_same<LR, left>::value ? x[j] < x[j - 1] : x[j] > x[j - 1]); --j) { std::swap(x[j], x[j - 1]); for (int d = 0; d < D; ++d) std::swap(y[j][d], y[j - 1][d]); }
  double s = 0, sy[20] = {}; for (long i = 0; i < r && i < m; ++i) { s += x[i]; for (int d = 0; d < D; ++d) sy[d] += y[i][d]; }
  V res; if constexpr (std::is_same<Mode, relative>::value) { auto q = relative_tail_variate_means(acc, quantile_probability = p); res.assign(q.begin(), q.end()); } else { auto q = tail_variate_means(acc, quantile_probability = p); res.assign(q.begin(), q.end()); }
  vs_check_ieq((long)res.size(), D, "dimension");
  for (int d = 0; d < D && d < (int)res.size(); ++d) if (r < 1 || r > m) vs_check(vs_isnan(res[d]), "tail_variate_means.nan"); else vs_check_eq(res[d], rel ? sy[d] / s : sy[d] / r, "tail_variate_means");
  vs_cover("end");
}
OB(hist_wide_abs) { wide<left, absolute>(40, 60, 5); }
OB(hist_wide_abs_right) { wide<right, absolute>(70, 90, 1); }
OB(hist_wide_rel) { wide<left, relative>(40, 60, 3); }
OB(hist_wide_rel_right) { wide<right, relative>(18, 18, 17); }
