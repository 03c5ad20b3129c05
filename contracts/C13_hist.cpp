// C13: weighted tail statistics through the public interface
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "hutil.hpp"
#define MX 120
typedef std::vector<double> V;
template<class LR> struct H { double x[MX], w[MX], y[MX][2], W, p; long n; int k; long r; double a, b, c[2];
  template<class A> void run(A& acc, int hi, bool var) {
    n = vs_len("n", 1, hi, 30); W = 0; int dy = vs_native() ? vs_choose("dyadic", 2) : 0; // dyadic: integer weights, so ties with the threshold are exact
    double sgn = vs_native() && vs_choose("sign", 2) ? -1 : 1;
    for (long i = 0; i < n; ++i) { x[i] = vs_real("x"); if (vs_native()) x[i] = sgn * (std::fabs(x[i]) + i * 1e-3 + 1); w[i] = dy ? 1 + vs_choose("iw", 4) : w_in("w"); W += w[i]; V v(2); for (int d = 0; d < 2; ++d) v[d] = y[i][d] = var ? vs_real("y") : 0.; acc(x[i], weight = w[i], covariate1 = v); if (vs_native() && vs_choose("q", 3) == 0) (void)tail(acc); }
    if (vs_native()) p = (1 + vs_choose("p", 63)) / 64.; else { p = vs_real("p"); vs_assume_lt(0, p); vs_assume_lt(p, 1); }
    double thr = W * (std::is_same<LR, left>::value ? p : 1. - p);
    for (long i = 1; i < n; ++i) for (long j = i; j > 0; --j) {
      if (!vs_native()) vs_assume_ne(x[j], x[j - 1]);
      if (!(std::is_same<LR, left>::value ? x[j] < x[j - 1] : x[j] > x[j - 1])) break;
      std::swap(x[j], x[j - 1]); std::swap(w[j], w[j - 1]); std::swap(y[j][0], y[j - 1][0]); std::swap(y[j][1], y[j - 1][1]); }
    r = 0; double cum = 0; long m = n < k ? n : k;
    for (long i = 0; i < m && !r; ++i) { cum += w[i]; if (vs_native() && !dy) vs_assume(std::fabs(cum - thr) > 1e-9); if (cum >= thr) r = i + 1; }
    a = b = c[0] = c[1] = 0; for (long i = 0; i < r; ++i) { a += w[i] * x[i]; b += w[i]; for (int d = 0; d < 2; ++d) c[d] += w[i] * y[i][d]; }
  }
};
template<class LR> static void qm(int kmax, int hi) {
  static H<LR> h; h.k = 1 + vs_choose("k", vs_native() ? 10 : kmax);
  accumulator_set<double, stats<tag::weighted_tail_quantile<LR>, tag::non_coherent_weighted_tail_mean<LR> >, double> acc(tag::tail<LR>::cache_size = h.k);
  h.run(acc, hi, false);
  for (int rep = 0; rep < 2; ++rep) {
    double q = quantile(acc, quantile_probability = h.p), m = non_coherent_tail_mean(acc, quantile_probability = h.p);
    if (h.r) { vs_check_eq(q, h.x[h.r - 1], "weighted_tail_quantile"); vs_check_eq(m, h.a / h.b, "weighted_tail_mean"); } else { vs_check(vs_isnan(q), "weighted_tail_quantile.nan"); vs_check(vs_isnan(m), "weighted_tail_mean.nan"); }
  }
  vs_cover("end");
}
OB(hist_qm_left) { qm<left>(2, 3); }
OB(hist_qm_right) { qm<right>(2, 3); }
template<class LR, class Mode> static void vm(int kmax, int hi) {
  bool rel = std::is_same<Mode, relative>::value; static H<LR> h; h.k = 1 + vs_choose("k", vs_native() ? 10 : kmax);
  accumulator_set<double, stats<tag::weighted_tail_variate_means<LR, V, tag::covariate1>(Mode)>, double> acc(tag::tail<LR>::cache_size = h.k);
  h.run(acc, hi, true); if (rel) vs_assume_ne(h.a, 0);
  for (int rep = 0; rep < 2; ++rep) {
    V q; if constexpr (std::is_same<Mode, relative>::value) { auto g = relative_weighted_tail_variate_means(acc, quantile_probability = h.p); q.assign(g.begin(), g.end()); } else { auto g = weighted_tail_variate_means(acc, quantile_probability = h.p); q.assign(g.begin(), g.end()); }
    vs_check_ieq((long)q.size(), 2, "dimension");
    for (int d = 0; d < 2 && d < (int)q.size(); ++d) if (h.r) vs_check_eq(q[d], rel ? h.c[d] / h.a : h.c[d] / h.b, "weighted_tail_variate_means"); else vs_check(vs_isnan(q[d]), "weighted_tail_variate_means.nan");
  }
  vs_cover("end");
}
OB(hist_abs_left) { vm<left, absolute>(2, 3); }
OB(hist_abs_right) { vm<right, absolute>(2, 3); }
OB(hist_rel_left) { vm<left, relative>(2, 2); }
OB(hist_rel_right) { vm<right, relative>(2, 2); }
// wide caches and covariates: a fixed history with weights 1/2..., any probability
template<class LR> struct Wd { double x[MX], w[MX], y[MX][20], W, p, a, b, c[20]; long r;
  template<class A> void run(A& acc, int k, int n, int D) {
    W = 0; for (int i = 0; i < n; ++i) { x[i] = wide_sample(i) + 1; w[i] = 0.5 + (i * 7) % 5; W += w[i]; V v(D); for (int d = 0; d < D; ++d) v[d] = y[i][d] = (i * (d + 3)) % 17 - 8; acc(x[i], weight = w[i], covariate1 = v); if (i % 19 == 18) (void)tail(acc); }
    if (vs_native()) p = (1 + vs_choose("p", 63)) / 64.; else { p = vs_real("p"); vs_assume_lt(0, p); vs_assume_lt(p, 1); }
    double thr = W * (std::is_same<LR, left>::value ? p : 1. - p);
    for (int i = 1; i < n; ++i) for (int j = i; j > 0 && (std::is_same<LR, left>::value ? x[j] < x[j - 1] : x[j] > x[j - 1]); --j) { std::swap(x[j], x[j - 1]); std::swap(w[j], w[j - 1]); for (int d = 0; d < D; ++d) std::swap(y[j][d], y[j - 1][d]); }
    r = 0; double cum = 0; long m = n < k ? n : k; for (long i = 0; i < m && !r; ++i) { cum += w[i]; if (cum >= thr) r = i + 1; }
    a = b = 0; for (int d = 0; d < D; ++d) c[d] = 0; for (long i = 0; i < r; ++i) { a += w[i] * x[i]; b += w[i]; for (int d = 0; d < D; ++d) c[d] += w[i] * y[i][d]; }
  } };
template<class LR> static void wqm(int k, int n) {
  static Wd<LR> h; accumulator_set<double, stats<tag::weighted_tail_quantile<LR>, tag::non_coherent_weighted_tail_mean<LR> >, double> acc(tag::tail<LR>::cache_size = k); h.run(acc, k, n, 0);
  double q = quantile(acc, quantile_probability = h.p), m = non_coherent_tail_mean(acc, quantile_probability = h.p);
  if (h.r) { vs_check_eq(q, h.x[h.r - 1], "weighted_tail_quantile"); vs_check_eq(m, h.a / h.b, "weighted_tail_mean"); } else { vs_check(vs_isnan(q), "weighted_tail_quantile.nan"); vs_check(vs_isnan(m), "weighted_tail_mean.nan"); }
  vs_cover("end");
}
OB(hist_wide_qm_left) { wqm<left>(40, 60); }
OB(hist_wide_qm_right) { wqm<right>(70, 70); }
template<class LR, class Mode> static void wvm(int k, int n, int D) {
  bool rel = std::is_same<Mode, relative>::value; static Wd<LR> h; accumulator_set<double, stats<tag::weighted_tail_variate_means<LR, V, tag::covariate1>(Mode)>, double> acc(tag::tail<LR>::cache_size = k); h.run(acc, k, n, D);
  V q; if constexpr (std::is_same<Mode, relative>::value) { auto g = relative_weighted_tail_variate_means(acc, quantile_probability = h.p); q.assign(g.begin(), g.end()); } else { auto g = weighted_tail_variate_means(acc, quantile_probability = h.p); q.assign(g.begin(), g.end()); }
  vs_check_ieq((long)q.size(), D, "dimension");
  for (int d = 0; d < D && d < (int)q.size(); ++d) if (h.r) vs_check_eq(q[d], rel ? h.c[d] / h.a : h.c[d] / h.b, "weighted_tail_variate_means"); else vs_check(vs_isnan(q[d]), "weighted_tail_variate_means.nan");
  vs_cover("end");
}
OB(hist_wide_abs) { wvm<left, absolute>(40, 60, 4); }
OB(hist_wide_rel) { wvm<right, relative>(20, 30, 17); }
