// C12: tail_variate_means for any n, p and any tail state (C10's invariant), vector covariates of
// dimension 2, cache sizes enumerated.
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "htail.hpp"
typedef std::vector<double> V;
template<class LR, class A> static int setup(A& acc, int k, double* t, double (*y)[2], long& n) {
  int m = 1 + vs_choose("m", k);
  if (m < k) n = m; else n = vs_int("n", k, 1000000000);
  auto& c = st<tag::tail<LR> >(acc); auto& v = st<tag::tail_variate<V, tag::covariate1, LR> >(acc).variates;
  c.is_sorted = true; c.indices.clear();
  for (int i = 0; i < m; ++i) {
    c.indices.push_back((std::size_t)(m - 1 - i)); c.samples[i] = t[i] = vs_real("t"); if (i) assume_me<LR>(t[i - 1], t[i]);
    V u(2); for (int d = 0; d < 2; ++d) u[d] = y[i][d] = vs_real("y"); v[i] = u;
  }
  st<tag::count>(acc).cnt = n; return m;
}
template<class LR, class Mode> static void means(int kmax) {
  int k = 1 + vs_choose("k", kmax); bool rel = std::is_same<Mode, relative>::value;
  accumulator_set<double, stats<tag::tail_variate_means<LR, V, tag::covariate1>(Mode)> > acc(tag::tail<LR>::cache_size = k);
  double t[9], y[9][2], p = vs_real("p"); long n; int m = setup<LR>(acc, k, t, y, n); vs_assume_le(0, p); vs_assume_le(p, 1);
  double a = std::is_same<LR, left>::value ? p : 1. - p; long r = vs_int("r", 0, 2000000000); vs_assume_le(n * a, (double)r); vs_assume_lt((double)r - 1, n * a);
  double s = 0, sy[2] = {0, 0}; for (long i = 0; i < r && i < m; ++i) { s += t[i]; sy[0] += y[i][0]; sy[1] += y[i][1]; }
  if (rel) vs_assume_ne(s, 0);
  for (int rep = 0; rep < 2; ++rep) {
    V res; if constexpr (std::is_same<Mode, relative>::value) { auto q = relative_tail_variate_means(acc, quantile_probability = p); res.assign(q.begin(), q.end()); } else { auto q = tail_variate_means(acc, quantile_probability = p); res.assign(q.begin(), q.end()); }
    vs_check_ieq((long)res.size(), 2, "tail_variate_means.dimension");
    for (int d = 0; d < 2; ++d)
      if (r < 1 || r > m) vs_check(vs_isnan(res[d]), "tail_variate_means.nan-when-not-cached");
      else vs_check_eq(res[d], rel ? sy[d] / s : sy[d] / r, "tail_variate_means");
  }
  vs_cover("end");
}
OB(fn_abs_left) { means<left, absolute>(3); }
OB(fn_abs_right) { means<right, absolute>(3); }
OB(fn_rel_left) { means<left, relative>(3); }
OB(fn_rel_right) { means<right, relative>(3); }
OB(slow_fn_abs_left) { means<left, absolute>(5); }
OB(slow_fn_rel_right) { means<right, relative>(5); }
// pairing of vector covariates with the samples is maintained by each step
template<class LR> static void pairing(int kmax) {
  int k = 1 + vs_choose("k", kmax); accumulator_set<double, stats<tag::tail_variate_means<LR, V, tag::covariate1>(absolute)> > acc(tag::tail<LR>::cache_size = k);
  double s[9]; int m = havoc_tail<LR>(acc, k, s); auto& v = st<tag::tail_variate<V, tag::covariate1, LR> >(acc).variates;
  for (int i = 0; i < m; ++i) v[i] = V(2, (double)i);
  double x = vs_real("x"); acc(x, covariate1 = V(2, (double)m)); int m1 = m < k ? m + 1 : k; inv_tail<LR>(acc, k, m1);
  auto& c = st<tag::tail<LR> >(acc); bool used[9] = {};
  for (int i = 0; i < m1; ++i) { vs_check_ieq((long)v[i].size(), 2, "covariate.dimension"); int id = (int)v[i][0]; vs_check(v[i][1] == v[i][0] && 0 <= id && id <= m && !used[id], "covariate.once"); used[id] = true; vs_check_eq(c.samples[i], id == m ? x : s[id], "covariate.pairing"); }
  vs_cover("end");
}
OB(step_pairing_left) { pairing<left>(3); }
OB(step_pairing_right) { pairing<right>(3); }
