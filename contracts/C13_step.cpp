// C13: weighted tail statistics for any weights, any total weight W and any p, from any tail state;
// cells carry (sample, weight, covariates); W is the sum over all samples, cached or not.
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "htail.hpp"
typedef std::vector<double> V;
struct S { int k, m; double t[9], w[9], y[9][2], W, p, thr; int r; };   // r: first cell (1-based) whose cumulated weight reaches thr, 0 if none
template<class LR, class A> static void setup(A& acc, S& s, bool variates) {
  s.m = 1 + vs_choose("m", s.k);
  auto& c = st<tag::tail<LR> >(acc); auto& w = st<tag::tail_weights<LR> >(acc).variates;
  c.is_sorted = true; c.indices.clear(); double tot = 0;
  for (int i = 0; i < s.m; ++i) { c.indices.push_back((std::size_t)(s.m - 1 - i)); c.samples[i] = s.t[i] = vs_real("t"); w[i] = s.w[i] = wz_in("w", i == 0); tot += s.w[i]; if (i) assume_me<LR>(s.t[i - 1], s.t[i]); }
  s.W = vs_real("W"); if (s.m < s.k) s.W = tot; else vs_assume_le(tot, s.W);
  st<tag::sum_of_weights>(acc).sum = s.W;
  s.p = vs_real("p"); vs_assume_le(0, s.p); vs_assume_le(s.p, 1); s.thr = s.W * (std::is_same<LR, left>::value ? s.p : 1. - s.p);
  s.r = 0; double cum = 0; for (int i = 0; i < s.m && !s.r; ++i) { cum += s.w[i]; if (cum >= s.thr) s.r = i + 1; }
}
template<class LR> static void quant(int kmax) {
  S s; s.k = 1 + vs_choose("k", kmax); accumulator_set<double, stats<tag::weighted_tail_quantile<LR> >, double> acc(tag::tail<LR>::cache_size = s.k);
  setup<LR>(acc, s, false);
  for (int rep = 0; rep < 2; ++rep) { double q = quantile(acc, quantile_probability = s.p); if (s.r) vs_check_eq(q, s.t[s.r - 1], "weighted_tail_quantile"); else vs_check(vs_isnan(q), "weighted_tail_quantile.nan-when-not-cached"); }
  vs_cover("end");
}
OB(fn_quantile_left) { quant<left>(3); }
OB(fn_quantile_right) { quant<right>(3); }
template<class LR> static void mean_(int kmax) {
  S s; s.k = 1 + vs_choose("k", kmax); accumulator_set<double, stats<tag::non_coherent_weighted_tail_mean<LR> >, double> acc(tag::tail<LR>::cache_size = s.k);
  setup<LR>(acc, s, false); vs_assume_lt(0, s.thr); double a = 0, b = 0; for (int i = 0; i < s.r; ++i) { a += s.w[i] * s.t[i]; b += s.w[i]; }
  for (int rep = 0; rep < 2; ++rep) { double q = non_coherent_tail_mean(acc, quantile_probability = s.p); if (s.r) vs_check_eq(q, a / b, "weighted_tail_mean"); else vs_check(vs_isnan(q), "weighted_tail_mean.nan-when-not-cached"); }
  vs_cover("end");
}
OB(fn_mean_left) { mean_<left>(3); }
OB(fn_mean_right) { mean_<right>(3); }
template<class LR, class Mode> static void means(int kmax) {
  bool rel = std::is_same<Mode, relative>::value;
  S s; s.k = 1 + vs_choose("k", kmax); accumulator_set<double, stats<tag::weighted_tail_variate_means<LR, V, tag::covariate1>(Mode)>, double> acc(tag::tail<LR>::cache_size = s.k);
  setup<LR>(acc, s, true); auto& v = st<tag::tail_variate<V, tag::covariate1, LR> >(acc).variates;
  for (int i = 0; i < s.m; ++i) { V u(2); for (int d = 0; d < 2; ++d) u[d] = s.y[i][d] = vs_real("y"); v[i] = u; }
  vs_assume_lt(0, s.thr); double a = 0, b = 0, c[2] = {0, 0}; for (int i = 0; i < s.r; ++i) { a += s.w[i] * s.t[i]; b += s.w[i]; for (int d = 0; d < 2; ++d) c[d] += s.w[i] * s.y[i][d]; }
  if (rel) vs_assume_ne(a, 0);
  for (int rep = 0; rep < 2; ++rep) {
    V q; if constexpr (std::is_same<Mode, relative>::value) { auto g = relative_weighted_tail_variate_means(acc, quantile_probability = s.p); q.assign(g.begin(), g.end()); } else { auto g = weighted_tail_variate_means(acc, quantile_probability = s.p); q.assign(g.begin(), g.end()); }
    vs_check_ieq((long)q.size(), 2, "weighted_tail_variate_means.dimension");
    for (int d = 0; d < 2; ++d) if (s.r) vs_check_eq(q[d], rel ? c[d] / a : c[d] / b, "weighted_tail_variate_means"); else vs_check(vs_isnan(q[d]), "weighted_tail_variate_means.nan-when-not-cached");
  }
  vs_cover("end");
}
OB(fn_abs_left) { means<left, absolute>(3); }
OB(fn_abs_right) { means<right, absolute>(3); }
OB(fn_rel_left) { means<left, relative>(2); }
OB(fn_rel_right) { means<right, relative>(2); }
// every step keeps sample, weight and covariate together and adds the weight
template<class LR> static void pairing(int kmax) {
  int k = 1 + vs_choose("k", kmax); accumulator_set<double, stats<tag::weighted_tail_variate_means<LR, V, tag::covariate1>(absolute)>, double> acc(tag::tail<LR>::cache_size = k);
  double s[9]; int m = havoc_tail<LR>(acc, k, s); auto& v = st<tag::tail_variate<V, tag::covariate1, LR> >(acc).variates; auto& w = st<tag::tail_weights<LR> >(acc).variates;
  for (int i = 0; i < m; ++i) { v[i] = V(2, (double)i); w[i] = i + 1; } double W = vs_real("W"); st<tag::sum_of_weights>(acc).sum = W;
  double x = vs_real("x"); acc(x, covariate1 = V(2, (double)m), weight = (double)(m + 1)); int m1 = m < k ? m + 1 : k; inv_tail<LR>(acc, k, m1);
  vs_check_eq(sum_of_weights(acc), W + m + 1, "sum_of_weights.post");
  auto& c = st<tag::tail<LR> >(acc); bool used[9] = {};
  for (int i = 0; i < m1; ++i) { int id = (int)v[i][0]; vs_check(0 <= id && id <= m && !used[id], "covariate.once"); used[id] = true; vs_check_eq(w[i], id + 1, "weight.pairing"); vs_check_eq(c.samples[i], id == m ? x : s[id], "covariate.pairing"); }
  vs_cover("end");
}
OB(step_pairing_left) { pairing<left>(3); }
OB(step_pairing_right) { pairing<right>(3); }
