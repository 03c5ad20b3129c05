// C14: weighted_p_square_quantile.  Invariant for cnt >= 5: heights non-decreasing, positions (cumulated
// weights) strictly increasing, positive, the last one the total weight.
#include "hpsq.hpp"
template<class Tag, class A> static void conf(A& acc, double p, int cell) {
  vs_flag("nlskip", 1);
  auto& a = st<Tag>(acc);
  long cnt = vs_int("cnt", 5, CNT_MAX); double h[5], n[5], d[5], x = vs_real("x"), w = w_in("w");
  for (int i = 0; i < 5; ++i) {
    h[i] = vs_real("h"); n[i] = vs_real("n"); 
    a.heights[i] = h[i]; a.actual_positions[i] = n[i]; a.desired_positions[i] = vs_real("d");
    if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } else vs_assume_lt(0, n[i]);
  }
  if (cell == 0) vs_assume_lt(x, h[0]); else if (cell == 5) vs_assume_le(h[4], x); else { vs_assume_le(h[cell - 1], x); vs_assume_lt(x, h[cell]); }
  st<tag::count>(acc).cnt = cnt; st<tag::sum_of_weights>(acc).sum = n[4];
  acc(x, weight = w);
  bool nm; int c = ref_cell(5, h, x, nm); if (nm) n[0] = w; for (int i = c; i < 5; ++i) n[i] += w;
  double W = n[4]; d[0] = n[0]; d[1] = n[0] + (W - n[0]) * (p / 2); d[2] = n[0] + (W - n[0]) * p; d[3] = n[0] + (W - n[0]) * ((1 + p) / 2); d[4] = W;
  for (int i = 1; i <= 3; ++i) ref_adjust(i, h, n, d[i]);
  for (int i = 0; i < 5; ++i) {
    vs_check_eq(a.heights[i], h[i], "weighted_p_square.heights"); vs_check_eq(a.actual_positions[i], n[i], "weighted_p_square.positions"); vs_check_eq(a.desired_positions[i], d[i], "weighted_p_square.desired");
  }
  vs_check_eq(extractor<Tag>()(acc), h[2], "weighted_p_square.result"); vs_check_ieq((long)count(acc), cnt + 1, "count.post");
  vs_cover("end");
}
static double prob() { double p = vs_real("p"); vs_assume_lt(0, p); vs_assume_lt(p, 1); return p; }
#define CONF(c) OB(step_conf##c) { double p = prob(); accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> acc(quantile_probability = p); conf<tag::weighted_p_square_quantile>(acc, p, c); }
CONF(0) CONF(1) CONF(2) CONF(3) CONF(4) CONF(5)
#define CONFM(c) OB(step_median_conf##c) { accumulator_set<double, stats<tag::weighted_p_square_quantile_for_median>, double> acc; conf<tag::weighted_p_square_quantile_for_median>(acc, 0.5, c); }
CONFM(0) CONFM(2) CONFM(5)
OB(base_init) {
  double p = prob(); accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> acc(quantile_probability = p); auto& a = st<tag::weighted_p_square_quantile>(acc);
  double x[5], w[5]; for (int i = 0; i < 5; ++i) { x[i] = vs_real("x"); w[i] = w_in("w"); for (int j = 0; j < i; ++j) vs_assume_ne(x[j], x[i]); acc(x[i], weight = w[i]); }
  ref_sort(5, x, w);
  for (int i = 0; i < 5; ++i) { vs_check_eq(a.heights[i], x[i], "heights.first-five"); vs_check_eq(a.actual_positions[i], w[i], "positions.first-five"); }
  vs_check_eq(weighted_p_square_quantile(acc), x[2], "median-of-five"); vs_cover("end");
}
// the reference cell step keeps the invariant (the marker step is lem_adjust_invariant of C14_step.cpp)
OB(lem_weighted_cell) {
  double h[5], g[5], n[5], x = vs_real("x"), w = w_in("w"); for (int i = 0; i < 5; ++i) { h[i] = g[i] = vs_real("h"); n[i] = vs_real("n"); if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } else vs_assume_lt(0, n[0]); }
  double W = n[4] + w;
  bool nm; int c = ref_cell(5, h, x, nm); if (nm) n[0] = w; for (int i = c; i < 5; ++i) n[i] += w;
  vs_check_lt(0, n[0], "cell.positive"); vs_check_eq(n[4], W, "cell.total");
  for (int i = 1; i < 5; ++i) { vs_check_le(h[i - 1], h[i], "cell.sorted"); vs_check_lt(n[i - 1], n[i], "cell.positions"); }
  vs_check_eq(h[0], x < g[0] ? x : g[0], "cell.min"); vs_check_eq(h[4], x > g[4] ? x : g[4], "cell.max"); vs_cover("end");
}
