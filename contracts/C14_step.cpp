// C14: p_square_quantile.  Invariant for cnt >= 5: heights non-decreasing, positions strictly
// increasing from 1 to cnt, desired positions 1+(cnt-1)*{0, p/2, p, (1+p)/2, 1}.
#include "hpsq.hpp"
template<class A> static void conf(A& acc, double p, int cell) {
  vs_flag("nlskip", 1);
  auto& a = st<tag::p_square_quantile>(acc);
  long cnt = vs_int("cnt", 5, CNT_MAX); double h[5], n[5], d[5], x = vs_real("x"); double inc[5] = {0, p / 2, p, (1 + p) / 2, 1};
  for (int i = 0; i < 5; ++i) {
    h[i] = vs_real("h"); n[i] = i == 0 ? 1. : i == 4 ? (double)cnt : vs_real("n"); d[i] = vs_real("d");
    a.heights[i] = h[i]; a.actual_positions[i] = n[i]; a.desired_positions[i] = d[i];
    if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); }
  }
  if (cell == 0) vs_assume_lt(x, h[0]); else if (cell == 5) vs_assume_le(h[4], x); else { vs_assume_le(h[cell - 1], x); vs_assume_lt(x, h[cell]); }
  st<tag::count>(acc).cnt = cnt;
  acc(x);
  bool nm; int c = ref_cell(5, h, x, nm); for (int i = c; i < 5; ++i) n[i] += 1;
  for (int i = 0; i < 5; ++i) d[i] += inc[i];
  for (int i = 1; i <= 3; ++i) ref_adjust(i, h, n, d[i]);
  for (int i = 0; i < 5; ++i) {
    vs_check_eq(a.heights[i], h[i], "p_square.heights"); vs_check_eq(a.actual_positions[i], n[i], "p_square.positions"); vs_check_eq(a.desired_positions[i], d[i], "p_square.desired");
  }
  vs_check_eq(p_square_quantile(acc), h[2], "p_square.result"); vs_check_ieq((long)count(acc), cnt + 1, "count.post");
  vs_cover("end");
}
static double prob() { double p = vs_real("p"); vs_assume_lt(0, p); vs_assume_lt(p, 1); return p; }
#define CONF(c) OB(step_conf##c) { double p = prob(); accumulator_set<double, stats<tag::p_square_quantile> > acc(quantile_probability = p); conf(acc, p, c); }
CONF(0) CONF(1) CONF(2) CONF(3) CONF(4) CONF(5)
OB(base_init) {
  double p = prob(); accumulator_set<double, stats<tag::p_square_quantile> > acc(quantile_probability = p); auto& a = st<tag::p_square_quantile>(acc);
  double inc[5] = {0, p / 2, p, (1 + p) / 2, 1};
  for (int i = 0; i < 5; ++i) { vs_check_eq(a.positions_increments[i], inc[i], "increments.init"); vs_check_eq(a.actual_positions[i], i + 1, "positions.init"); vs_check_eq(a.desired_positions[i], 1 + 4 * inc[i], "desired.init"); }
  double x[5]; for (int i = 0; i < 5; ++i) { x[i] = vs_real("x"); acc(x[i]); }
  for (int i = 1; i < 5; ++i) for (int j = i; j > 0 && x[j] < x[j - 1]; --j) std::swap(x[j], x[j - 1]);
  for (int i = 0; i < 5; ++i) { vs_check_eq(a.heights[i], x[i], "heights.first-five"); vs_check_eq(a.actual_positions[i], i + 1, "positions.first-five"); vs_check_eq(a.desired_positions[i], 1 + 4 * inc[i], "desired.first-five"); }
  vs_check_eq(p_square_quantile(acc), x[2], "median-of-five"); vs_cover("end");
}
// the reference update preserves the invariant: one marker
OB(lem_adjust_invariant) {
  double h[3], n[3]; for (int i = 0; i < 3; ++i) { h[i] = vs_real("h"); n[i] = vs_real("n"); if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } }
  double des = vs_real("d"); double h0 = h[0], h2 = h[2];
  ref_adjust(1, h, n, des);
  vs_check_le(h[0], h[1], "adjust.sorted.lower"); vs_check_le(h[1], h[2], "adjust.sorted.upper"); vs_check_lt(n[0], n[1], "adjust.positions.lower"); vs_check_lt(n[1], n[2], "adjust.positions.upper");
  vs_check_eq(h[0], h0, "adjust.frame"); vs_check_eq(h[2], h2, "adjust.frame");
  vs_cover("end");
}
// insertion: cell location keeps order, extremes are min and max
OB(lem_cell_invariant) {
  double h[5], g[5], n[5], x = vs_real("x"); for (int i = 0; i < 5; ++i) { h[i] = g[i] = vs_real("h"); n[i] = vs_real("n"); if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } }
  bool nm; int c = ref_cell(5, h, x, nm); for (int i = c; i < 5; ++i) n[i] += 1;
  for (int i = 1; i < 5; ++i) { vs_check_le(h[i - 1], h[i], "cell.sorted"); vs_check_lt(n[i - 1], n[i], "cell.positions"); }
  vs_check_eq(h[0], x < g[0] ? x : g[0], "cell.min"); vs_check_eq(h[4], x > g[4] ? x : g[4], "cell.max");
  vs_check(c >= 1 && c <= 4, "cell.range"); vs_cover("end");
}
