// C15: (weighted_)p_square_cumulative_distribution.  Invariant for cnt >= b+1 (b cells, markers 0..b): heights
// non-decreasing, positions strictly increasing, last position = cnt (total weight), first = 1 (unweighted).
// The markers are decided for b = 1, 2, 3, 4 in full and marker by marker for b = 6.
#include "hpsq.hpp"
typedef accumulator_set<double, stats<tag::p_square_cumulative_distribution> > U;
typedef accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> WT;
// only: -1 all markers free; otherwise the other inner markers are at their desired position
static void conf_u(int b, int cell, int only) {
  vs_flag("nlskip", 1); const int N = b + 1;
  U acc(tag::p_square_cumulative_distribution::num_cells = b); auto& a = st<tag::p_square_cumulative_distribution>(acc);
  long cnt = vs_int("cnt", b + 1, CNT_MAX); double h[9], n[9], d[9], x = vs_real("x");
  for (int i = 0; i < N; ++i) {
    h[i] = vs_real("h"); n[i] = i == 0 ? 1. : i == b ? (double)cnt : vs_real("n"); d[i] = vs_real("d");
    if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); }
    if (only >= 0 && i && i < b && i != only) { double e = (i >= (cell < 1 ? 1 : cell) ? 1. : 0.); d[i] = n[i] + e - (double)i / b; }
    a.heights[i] = h[i]; a.actual_positions[i] = n[i]; a.desired_positions[i] = d[i];
  }
  if (cell == 0) vs_assume_lt(x, h[0]); else if (cell == N) vs_assume_le(h[b], x); else { vs_assume_le(h[cell - 1], x); vs_assume_lt(x, h[cell]); }
  st<tag::count>(acc).cnt = cnt;
  acc(x);
  bool nm; int c = ref_cell(N, h, x, nm); for (int i = c; i < N; ++i) n[i] += 1;
  for (int i = 1; i < N; ++i) d[i] += (double)i / b;
  for (int i = 1; i < b; ++i) ref_adjust(i, h, n, d[i]);
  auto r = p_square_cumulative_distribution(acc);
  vs_check_ieq((long)r.size(), N, "cumul_dist.size");
  for (int rep = 0; rep < 2; ++rep) for (int i = 0; i < N; ++i) { vs_check_eq(r[i].first, h[i], "cumul_dist.heights"); vs_check_eq(r[i].second, n[i] / ((double)cnt + 1), "cumul_dist.fraction"); if (i) vs_check_eq(a.desired_positions[i], d[i], "cumul_dist.desired"); if (rep == 0) r = p_square_cumulative_distribution(acc); }
  vs_check_eq(r[b].second, 1, "cumul_dist.total"); vs_cover("end");
}
static void conf_w(int b, int cell, int only) {
  vs_flag("nlskip", 1); const int N = b + 1;
  WT acc(tag::p_square_cumulative_distribution::num_cells = b); auto& a = st<tag::weighted_p_square_cumulative_distribution>(acc);
  long cnt = vs_int("cnt", b + 1, CNT_MAX); double h[9], n[9], d[9], x = vs_real("x"), w = w_in("w");
  for (int i = 0; i < N; ++i) {
    h[i] = vs_real("h"); n[i] = vs_real("n");
    if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } else vs_assume_lt(0, n[0]);
    a.heights[i] = h[i]; a.actual_positions[i] = n[i]; a.desired_positions[i] = vs_real("d");
  }
  if (cell == 0) vs_assume_lt(x, h[0]); else if (cell == N) vs_assume_le(h[b], x); else { vs_assume_le(h[cell - 1], x); vs_assume_lt(x, h[cell]); }
  st<tag::count>(acc).cnt = cnt; st<tag::sum_of_weights>(acc).sum = n[b]; double W = n[b] + w;
  double g[9]; for (int i = 0; i < N; ++i) g[i] = h[i];
  bool nm; int c = ref_cell(N, h, x, nm); if (nm) n[0] = w; for (int i = c; i < N; ++i) n[i] += w;
  for (int i = 1; i < N; ++i) { d[i] = n[0] + (W - n[0]) * i / b; if (only >= 0 && i < b && i != only) { vs_assume_lt(d[i] - n[i], 1); vs_assume_lt(-1, d[i] - n[i]); } }
  acc(x, weight = w);
  for (int i = 1; i < b; ++i) ref_adjust(i, h, n, d[i]);
  auto r = weighted_p_square_cumulative_distribution(acc);
  vs_check_ieq((long)r.size(), N, "cumul_dist.size");
  for (int rep = 0; rep < 2; ++rep) for (int i = 0; i < N; ++i) { vs_check_eq(r[i].first, h[i], "cumul_dist.heights"); vs_check_eq(r[i].second, n[i] / W, "cumul_dist.fraction"); if (rep == 0) r = weighted_p_square_cumulative_distribution(acc); }
  vs_check_eq(r[b].second, 1, "cumul_dist.total"); vs_cover("end");
}
#define B(b) OB(step_unweighted_b##b) { conf_u(b, vs_choose("cell", b + 2), -1); } OB(step_weighted_b##b) { conf_w(b, vs_choose("cell", b + 2), -1); }
B(1) B(2) B(3)
#define B4(c) OB(step_unweighted_b4_cell##c) { conf_u(4, c, -1); } OB(step_weighted_b4_cell##c) { conf_w(4, c, -1); }
B4(0) B4(1) B4(2) B4(3) B4(4) B4(5)
OB(step_unweighted_b6_single) { conf_u(6, vs_choose("cell", 8), 1 + vs_choose("m", 5)); }
OB(step_weighted_b6_single) { conf_w(6, vs_choose("cell", 8), 1 + vs_choose("m", 5)); }
OB(base_unweighted) {
  int b = 1 + vs_choose("b", 4); U acc(p_square_cumulative_distribution_num_cells = b); auto& a = st<tag::p_square_cumulative_distribution>(acc);
  double x[5]; for (int i = 0; i <= b; ++i) { x[i] = vs_real("x"); acc(x[i]); }
  for (int i = 1; i <= b; ++i) for (int j = i; j > 0 && x[j] < x[j - 1]; --j) std::swap(x[j], x[j - 1]);
  auto r = p_square_cumulative_distribution(acc);
  for (int i = 0; i <= b; ++i) { vs_check_eq(r[i].first, x[i], "first.heights"); vs_check_eq(r[i].second, (i + 1.) / (b + 1), "first.fraction"); vs_check_eq(a.desired_positions[i], i + 1, "first.desired"); vs_check_eq(a.positions_increments[i], (double)i / b, "first.increments"); }
  vs_cover("end");
}
OB(base_weighted) {
  int b = 1 + vs_choose("b", 4); WT acc(p_square_cumulative_distribution_num_cells = b);
  double x[5], w[5]; for (int i = 0; i <= b; ++i) { x[i] = vs_real("x"); w[i] = w_in("w"); for (int j = 0; j < i; ++j) vs_assume_ne(x[j], x[i]); acc(x[i], weight = w[i]); }
  ref_sort(b + 1, x, w);
  auto r = weighted_p_square_cumulative_distribution(acc);
  for (int i = 0; i <= b; ++i) { vs_check_eq(r[i].first, x[i], "first.heights"); vs_check_eq(r[i].second, w[i] / w[b], "first.fraction"); }
  vs_cover("end");
}
// the reference step preserves the invariant, one marker and one cell at a time (any number of markers by frame)
OB(lem_adjust_invariant) {
  double h[3], n[3]; for (int i = 0; i < 3; ++i) { h[i] = vs_real("h"); n[i] = vs_real("n"); if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } }
  double des = vs_real("d"); double h0 = h[0], h2 = h[2];
  ref_adjust(1, h, n, des);
  vs_check_le(h[0], h[1], "adjust.sorted.lower"); vs_check_le(h[1], h[2], "adjust.sorted.upper"); vs_check_lt(n[0], n[1], "adjust.positions.lower"); vs_check_lt(n[1], n[2], "adjust.positions.upper");
  vs_check_eq(h[0], h0, "adjust.frame"); vs_check_eq(h[2], h2, "adjust.frame"); vs_cover("end");
}
OB(lem_cell_invariant) {
  int N = 2 + vs_choose("N", 5); double h[9], g[9], n[9], x = vs_real("x"), w = w_in("w"); for (int i = 0; i < N; ++i) { h[i] = g[i] = vs_real("h"); n[i] = vs_real("n"); if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } else vs_assume_lt(0, n[0]); }
  double W = n[N - 1] + w; bool nm; int c = ref_cell(N, h, x, nm); if (nm) n[0] = w; for (int i = c; i < N; ++i) n[i] += w;
  vs_check_lt(0, n[0], "cell.positive"); vs_check_eq(n[N - 1], W, "cell.total");
  for (int i = 1; i < N; ++i) { vs_check_le(h[i - 1], h[i], "cell.sorted"); vs_check_lt(n[i - 1], n[i], "cell.positions"); }
  vs_check_eq(h[0], x < g[0] ? x : g[0], "cell.min"); vs_check_eq(h[N - 1], x > g[N - 1] ? x : g[N - 1], "cell.max"); vs_cover("end");
}
