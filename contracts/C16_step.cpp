// C16: (weighted_)extended_p_square.  Invariant for cnt >= N = 2m+3: heights non-decreasing, positions strictly
// increasing, last = cnt (total weight), first = 1 (unweighted).  All N-2 inner markers free for m = 1; for
// m = 2, 3 every adjacent pair of inner markers free, the others within one position of their target.
#include "hpsq.hpp"
#include <vector>
typedef accumulator_set<double, stats<tag::extended_p_square> > U;
typedef accumulator_set<double, stats<tag::weighted_extended_p_square>, double> WT;
static std::vector<double> probs(int m) { std::vector<double> p(m); for (int i = 0; i < m; ++i) { p[i] = vs_real("p"); vs_assume_lt(i ? p[i - 1] : 0., p[i]); vs_assume_lt(p[i], 1); } return p; }
static void incs(int m, std::vector<double> const& p, double* inc) {
  inc[0] = 0; inc[2 * m + 2] = 1; for (int i = 0; i < m; ++i) inc[2 * i + 2] = p[i];
  for (int i = 1; i < 2 * m + 3; i += 2) inc[i] = (inc[i - 1] + inc[i + 1]) / 2;
}
template<class Rg> static void res(Rg r, int m, double const* h) {
  vs_check_ieq((long)r.size(), m, "extended_p_square.size");
  for (int i = 0; i < m; ++i) vs_check_eq(r[i], h[2 * i + 2], "extended_p_square.result");
  int k = 0; for (auto it = r.begin(); it != r.end(); ++it, ++k) vs_check_eq(*it, h[2 * k + 2], "extended_p_square.iteration"); vs_check_ieq(k, m, "extended_p_square.count");
}
static bool freem(int i, int only, int width) { return only < 0 || (i >= only && i < only + width); }
static void conf_u(int m, int cell, int only) {
  vs_flag("nlskip", 1); const int N = 2 * m + 3; std::vector<double> p = probs(m); double inc[11]; incs(m, p, inc);
  U acc(extended_p_square_probabilities = p); auto& a = st<tag::extended_p_square>(acc);
  long cnt = vs_int("cnt", N, CNT_MAX); double h[11], n[11], d[11], x = vs_real("x");
  for (int i = 0; i < N; ++i) {
    h[i] = vs_real("h"); n[i] = i == 0 ? 1. : i == N - 1 ? (double)cnt : vs_real("n"); d[i] = vs_real("d");
    if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); }
    if (i && i < N - 1 && !freem(i, only, 2)) { double e = (i >= (cell < 1 ? 1 : cell) ? 1. : 0.); d[i] = n[i] + e - inc[i]; }
    a.heights[i] = h[i]; a.actual_positions[i] = n[i]; a.desired_positions[i] = d[i];
  }
  if (cell == 0) vs_assume_lt(x, h[0]); else if (cell == N) vs_assume_le(h[N - 1], x); else { vs_assume_le(h[cell - 1], x); vs_assume_lt(x, h[cell]); }
  st<tag::count>(acc).cnt = cnt;
  acc(x);
  bool nm; int c = ref_cell(N, h, x, nm); for (int i = c; i < N; ++i) n[i] += 1;
  for (int i = 0; i < N; ++i) d[i] += inc[i];
  for (int i = 1; i < N - 1; ++i) ref_adjust(i, h, n, d[i]);
  for (int i = 0; i < N; ++i) { vs_check_eq(a.heights[i], h[i], "extended_p_square.heights"); vs_check_eq(a.actual_positions[i], n[i], "extended_p_square.positions"); vs_check_eq(a.desired_positions[i], d[i], "extended_p_square.desired"); }
  res(extended_p_square(acc), m, h); vs_cover("end");
}
static void conf_w(int m, int cell, int only) {
  vs_flag("nlskip", 1); const int N = 2 * m + 3; std::vector<double> p = probs(m); double inc[11]; incs(m, p, inc);
  WT acc(extended_p_square_probabilities = p); auto& a = st<tag::weighted_extended_p_square>(acc);
  long cnt = vs_int("cnt", N, CNT_MAX); double h[11], n[11], d[11], x = vs_real("x"), w = w_in("w");
  for (int i = 0; i < N; ++i) {
    h[i] = vs_real("h"); n[i] = vs_real("n");
    if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } else vs_assume_lt(0, n[0]);
    a.heights[i] = h[i]; a.actual_positions[i] = n[i]; a.desired_positions[i] = vs_real("d");
  }
  if (cell == 0) vs_assume_lt(x, h[0]); else if (cell == N) vs_assume_le(h[N - 1], x); else { vs_assume_le(h[cell - 1], x); vs_assume_lt(x, h[cell]); }
  st<tag::count>(acc).cnt = cnt; st<tag::sum_of_weights>(acc).sum = n[N - 1]; double W = n[N - 1] + w;
  bool nm; int c = ref_cell(N, h, x, nm); if (nm) n[0] = w; for (int i = c; i < N; ++i) n[i] += w;
  for (int i = 0; i < N; ++i) { d[i] = n[0] + (W - n[0]) * inc[i]; if (i && i < N - 1 && !freem(i, only, 2)) { vs_assume_lt(d[i] - n[i], 1); vs_assume_lt(-1, d[i] - n[i]); } }
  acc(x, weight = w);
  for (int i = 1; i < N - 1; ++i) ref_adjust(i, h, n, d[i]);
  for (int i = 0; i < N; ++i) { vs_check_eq(a.heights[i], h[i], "weighted_extended_p_square.heights"); vs_check_eq(a.actual_positions[i], n[i], "weighted_extended_p_square.positions"); vs_check_eq(a.desired_positions[i], d[i], "weighted_extended_p_square.desired"); }
  res(weighted_extended_p_square(acc), m, h); vs_cover("end");
}
#define M1(c) OB(step_unweighted_m1_cell##c) { conf_u(1, c, -1); } OB(step_weighted_m1_cell##c) { conf_w(1, c, -1); }
M1(0) M1(1) M1(2) M1(3) M1(4) M1(5)
OB(step_unweighted_m2_pairs) { conf_u(2, vs_choose("cell", 8), 1 + vs_choose("m", 4)); }
OB(step_weighted_m2_pairs) { conf_w(2, vs_choose("cell", 8), 1 + vs_choose("m", 4)); }
OB(step_unweighted_m3_pairs) { int c[4] = {0, 3, 6, 9}; conf_u(3, c[vs_choose("cell", 4)], 1 + vs_choose("m", 6)); }
OB(step_weighted_m3_pairs) { int c[4] = {0, 3, 6, 9}; conf_w(3, c[vs_choose("cell", 4)], 1 + vs_choose("m", 6)); }
OB(base_init) {
  int m = 1 + vs_choose("m", 3); const int N = 2 * m + 3; std::vector<double> p = probs(m); double inc[11]; incs(m, p, inc);
  U acc(tag::extended_p_square::probabilities = p); auto& a = st<tag::extended_p_square>(acc);
  for (int i = 0; i < N; ++i) { vs_check_eq(a.positions_increments[i], inc[i], "increments.init"); vs_check_eq(a.actual_positions[i], i + 1, "positions.init"); vs_check_eq(a.desired_positions[i], 1 + (N - 1) * inc[i], "desired.init"); }
  WT b(tag::weighted_extended_p_square::probabilities = p); vs_check_ieq((long)weighted_extended_p_square(b).size(), m, "weighted.size"); vs_check_ieq((long)extended_p_square(acc).size(), m, "size");
  vs_cover("end");
}
OB(base_first) {
  std::vector<double> p = probs(1); U acc(extended_p_square_probabilities = p); auto& a = st<tag::extended_p_square>(acc); double inc[5]; incs(1, p, inc);
  double x[5]; for (int i = 0; i < 5; ++i) { x[i] = vs_real("x"); acc(x[i]); }
  for (int i = 1; i < 5; ++i) for (int j = i; j > 0 && x[j] < x[j - 1]; --j) std::swap(x[j], x[j - 1]);
  for (int i = 0; i < 5; ++i) { vs_check_eq(a.heights[i], x[i], "heights.first"); vs_check_eq(a.actual_positions[i], i + 1, "positions.first"); vs_check_eq(a.desired_positions[i], 1 + 4 * inc[i], "desired.first"); }
  vs_check_eq(extended_p_square(acc)[0], x[2], "result.first"); vs_cover("end");
}
OB(base_weighted_first) {
  std::vector<double> p = probs(1); WT acc(extended_p_square_probabilities = p); auto& a = st<tag::weighted_extended_p_square>(acc);
  double x[5], w[5]; for (int i = 0; i < 5; ++i) { x[i] = vs_real("x"); w[i] = w_in("w"); for (int j = 0; j < i; ++j) vs_assume_ne(x[j], x[i]); acc(x[i], weight = w[i]); }
  ref_sort(5, x, w);
  for (int i = 0; i < 5; ++i) { vs_check_eq(a.heights[i], x[i], "heights.first"); vs_check_eq(a.actual_positions[i], w[i], "positions.first"); }
  vs_check_eq(weighted_extended_p_square(acc)[0], x[2], "result.first"); vs_cover("end");
}
OB(lem_adjust_invariant) {
  double h[3], n[3]; for (int i = 0; i < 3; ++i) { h[i] = vs_real("h"); n[i] = vs_real("n"); if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } }
  double des = vs_real("d"); double h0 = h[0], h2 = h[2];
  ref_adjust(1, h, n, des);
  vs_check_le(h[0], h[1], "adjust.sorted.lower"); vs_check_le(h[1], h[2], "adjust.sorted.upper"); vs_check_lt(n[0], n[1], "adjust.positions.lower"); vs_check_lt(n[1], n[2], "adjust.positions.upper");
  vs_check_eq(h[0], h0, "adjust.frame"); vs_check_eq(h[2], h2, "adjust.frame"); vs_cover("end");
}
OB(lem_cell_invariant) {
  int N = 5 + 2 * vs_choose("N", 3); double h[11], g[11], n[11], x = vs_real("x"), w = w_in("w"); for (int i = 0; i < N; ++i) { h[i] = g[i] = vs_real("h"); n[i] = vs_real("n"); if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } else vs_assume_lt(0, n[0]); }
  double W = n[N - 1] + w; bool nm; int c = ref_cell(N, h, x, nm); if (nm) n[0] = w; for (int i = c; i < N; ++i) n[i] += w;
  vs_check_lt(0, n[0], "cell.positive"); vs_check_eq(n[N - 1], W, "cell.total");
  for (int i = 1; i < N; ++i) { vs_check_le(h[i - 1], h[i], "cell.sorted"); vs_check_lt(n[i - 1], n[i], "cell.positions"); }
  vs_check_eq(h[0], x < g[0] ? x : g[0], "cell.min"); vs_check_eq(h[N - 1], x > g[N - 1] ? x : g[N - 1], "cell.max"); vs_cover("end");
}
