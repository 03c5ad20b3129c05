// C15: P-square cumulative distributions through the public interface against the published algorithm
#include "hpsq.hpp"
struct R { double h[130], n[130], d[130]; int b; long cnt; double W; bool wt;
  R(int q, bool t) : b(q), cnt(0), W(0), wt(t) {}
  void operator()(double x, double w) {
    const int N = b + 1; ++cnt; W += w;
    if (cnt <= N) { h[cnt - 1] = x; n[cnt - 1] = w; if (cnt == N) { ref_sort(N, h, n); for (int i = 0; i < N; ++i) d[i] = i + 1; } return; }
    bool nm; int c = ref_cell(N, h, x, nm); if (nm && wt) n[0] = w; for (int i = c; i < N; ++i) n[i] += w;
    for (int i = 1; i < N; ++i) d[i] = wt ? n[0] + (W - n[0]) * i / b : d[i] + (double)i / b;
    for (int i = 1; i < b; ++i) ref_adjust(i, h, n, d[i]);
  }
  template<class H> void check(H r, double lo, double hi) {
    vs_check_ieq((long)r.size(), b + 1, "cumul_dist.size");
    for (int i = 0; i <= b; ++i) { vs_check_eq(r[i].first, h[i], "cumul_dist.heights"); vs_check_eq(r[i].second, n[i] / W, "cumul_dist.fraction");
      if (i) { vs_check_le(r[i - 1].first, r[i].first, "cumul_dist.monotone.heights"); vs_check_le(r[i - 1].second, r[i].second, "cumul_dist.monotone.fraction"); } }
    vs_check_eq(r[0].first, lo, "cumul_dist.min"); vs_check_eq(r[b].first, hi, "cumul_dist.max"); vs_check_eq(r[b].second, 1, "cumul_dist.total");
  }
};
static int cells() { if (vs_native()) { int k[4] = {1, 2, 4, 8}; return k[vs_choose("b", 4)]; } return 1 + vs_choose("b", 3); }
OB(hist_unweighted) {
  int b = cells(); accumulator_set<double, stats<tag::p_square_cumulative_distribution> > acc(p_square_cumulative_distribution_num_cells = b);
  R r(b, false); long n = vs_len("n", b + 1, b + 1, 60); double lo = 0, hi = 0;
  static Past past; past = Past(); for (long i = 0; i < n; ++i) { double x = draw(past, i); if (!vs_native()) for (long j = 0; j < i; ++j) vs_assume_ne(x, r.h[j]); acc(x); r(x, 1); lo = i && lo < x ? lo : x; hi = i && hi > x ? hi : x;
    if (i >= b && (!vs_native() || vs_choose("q", 2))) r.check(p_square_cumulative_distribution(acc), lo, hi); }
  vs_cover("end");
}
OB(hist_weighted) {
  int b = cells(); accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> acc(p_square_cumulative_distribution_num_cells = b);
  R r(b, true); long n = vs_len("n", b + 1, b + 1, 60); double lo = 0, hi = 0;
  static Past past; past = Past(); for (long i = 0; i < n; ++i) { double x = draw(past, i, b + 1), w = w_in("w"); if (!vs_native()) for (long j = 0; j < i; ++j) vs_assume_ne(x, r.h[j]); acc(x, weight = w); r(x, w); lo = i && lo < x ? lo : x; hi = i && hi > x ? hi : x;
    if (i >= b && (!vs_native() || vs_choose("q", 2))) r.check(weighted_p_square_cumulative_distribution(acc), lo, hi); }
  vs_cover("end");
}
// many cells: a fixed history, then one arbitrary sample
template<bool W, class A, class Q> static void wide(A& acc, Q q, int b, int more) {
  static R r(1, W); r = R(b, W); double lo = 0, hi = 0; int n = b + 1 + more;
  for (int i = 0; i <= n; ++i) { double x = i == n ? vs_real("x") : wide_sample(i), w = W ? 0.5 + i % 3 : 1; if constexpr (W) acc(x, weight = w); else acc(x); r(x, w); lo = i && lo < x ? lo : x; hi = i && hi > x ? hi : x; if (i == n - 1 || i == b) r.check(q(acc), lo, hi); }
  r.check(q(acc), lo, hi); vs_cover("end");
}
static void wide_u(int b, int more) { accumulator_set<double, stats<tag::p_square_cumulative_distribution> > a(p_square_cumulative_distribution_num_cells = b); wide<false>(a, [](auto& s) { return p_square_cumulative_distribution(s); }, b, more); }
static void wide_w(int b, int more) { accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> a(p_square_cumulative_distribution_num_cells = b); wide<true>(a, [](auto& s) { return weighted_p_square_cumulative_distribution(s); }, b, more); }
OB(hist_wide_unweighted) { wide_u(20, 30); }
OB(hist_wide_weighted) { wide_w(20, 20); }
OB(hist_wide_unweighted_100) { wide_u(100, 4); }
OB(hist_wide_weighted_100) { wide_w(100, 4); }
OB(hist_wide_unweighted_sizes) { wide_u(5 + vs_choose("b", 14), 10); }
OB(hist_wide_weighted_sizes) { wide_w(5 + vs_choose("b", 14), 10); }
