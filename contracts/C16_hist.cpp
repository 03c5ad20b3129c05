// C16: extended P-square through the public interface against the published algorithm
#include "hpsq.hpp"
#include <vector>
struct R { double h[130], n[130], d[130], inc[130]; int m, N; long cnt; double W; bool wt;
  R(std::vector<double> const& p, bool t) : m((int)p.size()), N(2 * m + 3), cnt(0), W(0), wt(t) {
    inc[0] = 0; inc[N - 1] = 1; for (int i = 0; i < m; ++i) inc[2 * i + 2] = p[i]; for (int i = 1; i < N; i += 2) inc[i] = (inc[i - 1] + inc[i + 1]) / 2; }
  void operator()(double x, double w) {
    ++cnt; W += w;
    if (cnt <= N) { h[cnt - 1] = x; n[cnt - 1] = w; if (cnt == N) { ref_sort(N, h, n); for (int i = 0; i < N; ++i) d[i] = 1 + (N - 1) * inc[i]; } return; }
    bool nm; int c = ref_cell(N, h, x, nm); if (nm && wt) n[0] = w; for (int i = c; i < N; ++i) n[i] += w;
    for (int i = 0; i < N; ++i) d[i] = wt ? n[0] + (W - n[0]) * inc[i] : d[i] + inc[i];
    for (int i = 1; i < N - 1; ++i) ref_adjust(i, h, n, d[i]);
  }
  template<class H> void check(H r, double lo, double hi) {
    vs_check_ieq((long)r.size(), m, "extended_p_square.size");
    for (int i = 0; i < m; ++i) { vs_check_eq(r[i], h[2 * i + 2], "extended_p_square.result"); vs_check_le(i ? (double)r[i - 1] : lo, r[i], "extended_p_square.ordered"); vs_check_le(r[i], hi, "extended_p_square.max"); }
  }
};
static std::vector<double> probs() {
  if (vs_native()) { int m = 1 + vs_choose("m", 4); std::vector<double> p(m); double lo = 0; for (int i = 0; i < m; ++i) { lo += (1 + vs_choose("p", 6)) / 32.; p[i] = lo; } return p; }
  std::vector<double> p(1); p[0] = vs_real("p"); vs_assume_lt(0, p[0]); vs_assume_lt(p[0], 1); return p;
}
OB(hist_unweighted) {
  std::vector<double> p = probs(); accumulator_set<double, stats<tag::extended_p_square> > acc(extended_p_square_probabilities = p);
  R r(p, false); long n = vs_len("n", r.N, r.N, 60); double lo = 0, hi = 0;
  static Past past; past = Past(); for (long i = 0; i < n; ++i) { double x = draw(past, i); if (!vs_native()) for (long j = 0; j < i; ++j) vs_assume_ne(x, r.h[j]); acc(x); r(x, 1); lo = i && lo < x ? lo : x; hi = i && hi > x ? hi : x;
    if (i >= r.N - 1) r.check(extended_p_square(acc), lo, hi); }
  vs_cover("end");
}
OB(hist_weighted) {
  std::vector<double> p = probs(); accumulator_set<double, stats<tag::weighted_extended_p_square>, double> acc(extended_p_square_probabilities = p);
  R r(p, true); long n = vs_len("n", r.N, r.N, 60); double lo = 0, hi = 0;
  static Past past; past = Past(); for (long i = 0; i < n; ++i) { double x = draw(past, i, r.N), w = w_in("w"); if (!vs_native()) for (long j = 0; j < i; ++j) vs_assume_ne(x, r.h[j]); acc(x, weight = w); r(x, w); lo = i && lo < x ? lo : x; hi = i && hi > x ? hi : x;
    if (i >= r.N - 1) r.check(weighted_extended_p_square(acc), lo, hi); }
  vs_cover("end");
}
// many probabilities: a fixed history, then one arbitrary sample
template<bool W, class A, class Q> static void wide(A& acc, Q q, std::vector<double> const& p, int more) {
  R r(p, W); double lo = 0, hi = 0; int n = r.N + more;
  for (int i = 0; i <= n; ++i) { double x = i == n ? vs_real("x") : wide_sample(i), w = W ? 0.5 + i % 3 : 1; if constexpr (W) acc(x, weight = w); else acc(x); r(x, w); lo = i && lo < x ? lo : x; hi = i && hi > x ? hi : x; if (i == n - 1 || i == r.N - 1) r.check(q(acc), lo, hi); }
  r.check(q(acc), lo, hi); vs_cover("end");
}
static std::vector<double> wp(int m) { std::vector<double> p(m); for (int i = 0; i < m; ++i) p[i] = (i + 1) / 64. + (i % 3) / 256.; return p; }
static void wide_u(int m, int more) { std::vector<double> p = wp(m); accumulator_set<double, stats<tag::extended_p_square> > a(extended_p_square_probabilities = p); wide<false>(a, [](auto& s) { return extended_p_square(s); }, p, more); }
static void wide_w(int m, int more) { std::vector<double> p = wp(m); accumulator_set<double, stats<tag::weighted_extended_p_square>, double> a(extended_p_square_probabilities = p); wide<true>(a, [](auto& s) { return weighted_extended_p_square(s); }, p, more); }
OB(hist_wide_unweighted) { wide_u(10, 30); }
OB(hist_wide_weighted) { wide_w(10, 20); }
OB(hist_wide_unweighted_50) { wide_u(50, 4); }
OB(hist_wide_weighted_50) { wide_w(50, 4); }
OB(hist_wide_unweighted_sizes) { wide_u(2 + vs_choose("m", 8), 10); }
OB(hist_wide_weighted_sizes) { wide_w(2 + vs_choose("m", 8), 10); }
