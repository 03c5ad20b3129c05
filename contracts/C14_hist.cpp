// C14: P-square quantiles through the public interface against the published algorithm
#include "hpsq.hpp"
struct R { double h[5], n[5], d[5], p; long cnt; double W; bool wt;
  R(double q, bool t) : p(q), cnt(0), W(0), wt(t) {}
  void operator()(double x, double w) {
    double inc[5] = {0, p / 2, p, (1 + p) / 2, 1}; ++cnt; W += w;
    if (cnt <= 5) { h[cnt - 1] = x; n[cnt - 1] = w; if (cnt == 5) { ref_sort(5, h, n); for (int i = 0; i < 5; ++i) d[i] = 1 + 4 * inc[i]; } return; }
    bool nm; int c = ref_cell(5, h, x, nm); if (nm && wt) n[0] = w; for (int i = c; i < 5; ++i) n[i] += w;
    for (int i = 0; i < 5; ++i) d[i] = wt ? n[0] + (W - n[0]) * inc[i] : d[i] + inc[i];
    for (int i = 1; i <= 3; ++i) ref_adjust(i, h, n, d[i]);
  }
};
static double prob() { if (vs_native()) return (1 + vs_choose("p", 15)) / 16.; double p = vs_real("p"); vs_assume_lt(0, p); vs_assume_lt(p, 1); return p; }
template<class Tag, class A> static void unw(A& acc, double p) {
  R r(p, false); long n = vs_len("n", 5, 5, 60); double lo = 0, hi = 0;
  static Past past; past = Past(); for (long i = 0; i < n; ++i) { double x = draw(past, i); if (!vs_native()) for (long j = 0; j < i && j < 5; ++j) vs_assume_ne(x, r.h[j]); acc(x); r(x, 1); lo = i && lo < x ? lo : x; hi = i && hi > x ? hi : x;
    if (i >= 4) { double q = extractor<Tag>()(acc); vs_check_eq(q, r.h[2], "p_square_quantile.result"); vs_check_le(lo, q, "p_square_quantile.min"); vs_check_le(q, hi, "p_square_quantile.max"); } }
  vs_cover("end");
}
template<class Tag, class A> static void wtd(A& acc, double p) {
  R r(p, true); long n = vs_len("n", 5, 5, 60); double lo = 0, hi = 0;
  static Past past; past = Past(); for (long i = 0; i < n; ++i) { double x = draw(past, i, 5), w = w_in("w"); if (!vs_native()) for (long j = 0; j < i && j < 5; ++j) vs_assume_ne(x, r.h[j]); acc(x, weight = w); r(x, w); lo = i && lo < x ? lo : x; hi = i && hi > x ? hi : x;
    if (i >= 4) { double q = extractor<Tag>()(acc); vs_check_eq(q, r.h[2], "weighted_p_square_quantile.result"); vs_check_le(lo, q, "weighted_p_square_quantile.min"); vs_check_le(q, hi, "weighted_p_square_quantile.max"); } }
  vs_cover("end");
}
OB(hist_quantile) { double p = prob(); accumulator_set<double, stats<tag::p_square_quantile> > a(quantile_probability = p); unw<tag::p_square_quantile>(a, p); }
OB(hist_median) { accumulator_set<double, stats<tag::p_square_quantile_for_median> > a; unw<tag::p_square_quantile_for_median>(a, 0.5); }
OB(hist_weighted_quantile) { double p = prob(); accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> a(quantile_probability = p); wtd<tag::weighted_p_square_quantile>(a, p); }
OB(hist_weighted_median) { accumulator_set<double, stats<tag::weighted_p_square_quantile_for_median>, double> a; wtd<tag::weighted_p_square_quantile_for_median>(a, 0.5); }
