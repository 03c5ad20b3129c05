// C09: rolling statistics, public interface, every prefix, recomputed from the last W samples
#include "hroll.hpp"
template<class T> struct H { T x[1024]; long n; int W; long c() { return n < W ? n : W; }
  double pw(int k) { double s = 0; for (long i = n - c(); i < n; ++i) { double p = 1; for (int j = 0; j < k; ++j) p *= (double)x[i]; s += p; } return s; }
  double var() { long m = c(); if (m < 2) return 0; double a = pw(1) / m, v = 0; for (long i = n - m; i < n; ++i) v += ((double)x[i] - a) * ((double)x[i] - a); return v / (m - 1); } };
template<class T> static T sm(const char* n) { return in<T>(n); }
template<> int sm<int>(const char* n) { return (int)vs_int(n, -1000, 1000); }
template<> unsigned sm<unsigned>(const char* n) { return (unsigned)vs_int(n, 0, 1000); }
template<class T, class F> static void go(int Wmax, F f, int len = 0) {
  static H<T> h; h.n = 0; h.W = 1 + vs_choose("W", vs_native() ? 9 : Wmax);
  long n = vs_len("n", len ? len : 2 * Wmax + 2, len ? len : 2 * Wmax + 2, 40);
  for (; h.n < n;) { h.x[h.n] = sm<T>("x"); ++h.n; if (!f(h, h.x[h.n - 1])) break; }
  vs_cover("end");
}
OB(hist_sum) {
  typedef accumulator_set<double, stats<tag::rolling_sum, tag::rolling_mean(lazy), tag::rolling_moment<2>, tag::rolling_moment<3> > > A; A* a = 0;
  go<double>(3, [&](H<double>& h, double x) { if (!a) a = new A(tag::rolling_window::window_size = h.W); (*a)(x);
    vs_check_eq(rolling_sum(*a), h.pw(1), "rolling_sum"); vs_check_eq(rolling_mean(*a), h.pw(1) / h.c(), "lazy_rolling_mean");
    vs_check_eq(rolling_moment<2>(*a), h.pw(2) / h.c(), "rolling_moment2"); vs_check_eq(rolling_moment<3>(*a), h.pw(3) / h.c(), "rolling_moment3"); vs_check_ieq(rolling_count(*a), h.c(), "rolling_count"); return true; });
  delete a;
}
OB(hist_mean) {
  typedef accumulator_set<double, stats<tag::rolling_mean> > A; A* a = 0;
  go<double>(2, [&](H<double>& h, double x) { if (!a) a = new A(tag::rolling_window::window_size = h.W); (*a)(x); vs_check_eq(rolling_mean(*a), h.pw(1) / h.c(), "rolling_mean"); return true; });
  delete a;
}
OB(hist_mean_int) {
  typedef accumulator_set<int, stats<tag::rolling_mean> > A; A* a = 0;
  go<int>(2, [&](H<int>& h, int x) { if (!a) a = new A(tag::rolling_window::window_size = h.W); (*a)(x); vs_check_eq(rolling_mean(*a), h.pw(1) / h.c(), "rolling_mean"); return true; });
  delete a;
}
OB(hist_mean_unsigned) {
  typedef accumulator_set<unsigned, stats<tag::rolling_mean, tag::rolling_sum> > A; A* a = 0;
  go<unsigned>(2, [&](H<unsigned>& h, unsigned x) { if (!a) a = new A(tag::rolling_window::window_size = h.W); (*a)(x); vs_check_eq(rolling_mean(*a), h.pw(1) / h.c(), "rolling_mean"); vs_check_eq((double)rolling_sum(*a), h.pw(1), "rolling_sum"); return true; });
  delete a;
}
OB(hist_lazyvar) {
  typedef accumulator_set<double, stats<tag::rolling_variance(lazy)> > A; A* a = 0;
  go<double>(2, [&](H<double>& h, double x) { if (!a) a = new A(tag::rolling_window::window_size = h.W); (*a)(x); vs_check_eq(rolling_variance(*a), h.var(), "lazy_rolling_variance"); return true; });
  delete a;
}
OB(hist_lazyvar_int) {
  typedef accumulator_set<int, stats<tag::rolling_variance(lazy), tag::rolling_sum> > A; A* a = 0;
  go<int>(2, [&](H<int>& h, int x) { if (!a) a = new A(tag::rolling_window::window_size = h.W); (*a)(x); vs_check_eq(rolling_variance(*a), h.var(), "lazy_rolling_variance"); vs_check_eq(rolling_sum(*a), h.pw(1), "rolling_sum"); return true; });
  delete a;
}
OB(hist_variance) {
  vs_flag("nlskip", 2);
  typedef accumulator_set<double, stats<tag::rolling_variance> > A; A* a = 0;
  go<double>(2, [&](H<double>& h, double x) { if (!a) a = new A(tag::rolling_window::window_size = h.W); vs_assume_le(0, h.var()); (*a)(x); vs_check_eq(rolling_variance(*a), h.var(), "rolling_variance"); return true; }, 4);
  delete a;
}
OB(hist_variance_int) {
  vs_flag("nlskip", 2);
  typedef accumulator_set<int, stats<tag::rolling_variance> > A; A* a = 0;
  go<int>(2, [&](H<int>& h, int x) { if (!a) a = new A(tag::rolling_window::window_size = h.W); vs_assume_le(0, h.var()); (*a)(x); vs_check_eq(rolling_variance(*a), h.var(), "rolling_variance"); return true; }, 4);
  delete a;
}
OB(hist_copy) {
  typedef accumulator_set<double, stats<tag::rolling_sum, tag::rolling_mean(lazy), tag::rolling_moment<2> > > A; A* a = 0;
  go<double>(2, [&](H<double>& h, double x) { if (!a) a = new A(tag::rolling_window::window_size = h.W); (*a)(x); A b(*a); b(100.); b(-30.); vs_check_eq(rolling_sum(*a), h.pw(1), "rolling_sum");
    A* c = new A(*a); delete a; a = c; return true; });
  delete a;
}
// wide windows on the real container: fixed samples, the last (for the sums: every seventh) one arbitrary
template<class A, class F> static void wide(int W, int n, F f, int every = 0) {
  static H<double> h; h.n = 0; h.W = W; A a(tag::rolling_window::window_size = W);
  for (; h.n < n;) { double x = h.n == n - 1 || (every && h.n % every == 0 && !vs_native()) ? vs_real("x") : wide_sample((int)h.n); h.x[h.n++] = x; a(x); if (h.n % 9 == 0 || h.n == W || h.n == W + 1 || h.n == n) f(a, h); }
  vs_cover("end");
}
OB(hist_wide_sum) { int W = 4 + 3 * vs_choose("W", 12);
  wide<accumulator_set<double, stats<tag::rolling_sum, tag::rolling_mean(lazy), tag::rolling_moment<2> > > >(W, 2 * W + 5, [](auto& a, H<double>& h) { vs_check_eq(rolling_sum(a), h.pw(1), "rolling_sum"); vs_check_eq(rolling_mean(a), h.pw(1) / h.c(), "lazy_rolling_mean"); vs_check_eq(rolling_moment<2>(a), h.pw(2) / h.c(), "rolling_moment2"); vs_check_ieq(rolling_count(a), h.c(), "rolling_count"); }, 7); }
OB(hist_wide_mean) { int W = 4 + 3 * vs_choose("W", 12); wide<accumulator_set<double, stats<tag::rolling_mean> > >(W, 2 * W + 5, [](auto& a, H<double>& h) { vs_check_eq(rolling_mean(a), h.pw(1) / h.c(), "rolling_mean"); }); }
OB(hist_wide_lazyvar) { int W = 4 + 3 * vs_choose("W", 12); wide<accumulator_set<double, stats<tag::rolling_variance(lazy)> > >(W, 2 * W + 5, [](auto& a, H<double>& h) { vs_check_eq(rolling_variance(a), h.var(), "lazy_rolling_variance"); }); }
OB(hist_wide_variance) { int W = 4 + 3 * vs_choose("W", 12), n = 2 * W + 5; static H<double> h; h.n = 0; h.W = W; accumulator_set<double, stats<tag::rolling_variance> > a(tag::rolling_window::window_size = W);
  for (; h.n < n;) { double x = wide_sample((int)h.n); h.x[h.n++] = x; a(x); if (h.n % 9 == 0 || h.n == W || h.n == W + 1 || h.n == n) vs_check_eq(rolling_variance(a), h.var(), "rolling_variance"); } vs_cover("end"); }
