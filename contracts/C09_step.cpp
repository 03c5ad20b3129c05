// C09 on the real circular_buffer: arbitrary window contents at every fill level and wrap-around
// phase (so, any history), window sizes enumerated; all rolling statistics from the window itself.
#include "hroll.hpp"
template<class T> struct Win { T w[40]; int n; double sum() { double s = 0; for (int i = 0; i < n; ++i) s += (double)w[i]; return s; }
  double pw(int k) { double s = 0; for (int i = 0; i < n; ++i) { double p = 1; for (int j = 0; j < k; ++j) p *= (double)w[i]; s += p; } return s; }
  double var() { if (n < 2) return 0; double m = sum() / n, v = 0; for (int i = 0; i < n; ++i) v += ((double)w[i] - m) * ((double)w[i] - m); return v / (n - 1); }
  double ss() { if (n < 1) return 0; double m = sum() / n, v = 0; for (int i = 0; i < n; ++i) v += ((double)w[i] - m) * ((double)w[i] - m); return v; } };
template<class T, class A> static Win<T> havoc(A& acc, int W, Win<T>& after, T x) {
  int k = vs_choose("k", 2 * W + 3);
  for (int i = 0; i < k; ++i) acc(T(0));
  auto& b = st<tag::rolling_window_plus1>(acc).buffer_; T w[40]; int s = (int)b.size();
  for (int i = 0; i < s; ++i) b[i] = w[i] = in<T>("w");
  w[s] = x; Win<T> cur; int c = s < W ? s : W; cur.n = c; for (int i = 0; i < c; ++i) cur.w[i] = w[s - c + i];
  int c1 = s + 1 < W ? s + 1 : W; after.n = c1; for (int i = 0; i < c1; ++i) after.w[i] = w[s + 1 - c1 + i];
  return cur;
}
template<class T> static void lin_(int Wmax) {
  int W = 1 + vs_choose("W", Wmax); T x = in<T>("x"); Win<T> a;
  accumulator_set<T, stats<tag::rolling_sum, tag::rolling_moment<2>, tag::rolling_mean> > acc(tag::rolling_window::window_size = W);
  Win<T> c = havoc<T>(acc, W, a, x);
  T S = 0; for (int i = 0; i < c.n; ++i) S += c.w[i];
  st<tag::rolling_sum>(acc).sum_ = S; st<tag::rolling_moment<2> >(acc).sum_ = c.pw(2); st<tag::rolling_mean>(acc).mean_ = c.n ? c.sum() / c.n : 0.;
  acc(x);
  vs_check_eq((double)rolling_sum(acc), a.sum(), "rolling_sum.post"); vs_check_eq(rolling_moment<2>(acc), a.pw(2) / a.n, "rolling_moment.post");
  vs_check_eq(rolling_mean(acc), a.sum() / a.n, "rolling_mean.post"); vs_check_ieq((long)rolling_count(acc), a.n, "rolling_count.post");
  vs_cover("end");
}
OB(step_linear) { lin_<double>(3); }
OB(step_linear_int) {
  int W = 1 + vs_choose("W", 3); int x = (int)vs_int("x", -10000, 10000); Win<int> a;
  accumulator_set<int, stats<tag::rolling_sum, tag::rolling_mean(lazy)> > acc(tag::rolling_window::window_size = W);
  Win<int> c = havoc<int>(acc, W, a, x); int S = 0; for (int i = 0; i < c.n; ++i) S += c.w[i];
  st<tag::rolling_sum>(acc).sum_ = S; acc(x);
  vs_check_eq((double)rolling_sum(acc), a.sum(), "rolling_sum.post"); vs_check_eq(rolling_mean(acc), a.sum() / a.n, "rolling_mean.post");
  vs_cover("end");
}
OB(step_mean_int) {
  int W = 1 + vs_choose("W", 3); int x = (int)vs_int("x", -10000, 10000); Win<int> a;
  accumulator_set<int, stats<tag::rolling_mean> > acc(tag::rolling_window::window_size = W);
  Win<int> c = havoc<int>(acc, W, a, x); st<tag::rolling_mean>(acc).mean_ = c.n ? c.sum() / c.n : 0.;
  acc(x); vs_check_eq(rolling_mean(acc), a.sum() / a.n, "rolling_mean.post");
  vs_cover("end");
}
static void variance_(int Wmax) {
  int W = 1 + vs_choose("W", Wmax); double x = vs_real("x"); Win<double> a;
  accumulator_set<double, stats<tag::rolling_variance, tag::rolling_moment<2> > > acc(tag::rolling_window::window_size = W);
  Win<double> c = havoc<double>(acc, W, a, x);
  st<tag::rolling_mean>(acc).mean_ = c.n ? c.sum() / c.n : 0.; st<tag::rolling_moment<2> >(acc).sum_ = c.pw(2);
  auto& v = st<tag::rolling_variance>(acc); v.previous_mean_ = c.n ? c.sum() / c.n : 0.; v.sum_of_squares_ = c.ss();
  vs_assume_le(0, a.ss());                       // a sum of squares
  acc(x);
  vs_check_eq(rolling_variance(acc), a.var(), "rolling_variance.post"); vs_check_eq(v.sum_of_squares_, a.ss(), "rolling_variance.state");
  vs_cover("end");
}
OB(step_variance) { variance_(3); }
static void lazyvar(int Wmax) {
  int W = 1 + vs_choose("W", Wmax); double x = vs_real("x"); Win<double> a;
  accumulator_set<double, stats<tag::rolling_variance(lazy)> > acc(tag::rolling_window::window_size = W);
  Win<double> c = havoc<double>(acc, W, a, x);
  st<tag::rolling_mean>(acc).mean_ = c.n ? c.sum() / c.n : 0.; st<tag::rolling_moment<2> >(acc).sum_ = c.pw(2);
  acc(x); vs_check_eq(rolling_variance(acc), a.var(), "lazy_rolling_variance.post");
  vs_cover("end");
}
OB(step_lazyvar) { lazyvar(3); }
OB(slow_step_linear) { lin_<double>(8); }
OB(slow_step_variance) { variance_(6); }
OB(slow_step_lazyvar) { lazyvar(6); }
