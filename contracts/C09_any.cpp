// flags: -I@/stubs_cb
// C09, every window size: one step of the rolling statistics against the contract of
// assumes: contract of boost::circular_buffer (contracts/stubs_cb) in place of its code
// circular_buffer.  Ghosts over the window before the step: c samples, S = sum, Q = sum of
// squares, C3 = sum of cubes.  The sample leaving the window is e0 (window just filled) or e1.
#include "hroll.hpp"
struct G { long W, s, c, c1; double S, Q, C3, x, drop; };
template<class A> static G havoc(A& acc, long W) {
  G g; g.W = W; g.s = vs_int("s", 0, 1000000001); vs_assume(g.s <= W + 1);
  double e0 = vs_real("e0"), e1 = vs_real("e1"), e2 = vs_real("e2");
  g.S = vs_real("S"); g.Q = vs_real("Q"); g.C3 = vs_real("C3"); g.x = vs_real("x");
  if (g.s == 0) g.S = g.Q = g.C3 = 0;
  auto& b = st<tag::rolling_window_plus1>(acc).buffer_;
  vs_check_ieq((long)b.cap, W + 1, "capacity.init"); vs_check_ieq((long)b.sz, 0, "size.init");
  b.sz = g.s; b.e0 = e0; b.e1 = e1; b.third = e2;
  g.c = g.s < W ? g.s : W; g.c1 = g.s < W ? g.s + 1 : W;
  g.drop = g.s < W ? 0 : g.s == W ? e0 : e1;
  return g;
}
OB(step_sum_anysize) {
  long W = vs_int("W", 1, 1000000000);
  accumulator_set<double, stats<tag::rolling_sum, tag::rolling_mean(lazy)> > acc(tag::rolling_window::window_size = W);
  vs_check_eq(rolling_sum(acc), 0, "rolling_sum.init");
  G g = havoc(acc, W); st<tag::rolling_sum>(acc).sum_ = g.S;
  acc(g.x); double S1 = g.S + g.x - g.drop;
  vs_check_eq(rolling_sum(acc), S1, "rolling_sum.post"); vs_check_eq(rolling_mean(acc), S1 / g.c1, "lazy_rolling_mean.post");
  vs_check_eq(rolling_sum(acc), S1, "rolling_sum.pure"); vs_check_ieq((long)rolling_count(acc), g.c1, "rolling_count.post");
  vs_cover("end");
}
OB(step_mean_anysize) {
  long W = vs_int("W", 1, 1000000000);
  accumulator_set<double, stats<tag::rolling_mean> > acc(tag::rolling_window::window_size = W);
  vs_check_eq(rolling_mean(acc), 0, "rolling_mean.init");
  G g = havoc(acc, W); st<tag::rolling_mean>(acc).mean_ = g.c ? g.S / g.c : 0.;
  acc(g.x); double S1 = g.S + g.x - g.drop;
  vs_check_eq(rolling_mean(acc), S1 / g.c1, "rolling_mean.post"); vs_check_eq(rolling_mean(acc), S1 / g.c1, "rolling_mean.pure");
  vs_cover("end");
}
OB(step_moments_anysize) {
  long W = vs_int("W", 1, 1000000000);
  accumulator_set<double, stats<tag::rolling_moment<1>, tag::rolling_moment<2>, tag::rolling_moment<3> > > acc(tag::rolling_window::window_size = W);
  G g = havoc(acc, W); double x = g.x, d = g.drop;
  vs_check_eq(st<tag::rolling_moment<2> >(acc).sum_, 0, "rolling_moment.init");
  st<tag::rolling_moment<1> >(acc).sum_ = g.S; st<tag::rolling_moment<2> >(acc).sum_ = g.Q; st<tag::rolling_moment<3> >(acc).sum_ = g.C3;
  acc(x);
  vs_check_eq(rolling_moment<1>(acc), (g.S + x - d) / g.c1, "rolling_moment1.post");
  vs_check_eq(rolling_moment<2>(acc), (g.Q + x * x - d * d) / g.c1, "rolling_moment2.post");
  vs_check_eq(rolling_moment<3>(acc), (g.C3 + x * x * x - d * d * d) / g.c1, "rolling_moment3.post");
  vs_cover("end");
}
template<int K> static void moment_any() {
  long W = vs_int("W", 1, 1000000000);
  accumulator_set<double, stats<tag::rolling_moment<K> > > acc(tag::rolling_window::window_size = W);
  G g = havoc(acc, W); double x = g.x, d = g.drop, xk = 1, dk = 1;
  vs_check_eq(st<tag::rolling_moment<K> >(acc).sum_, 0, "rolling_moment.init");
  for (int i = 0; i < K; ++i) { xk *= x; dk *= d; }
  st<tag::rolling_moment<K> >(acc).sum_ = g.C3; acc(x);
  vs_check_eq(rolling_moment<K>(acc), (g.C3 + xk - dk) / g.c1, "rolling_moment.post");
  vs_check_eq(rolling_moment<K>(acc), (g.C3 + xk - dk) / g.c1, "rolling_moment.pure");
  vs_cover("end");
}
OB(step_moment4_anysize) { moment_any<4>(); }
OB(step_moment5_anysize) { moment_any<5>(); }
OB(step_moment6_anysize) { moment_any<6>(); }
OB(step_moment7_anysize) { moment_any<7>(); }
OB(step_moment8_anysize) { moment_any<8>(); }
OB(step_moment9_anysize) { moment_any<9>(); }
OB(step_moment11_anysize) { moment_any<11>(); }
OB(step_moment13_anysize) { moment_any<13>(); }
OB(step_moment15_anysize) { moment_any<15>(); }
OB(step_moment16_anysize) { moment_any<16>(); }
OB(step_moment17_anysize) { moment_any<17>(); }
// unbiased variance of a window of c samples from its sums
static double var(long c, double S, double Q) { return c < 2 ? 0. : (Q - S * S / c) / (c - 1); }
OB(step_lazyvar_anysize) {
  long W = vs_int("W", 1, 1000000000);
  accumulator_set<double, stats<tag::rolling_variance(lazy)> > acc(tag::rolling_window::window_size = W);
  vs_check_eq(rolling_variance(acc), 0, "lazy_rolling_variance.init");
  G g = havoc(acc, W); double x = g.x, d = g.drop;
  st<tag::rolling_mean>(acc).mean_ = g.c ? g.S / g.c : 0.; st<tag::rolling_moment<2> >(acc).sum_ = g.Q;
  acc(x);
  vs_check_eq(rolling_variance(acc), var(g.c1, g.S + x - d, g.Q + x * x - d * d), "lazy_rolling_variance.post");
  vs_cover("end");
}
OB(step_variance_anysize) {
  long W = vs_int("W", 1, 1000000000);
  accumulator_set<double, stats<tag::rolling_variance> > acc(tag::rolling_window::window_size = W);
  vs_check_eq(rolling_variance(acc), 0, "rolling_variance.init");
  G g = havoc(acc, W); double x = g.x, d = g.drop;
  st<tag::rolling_mean>(acc).mean_ = g.c ? g.S / g.c : 0.;
  auto& v = st<tag::rolling_variance>(acc);
  v.previous_mean_ = g.c ? g.S / g.c : 0.; v.sum_of_squares_ = g.c ? g.Q - g.S * g.S / g.c : 0.;
  double S1 = g.S + x - d, Q1 = g.Q + x * x - d * d;
  vs_assume_le(S1 * S1 / g.c1, Q1);             // Cauchy-Schwarz for the new window (lem_cauchy)
  acc(x);
  vs_check_eq(v.sum_of_squares_, Q1 - S1 * S1 / g.c1, "rolling_variance.state.post");
  vs_check_eq(v.previous_mean_, S1 / g.c1, "rolling_variance.mean.post");
  vs_check_eq(rolling_variance(acc), var(g.c1, S1, Q1), "rolling_variance.post");
  vs_check_eq(rolling_variance(acc), var(g.c1, S1, Q1), "rolling_variance.pure");
  vs_cover("end");
}
// c*Q >= S^2 for every multiset, by induction on adding an element x
OB(lem_cauchy) {
  long c = vs_int("c", 1, 1000000000); double S = vs_real("S"), Q = vs_real("Q"), x = vs_real("x");
  vs_assume_le(S * S / c, Q);
  vs_check_eq((Q + x * x) - (S + x) * (S + x) / (c + 1), (Q - S * S / c) + (x - S / c) * (x - S / c) * c / (c + 1), "cauchy.step");
  vs_check_eq(x * x - x * x / 1, 0, "cauchy.base");
  vs_cover("end");
}
