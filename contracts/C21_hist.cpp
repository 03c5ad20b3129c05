// C21, public interface: instrumented features count their updates; the library's features give the
// same results whatever the order of the list and whichever other features are present.
#include "hprobe.hpp"
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
struct cnt_v { int* seen; long n; template<class P> void operator()(P& p) const { int b = clo<typename P::feature_tag>::own; vs_check(!(*seen & b), "each-feature-once"); *seen |= b; vs_check_ieq(p.n, n, "fed-exactly-once"); } };
template<class F, class S> static void probes(S& s, int want, F feed) {
  long n = vs_len("n", 2, 2, 6); long t0 = vs_clock;
  for (long i = 0; i <= n; ++i) { int seen = 0; long k = 0; cnt_v v; v.seen = &seen; v.n = i; s.visit(v); vs_check_ieq(seen, want, "closure-of-dependencies"); for (int b = want; b; b &= b - 1) ++k;
    vs_check_ieq(vs_clock - t0, i * k, "no-extra-update"); if (i < n) feed(s); }
  vs_cover("end");
}
template<class... T> static void pl() { accumulator_set<double, features<T...> > s; probes(s, (0 | ... | (int)clo<T>::v), [](auto& s) { double x = vs_real("x"); s(x, covariate1 = 2.); }); }
template<class... T> static void wl() { accumulator_set<double, features<T...>, double> s; probes(s, (0 | ... | (int)clo<T>::v), [](auto& s) { double x = vs_real("x"); s(x, weight = 2.); }); }
static void nx() { accumulator_set<double, features<stats<C, D>, E> > s; probes(s, bA | bB | bC | bD | bE, [](auto& s) { s(vs_real("x")); }); }
OB(hist_probes) LISTS(pl<A>, pl<B>, pl<C>, pl<D>, pl<F>, pl<H>, (pl<H, A>), (pl<B, A>), (pl<C, B, A>), (pl<C, E, D>), (pl<D, C>), (pl<A, B, C, D, E, F, H>), (pl<H, F, E, D, C, B, A>), (pl<D, F, B, H, A, E, C>), (pl<E, C, A>), (pl<A2, B>), (pl<C, A2>), (pl<B2, C>), (pl<H, B2, A2>), nx)
OB(hist_weighted_probes) LISTS(wl<U>, wl<ft::T>, wl<S>, (wl<U, ft::T, S>), (wl<S, ft::T, U>), (wl<ft::T, S>))
// the library's features: a has all of them, b some, c in reverse order
template<class T, class S1, class S2> static void eqr(S1& a, S2& b) { vs_check_eq((double)extract_result<T>(a), (double)extract_result<T>(b), "result-independent-of-feature-list"); }
template<class S1, class... T> struct P { template<class S2> static void cmp(S1& a, S2& b) { (eqr<T>(a, b), ...); } };
namespace g { typedef tag::mean m; typedef tag::variance v; typedef tag::skewness sk; typedef tag::kurtosis ku; typedef tag::count c; typedef tag::sum s; typedef tag::min mi; typedef tag::max ma; typedef tag::moment<2> m2;
typedef tag::covariance<double, tag::covariate1> cv; typedef tag::sum_of_variates<double, tag::covariate1> sv; typedef tag::mean_of_variates<double, tag::covariate1> mv; typedef tag::error_of<tag::mean> em; typedef tag::median me; typedef tag::lazy_variance lv; }
template<class W, class... T> struct AL { template<class... U> static void vs() {
  accumulator_set<double, features<T...>, W> a; accumulator_set<double, features<U...>, W> b; long n = vs_len("n", 2, 2, 12);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"), y = vs_real("y"); if constexpr (std::is_void<W>::value) { a(x, covariate1 = y); b(x, covariate1 = y); } else { double w = w_in("w"); a(x, covariate1 = y, weight = w); b(x, covariate1 = y, weight = w); }
    if (i) (eqr<U>(a, b), ...); }
  vs_cover("end"); } };
using namespace g;
#define X AL<void, c, mi, ma, s, m, v, m2, cv, sv, mv, em>::vs
#define XW AL<double, c, mi, ma, s, m, v, m2, cv, sv, mv>::vs
OB(hist_order) LISTS((X<em, mv, sv, cv, m2, v, m, s, ma, mi, c>), (X<v>), (X<m>), (X<cv>), (X<s>), (X<mv>), (X<em>), (X<v, m>), (X<cv, v>), (X<m2, em>))
OB(hist_order_weighted) LISTS((XW<mv, sv, cv, m2, v, m, s, ma, mi, c>), (XW<v>), (XW<m>), (XW<cv>), (XW<s>), (XW<mv>), (XW<v, m>), (XW<cv, v>))
// rolling features: both implementations of the mean and variance, in any order
static long rn; static double rx[64];
template<class... T> static void roll() {
  int W = 1 + vs_choose("W", 2); if (vs_native()) ++W; accumulator_set<double, features<T...> > a(tag::rolling_window::window_size = W); long n = vs_len("n", W + 2, W + 2, 12);
  for (long i = 0; i < n; ++i) { rx[i] = vs_real("x"); a(rx[i]); long c = i + 1 < W ? i + 1 : W; double s = 0, q = 0; for (long j = i + 1 - c; j <= i; ++j) s += rx[j]; for (long j = i + 1 - c; j <= i; ++j) q += (rx[j] - s / c) * (rx[j] - s / c);
    vs_check_eq(rolling_mean(a), s / c, "rolling-mean-independent-of-feature-list"); if (c > 1) vs_check_eq(rolling_variance(a), q / (c - 1), "rolling-variance-independent-of-feature-list"); vs_check_ieq((long)rolling_count(a), c, "rolling-count"); }
  vs_cover("end");
}
typedef tag::rolling_mean rm; typedef tag::lazy_rolling_mean lrm; typedef tag::immediate_rolling_mean irm; typedef tag::rolling_variance rv; typedef tag::lazy_rolling_variance lrv; typedef tag::rolling_sum rs;
OB(hist_rolling_immediate) LISTS((roll<rv, lrm>), (roll<lrm, rv>), (roll<rv, irm>), (roll<irm, rv>), (roll<rs, rv, rm>), (roll<rv, rs, lrm>))
OB(hist_rolling_lazy) LISTS((roll<lrv, lrm>), (roll<lrm, lrv>), (roll<lrv, irm>), (roll<rm, lrv, rs>), (roll<lrv, tag::rolling_moment<3>, rm>))
// known findings: two members of one feature family
OB(hist_known_two_variates) {
  accumulator_set<double, stats<tag::mean_of_variates<double, tag::covariate1>, tag::mean_of_variates<double, tag::covariate2> > > a; double p = vs_real("p"), q = vs_real("q");
  a(0., covariate1 = p, covariate2 = q); vs_check_eq((extract_result<tag::mean_of_variates<double, tag::covariate2> >(a)), q, "mean-of-the-second-variate"); vs_cover("end");
}
OB(hist_known_two_covariances) {
  typedef tag::covariance<double, tag::covariate1> c1; typedef tag::covariance<double, tag::covariate2> c2; accumulator_set<double, stats<c1, c2> > a; accumulator_set<double, stats<c2> > b;
  for (int i = 0; i < 2; ++i) { double x = vs_real("x"), p = vs_real("p"), q = vs_real("q"); a(x, covariate1 = p, covariate2 = q); b(x, covariate2 = q); }
  vs_check_eq((double)extract_result<c2>(a), (double)extract_result<c2>(b), "covariance-with-the-second-variate"); vs_cover("end");
}
OB(hist_known_two_tails) {
  accumulator_set<double, stats<tag::tail<left>, tag::tail<right> > > a(tag::tail<left>::cache_size = 1, tag::tail<right>::cache_size = 1); double p = vs_real("p"), q = vs_real("q"); a(p); a(q);
  vs_check_eq(*extract_result<tag::tail<right> >(a).begin(), p < q ? q : p, "largest-sample"); vs_cover("end");
}
