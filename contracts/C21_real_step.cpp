// C21 for the library's own features, bit-exact ("uf": floating-point operations uninterpreted): from any
// state in which the accumulators common to two sets agree, one push with the same arguments leaves them
// agreeing, whatever the order of the feature list and whichever other features are present.
#include "hstate.hpp"
template<class T, class S1, class S2> static void res(S1& a, S2& b) { vs_check_bits((double)extract_result<T>(a), (double)extract_result<T>(b), "result-independent-of-feature-list"); }
template<bool W, class S> static void push(S& s, double x, double y, double w) { if constexpr (W) s(x, covariate1 = y, weight = w); else s(x, covariate1 = y); }
template<bool W, class S1, class S2, class... T> static void rel(S1& a, S2& b) {
  check_same_state(a, b, "initial-state-independent-of-feature-list");
  havoc_state(a); copy_state(a, b);
  double x = vs_real("x"), y = vs_real("y"), w = vs_real("w");
  push<W>(a, x, y, w); push<W>(b, x, y, w);
  check_same_state(a, b, "update-independent-of-feature-list"); (res<T>(a, b), ...);
  vs_cover("end");
}
template<class W, class... T> struct L { typedef accumulator_set<double, features<T...>, W> set;
  template<class... U> static void same() { set a; accumulator_set<double, features<U...>, W> b; rel<!std::is_void<W>::value, set, accumulator_set<double, features<U...>, W>, U...>(a, b); } };
typedef void (*fn_t)();
#define LISTS(...) { vs_flag("uf", 1); static const fn_t f[] = { __VA_ARGS__ }; int i = vs_choose("list", sizeof f / sizeof *f); f[i](); }
typedef tag::mean m; typedef tag::variance v; typedef tag::lazy_variance lv; typedef tag::skewness sk; typedef tag::kurtosis ku; typedef tag::count c; typedef tag::sum s; typedef tag::min mi; typedef tag::max ma;
typedef tag::moment<2> m2; typedef tag::moment<3> m3; typedef tag::moment<4> m4; typedef tag::covariance<double, tag::covariate1> cv; typedef tag::sum_of_variates<double, tag::covariate1> sv; typedef tag::mean_of_variates<double, tag::covariate1> mv;
typedef tag::sum_kahan sK; typedef tag::immediate_mean im; typedef tag::error_of<tag::mean> em;
#define ALL L<void, c, mi, ma, s, m, v, m2, m3, m4, sk, ku, cv, sv, mv>::same
OB(step_unweighted) LISTS((ALL<mv, sv, cv, ku, sk, m4, m3, m2, v, m, s, ma, mi, c>), ALL<c>, ALL<s>, (ALL<m>), (ALL<v, m>), ALL<m2>, ALL<m3>, ALL<m4>, (ALL<sk, m>), (ALL<ku, m>), (ALL<cv, m>), ALL<sv>, ALL<mv>, ALL<mi>, ALL<ma>, (ALL<v, sk, m>), (ALL<ku, m, v, mi>), (ALL<cv, v, m>), (ALL<sv, m3, v, c, m>))
#define ALL2 L<void, sK, im, v, ku, cv>::same
OB(step_immediate) LISTS((ALL2<cv, ku, v, im, sK>), (ALL2<im>), ALL2<sK>, (ALL2<v, sK, im>), (ALL2<ku, im, sK>), (ALL2<im, sK, cv>), (ALL2<cv, sK, im, v>))
#define ALL3 L<void, lv, em, sk, m2, s>::same
OB(step_lazy) LISTS((ALL3<s, m2, sk, em, lv>), ALL3<lv>, ALL3<em>, (ALL3<m2, lv>), (ALL3<sk, s, lv>))
#define ALLW L<double, c, mi, ma, s, m, v, m2, m3, m4, sk, ku, cv, sv, mv>::same
OB(step_weighted_set) LISTS((ALLW<mv, sv, cv, ku, sk, m4, m3, m2, v, m, s, ma, mi, c>), ALLW<c>, ALLW<s>, (ALLW<m>), (ALLW<v, m>), ALLW<m2>, ALLW<m3>, ALLW<m4>, (ALLW<sk, m>), (ALLW<ku, m>), (ALLW<cv, m>), ALLW<sv>, ALLW<mv>, ALLW<mi>, ALLW<ma>, (ALLW<v, sk, m>), (ALLW<ku, m, v, mi>), (ALLW<cv, v, m>))
