// C24 through the public interface: samples pushed into both sets in any interleaving.
#include "hutil.hpp"
namespace my { BOOST_PARAMETER_KEYWORD(tag, e1) BOOST_PARAMETER_KEYWORD(tag, e2) BOOST_PARAMETER_KEYWORD(tag, v1) BOOST_PARAMETER_KEYWORD(tag, v2) }
typedef accumulator_set<double, features<tag::sum, tag::count, tag::mean, tag::max, tag::variance> > R;
struct big { double d[40]; std::vector<double> v; };
OB(hist_value_reference) {
  double v = vs_real("v"), r = vs_real("r"), rr = r; long k = vs_int("k", -1000, 1000); double vv = v; typedef accumulator_set<double, features<tag::value<double, my::tag::v1>, tag::reference<double, my::tag::e1>, tag::mean, tag::value<long, my::tag::v2>, tag::reference<double, my::tag::e2> > > S; double q = 5; S s(my::v1 = vv, my::e1 = r, my::v2 = k, my::e2 = q); vv = 0; long n = vs_len("n", 2, 2, 8);
  for (long i = 0; i < n; ++i) { int c = vs_choose("op", 3); if (c == 0) s(vs_real("x")); if (c == 1) rr = r = vs_real("y"); if (c == 2) { rr = vs_real("z"); reference_tag<my::tag::e1>(s) = rr; } S t(s);
    vs_check_bits(value_tag<my::tag::v1>(s), v, "value"); vs_check_bits(value_tag<my::tag::v1>(t), v, "value-copied"); vs_check_ieq((value<long, my::tag::v2>(t)), k, "value-copied"); vs_check_bits(reference_tag<my::tag::e1>(s), rr, "current-value"); vs_check_bits((reference<double, my::tag::e1>(t)), rr, "copy-current-value"); vs_check_bits(r, rr, "writes-reach-the-object"); vs_check(&reference_tag<my::tag::e1>(t) == &r, "same-object"); vs_check(&reference_tag<my::tag::e2>(t) == &q, "same-object"); }
  vs_cover("end");
}
OB(hist_value_object) { big b; for (int i = 0; i < 40; ++i) b.d[i] = i; double z = vs_real("z"); b.v.assign(3, z); accumulator_set<double, features<tag::count, tag::value<big, my::tag::v1> > > s(my::v1 = b); b.v[1] = 0; b.d[7] = 0; s(1.); big o = value_tag<my::tag::v1>(s); vs_check_ieq((long)o.v.size(), 3, "value"); vs_check_bits(o.v[1], z, "value"); vs_check_bits(o.d[7], 7, "value"); o.v[2] = 9; vs_check_bits(value_tag<my::tag::v1>(s).v[2], z, "value-not-shared"); vs_cover("end"); }
template<int Form, class S> static double sum_of(S& s, R& r) { if constexpr (Form == 0) return sum(s, my::e1 = r); else return sum(s); }
template<int Form, class S> static double mean_of(S& s, R& r) { if constexpr (Form == 0) return mean(s, my::e1 = r); else return mean(s); }
template<int Form, class S> static void ext(S& s, R& r) {
  double t = 0; long n = vs_len("n", 3, 3, 10), own = 0, cr = 0;
  for (long i = 0; i < n; ++i) { if (vs_choose("into", 2)) { s(vs_real("x")); ++own; } else { double y = vs_real("y"); r(y); t += y; ++cr; }
    vs_check_eq(sum_of<Form>(s, r), t, "result-of-referenced"); vs_check_eq(sum(r), t, "referenced"); vs_check_ieq((long)count(r), cr, "referenced"); vs_check_ieq((long)count(s), own, "own-count"); if (own) vs_check_eq(mean_of<Form>(s, r), t / own, "computed-from-referenced");
    S c(s); if (vs_choose("copy", 2)) { c(7.); } vs_check_eq(sum_of<Form>(c, r), t, "copy-follows"); }
  vs_cover("end");
}
OB(hist_named) { R r; accumulator_set<double, features<tag::mean, tag::external<tag::sum, my::tag::e1> > > s; ext<0>(s, r); }
OB(hist_reference) { R r; accumulator_set<double, features<tag::mean, tag::external<tag::sum, my::tag::e1>, tag::reference<R, my::tag::e1> > > s(my::e1 = r); ext<1>(s, r); }
OB(hist_held) { R r; accumulator_set<double, features<tag::mean, tag::external<tag::sum, my::tag::e1, R> > > s(my::e1 = r); ext<1>(s, r); }
OB(hist_two) { R r, q; accumulator_set<double, features<tag::external<tag::max, my::tag::e2, R>, tag::external<tag::sum, my::tag::e1, R>, tag::min> > s(my::e1 = r, my::e2 = q); long n = vs_len("n", 3, 3, 8); for (long i = 0; i < n; ++i) { int c = vs_choose("into", 3); double x = vs_real("x"); if (c == 0) s(x); if (c == 1) r(x); if (c == 2) q(x); vs_check_bits(sum(s), sum(r), "result-of-referenced"); if (count(q)) vs_check_bits((max)(s), (max)(q), "result-of-referenced"); } vs_cover("end"); }
template<class... T> static void wts(bool late) { accumulator_set<double, features<T...>, external<double> > e; accumulator_set<double, features<T...>, double> a; accumulator_set<void, features<tag::sum_of_weights>, double> w; long n = vs_len("n", 2, 2, 8);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"), q = w_in("w"), y = vs_real("y"); a(x, weight = q, covariate1 = y); if (vs_choose("order", 2)) { e(x, weight = q, covariate1 = y); w(weight = q); } else { w(weight = q); e(x, weight = q, covariate1 = y); } (vs_check_bits((double)extract_result<T>(e, weights = w), (double)extract_result<T>(a), "same-result-with-external-weights"), ...); }
  vs_cover("end"); }
OB(hist_weights) { vs_flag("uf", 1); wts<tag::weighted_mean>(false); }
OB(hist_weights2) { vs_flag("uf", 1); wts<tag::weighted_moment<2>, tag::weighted_sum, tag::lazy_weighted_variance, tag::weighted_mean_of_variates<double, tag::covariate1> >(false); }
OB(hist_weights3) { vs_flag("uf", 1); wts<tag::weighted_skewness, tag::weighted_kurtosis>(false); }
// features of the weights, and features that use the external weights while they are fed (weights pushed first, set held by reference)
template<class T> static void wfh() { typedef accumulator_set<void, features<T>, double> W; W w; accumulator_set<double, features<tag::weighted_sum, T>, external<double> > e; long n = vs_len("n", 4, 4, 8);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"), q = w_in("w"); int c = vs_choose("into", 3); if (c != 1) e(x, weight = q); if (c != 0) w(weight = q); vs_check_bits((double)extract_result<T>(e, weights = w), (double)extract_result<T>(w), "result-of-referenced"); } vs_cover("end"); }
OB(hist_wf_sum) { vs_flag("uf", 1); wfh<tag::sum_of_weights>(); }
OB(hist_wf_kahan) { vs_flag("uf", 1); wfh<tag::sum_of_weights_kahan>(); }
OB(hist_wf_mean) { vs_flag("uf", 1); wfh<tag::mean_of_weights>(); }
OB(hist_wf_imean) { vs_flag("uf", 1); wfh<tag::immediate_mean_of_weights>(); }
template<class T, class F> static void wheld(F get) { typedef accumulator_set<void, features<tag::sum_of_weights>, double> W; W w; accumulator_set<double, features<T, tag::reference<W, tag::weights> >, external<double> > e(weights = w); accumulator_set<double, features<T>, double> a; long n = vs_len("n", 3, 3, 8);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"), q = w_in("w"), y = vs_real("y"); a(x, weight = q, covariate1 = y); w(weight = q); e(x, weight = q, covariate1 = y); get(a, e); } vs_cover("end"); }
template<class T> struct one_r { template<class A, class E> void operator()(A& a, E& e) const { vs_check_bits((double)extract_result<T>(e), (double)extract_result<T>(a), "same-result-with-external-weights"); } };
#define WH(n, ...) OB(hist_held_##n) { vs_flag("uf", 1); typedef __VA_ARGS__ T; wheld<T>(one_r<T>()); }
WH(imean, tag::immediate_weighted_mean)
WH(var, tag::weighted_variance)
WH(cov, tag::weighted_covariance<double, tag::covariate1>)
