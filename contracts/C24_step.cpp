// C24: value, reference and external accumulators and external weights, from arbitrary states of both sets.
#include "hstate.hpp"
namespace my { BOOST_PARAMETER_KEYWORD(tag, e1) BOOST_PARAMETER_KEYWORD(tag, e2) BOOST_PARAMETER_KEYWORD(tag, v1) BOOST_PARAMETER_KEYWORD(tag, v2) }
struct pod { double a; long b; };
// value accumulators: what was given, for ever; independent of samples, of each other and of the source
OB(step_value) {
  double x = vs_real("v"); long k = vs_int("k", -1000000, 1000000); double v = x;
  typedef accumulator_set<double, features<tag::count, tag::value<double, my::tag::v1>, tag::value<long, my::tag::v2>, tag::sum> > S; S s(my::v1 = v, my::v2 = k);
  havoc_state(s, 0); v = 0; long kk = k; k = 0; S c(s); double t = vs_real("t"); s(t); s(t, covariate1 = 3.);
  vs_check_bits(extract_result<tag::value_tag<my::tag::v1> >(s), x, "value"); vs_check_ieq(extract_result<tag::value_tag<my::tag::v2> >(s), kk, "value"); vs_check_bits(value_tag<my::tag::v1>(c), x, "value-copied"); vs_check_ieq((value<long, my::tag::v2>(c)), kk, "value-copied"); vs_check_bits((value<double, my::tag::v1>(s)), x, "value"); vs_cover("end");
}
OB(step_value_object) { pod p = {vs_real("a"), vs_int("b", -1000, 1000)}; pod q = p; accumulator_set<double, features<tag::value<pod, my::tag::v1> > > s(my::v1 = q); q.a = 0; q.b = 0; s(vs_real("x")); vs_check_bits(value_tag<my::tag::v1>(s).a, p.a, "value"); vs_check_ieq(value_tag<my::tag::v1>(s).b, p.b, "value"); vs_cover("end"); }
// reference accumulators: the object itself, whatever is written to it later, by copies too
OB(step_reference) {
  double a = vs_real("a"), b = vs_real("b"), z = vs_real("z"), u = vs_real("u"); typedef accumulator_set<double, features<tag::reference<double, my::tag::e1>, tag::sum, tag::reference<double, my::tag::e2> > > S; S s(my::e2 = b, my::e1 = a);
  vs_check(&reference_tag<my::tag::e1>(s) == &a, "same-object"); vs_check(&reference_tag<my::tag::e2>(s) == &b, "same-object"); S c(s); vs_check(&reference_tag<my::tag::e1>(c) == &a, "copy-refers-to-the-same-object"); vs_check(&(reference<double, my::tag::e2>(c)) == &b, "copy-refers-to-the-same-object");
  s(z); a = z; b = u; vs_check_bits(reference_tag<my::tag::e1>(s), z, "current-value"); vs_check_bits(reference_tag<my::tag::e2>(s), u, "current-value"); reference_tag<my::tag::e1>(c) = u; vs_check_bits(a, u, "writes-reach-the-object"); vs_check_bits(reference_tag<my::tag::e1>(s), u, "current-value");
  S d(my::e1 = b, my::e2 = a); d = s; vs_check(&reference_tag<my::tag::e1>(d) == &a, "assigned-refers-to-the-same-object"); vs_check(&reference_tag<my::tag::e2>(d) == &b, "assigned-refers-to-the-same-object"); vs_cover("end");
}
// external accumulators
template<class S> static void quiet(S& was, S& now) { check_same_state(was, now, "referenced-set-untouched"); }
typedef accumulator_set<double, features<tag::sum, tag::count, tag::mean, tag::max, tag::variance> > R;
template<class T> static void named() {
  vs_flag("uf", 1); R r; havoc_state(r); accumulator_set<double, features<tag::min, tag::external<T, my::tag::e1>, tag::external<tag::max, my::tag::e2> > > s; havoc_state(s); R r2; havoc_state(r2); double x = vs_real("x"), y = vs_real("y");
  vs_check_bits((double)extract_result<T>(s, my::e1 = r), (double)extract_result<T>(r), "result-of-referenced"); vs_check_bits((double)extract_result<T>(s, my::e1 = r2, my::e2 = r), (double)extract_result<T>(r2), "result-of-referenced"); vs_check_bits((max)(s, my::e1 = r, my::e2 = r2), (max)(r2), "result-of-referenced");
  R was(r); s(x); quiet(was, r); vs_check_bits((double)extract_result<T>(s, my::e1 = r), (double)extract_result<T>(was), "unmoved-by-own-samples");
  was(y); r(y); quiet(was, r); vs_check_bits((double)extract_result<T>(s, my::e1 = r), (double)extract_result<T>(was), "follows-referenced"); vs_cover("end");
}
typedef void (*fn_t)();
#define LISTS(...) { static const fn_t f[] = { __VA_ARGS__ }; int i = vs_choose("list", sizeof f / sizeof *f); f[i](); }
OB(step_external_named) LISTS(named<tag::sum>, named<tag::count>, named<tag::mean>, named<tag::variance>)
template<class S> static void held(S& s, R& r, R& other) {
  vs_flag("uf", 1); havoc_state(r); havoc_state(other); havoc_state(s); R was(r); double x = vs_real("x"), y = vs_real("y");
  vs_check_bits(sum(s), sum(r), "result-of-referenced"); S c(s); s(x); c(x); quiet(was, r); vs_check_bits(sum(s), sum(was), "unmoved-by-own-samples"); was(y); r(y); quiet(was, r); vs_check_bits(sum(s), sum(was), "follows-referenced"); vs_check_bits(sum(c), sum(was), "copy-follows-referenced");
  vs_check_bits(mean(s), sum(r) / (double)count(s), "result-computed-from-referenced"); vs_check_bits(mean(c), sum(r) / (double)count(c), "result-computed-from-referenced"); vs_cover("end");
}
OB(step_external_reference) { R r, o; accumulator_set<double, features<tag::mean, tag::external<tag::sum, my::tag::e1>, tag::reference<R, my::tag::e1> > > s(my::e1 = r); held(s, r, o); }
OB(step_external_held) { R r, o; accumulator_set<double, features<tag::mean, tag::external<tag::sum, my::tag::e1, R> > > s(my::e1 = r); held(s, r, o); }
OB(step_external_two) { vs_flag("uf", 1); R r, q; accumulator_set<double, features<tag::external<tag::sum, my::tag::e1, R>, tag::external<tag::variance, my::tag::e2, R>, tag::external<tag::count, my::tag::e1, R> > > s(my::e2 = q, my::e1 = r); havoc_state(r); havoc_state(q); double y = vs_real("y"); s(y);
  vs_check_bits(sum(s), sum(r), "result-of-referenced"); vs_check_bits(variance(s), variance(q), "result-of-referenced"); vs_check_ieq((long)count(s), (long)count(r), "result-of-referenced"); q(y); vs_check_bits(sum(s), sum(r), "result-of-referenced"); vs_check_bits(variance(s), variance(q), "result-of-referenced"); r(y); vs_check_bits(sum(s), sum(r), "result-of-referenced"); vs_check_bits(variance(s), variance(q), "result-of-referenced"); vs_cover("end"); }
// a set that refers to a set that refers to a third
OB(step_external_chain) { vs_flag("uf", 1); R r; typedef accumulator_set<double, features<tag::min, tag::external<tag::sum, my::tag::e1, R> > > Q; Q q(my::e1 = r); accumulator_set<double, features<tag::external<tag::sum, my::tag::e2, Q>, tag::external<tag::min, my::tag::e2, Q> > > s(my::e2 = q); havoc_state(r); havoc_state(q); double x = vs_real("x"), y = vs_real("y"); r(x); q(y); s(x); vs_check_bits(sum(s), sum(r), "result-of-referenced"); vs_check_bits((min)(s), (min)(q), "result-of-referenced"); vs_cover("end"); }
// external weights: a set whose weight totals live in another set gives what the self-contained set gives
typedef accumulator_set<void, features<tag::sum_of_weights>, double> WS;
template<class... T> struct ew { typedef accumulator_set<double, features<T...>, external<double> > E; typedef accumulator_set<double, features<T...>, double> I; };
template<class E> struct shared_state { E* e; template<class A> void operator()(A& a) const { do_(a, (typename A::feature_tag*)0); } template<class A, class F> void do_(A& a, F*) const { tape t; save_ar o(t); walk(find_accumulator<F>(*e), o, 0); load_ar i(t); walk(a, i, 0); } template<class A> void do_(A&, tag::sum_of_weights*) const {} };
template<class... T> static void wt() {
  vs_flag("uf", 1); typedef ew<T...> g; typename g::E e; typename g::I i; WS w; havoc_state(i); 
  double total = vs_ghost("sw"); st<tag::sum_of_weights>(i).sum = total; st<tag::sum_of_weights>(w).sum = total;
  shared_state<typename g::I> ss; ss.e = &i; e.visit(ss); long cn = 0; (void)cn;
  double x = vs_real("x"), y = vs_real("y"), q = vs_real("w"); int when = vs_choose("when", 2);
  if (when) { i(x, weight = q, covariate1 = y); WS was(w); e(x, weight = q, covariate1 = y); vs_check_bits(sum_of_weights(w), sum_of_weights(was), "referenced-set-untouched"); w(weight = q); }
  (vs_check_bits((double)extract_result<T>(e, weights = w), (double)extract_result<T>(i), "same-result-with-external-weights"), ...); vs_cover("end");
}
#define WL(...) wt<__VA_ARGS__>
typedef tag::weighted_mean_of_variates<double, tag::covariate1> wmv;
OB(step_external_weights) LISTS((WL(tag::weighted_mean)), (WL(tag::weighted_sum, tag::weighted_mean)), (WL(tag::weighted_moment<2>)), (WL(tag::weighted_moment<3>, tag::weighted_mean)), (WL(tag::lazy_weighted_variance)), (WL(wmv)), (WL(tag::weighted_skewness)), (WL(tag::weighted_kurtosis)))
OB(base_external_weights) { ew<tag::weighted_mean>::E e; WS w; double x = vs_real("x"), q = w_in("w"); e(x, weight = q); w(weight = q); vs_check_eq(weighted_mean(e, weights = w), x, "first-sample"); vs_cover("end"); }
// external weights held by reference
OB(step_external_weights_held) { vs_flag("uf", 1); WS w; accumulator_set<double, features<tag::weighted_mean, tag::reference<WS, tag::weights> >, external<double> > e(weights = w); ew<tag::weighted_mean>::I i; havoc_state(i); double total = vs_ghost("sw"); st<tag::sum_of_weights>(i).sum = total; st<tag::sum_of_weights>(w).sum = total; st<tag::weighted_sum>(e).weighted_sum_ = st<tag::weighted_sum>(i).weighted_sum_;
  double x = vs_real("x"), q = vs_real("w"); i(x, weight = q); e(x, weight = q); w(weight = q); vs_check_bits(weighted_mean(e), weighted_mean(i), "same-result-with-external-weights"); vs_cover("end"); }
// features of the weights themselves, extracted through external weights
template<class T> static void wf() {
  vs_flag("uf", 1); typedef accumulator_set<void, features<T>, double> W; W w, w2; accumulator_set<double, features<tag::weighted_sum, T>, external<double> > e; accumulator_set<double, features<T, tag::reference<W, tag::weights> >, external<double> > h(weights = w);
  havoc_state(w); havoc_state(w2); havoc_state(e); double x = vs_real("x"), q = vs_real("w");
  vs_check_bits((double)extract_result<T>(e, weights = w), (double)extract_result<T>(w), "result-of-referenced"); W was(w); e(x, weight = q); h(x, weight = q); check_same_state(was, w, "referenced-set-untouched");
  vs_check_bits((double)extract_result<T>(e, weights = w), (double)extract_result<T>(was), "unmoved-by-own-samples"); vs_check_bits((double)extract_result<T>(h), (double)extract_result<T>(was), "unmoved-by-own-samples"); vs_check_bits((double)extract_result<T>(e, weights = w2), (double)extract_result<T>(w2), "result-of-referenced");
  w(weight = q); was(weight = q); vs_check_bits((double)extract_result<T>(e, weights = w), (double)extract_result<T>(was), "follows-referenced"); vs_check_bits((double)extract_result<T>(h), (double)extract_result<T>(was), "follows-referenced"); vs_cover("end");
}
OB(step_external_weight_features) LISTS(wf<tag::sum_of_weights>, wf<tag::sum_of_weights_kahan>, wf<tag::mean_of_weights>, wf<tag::immediate_mean_of_weights>)
