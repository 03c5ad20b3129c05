// C23 for the library's own features, bit-exact ("uf"): from any state, after any sequence of drops, one
// sample changes an active accumulator exactly as in a set without droppable features, and a dropped one not
// at all; the results computed only from dropped accumulators stay bit for bit what they were.
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "hstate.hpp"
#include "hdrop.hpp"
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
namespace dt {
enum { kC = 1, kS = 2, kM = 4, kV = 8, kMin = 16, kMax = 32, kSW = 64, kM2 = 128, kTail = 256, kTQ = 512, kTM = 1024, kDen = 2048, kRW = 4096, kRS = 8192, kRM = 16384, kMP = 32768, kRC = 65536, kSV = 1 << 17, kMV = 1 << 18, kCV = 1 << 19 };
CL(tag::count, kC, kC) CL(tag::sum, kS, kS) CL(tag::min, kMin, kMin) CL(tag::max, kMax, kMax) CL(tag::mean, kM, kM | kC | kS) CL(tag::immediate_mean, kM, kM | kC) CL(tag::variance, kV, kV | kC | kM) CL(tag::moment<2>, kM2, kM2 | kC) CL(tag::lazy_variance, kV, kV | kM2 | kC | kM | kS)
CL(tag::sum_of_weights, kSW, kSW) CL(tag::weighted_sum, kS, kS) CL(tag::weighted_mean, kM, kM | kS | kSW) CL(tag::immediate_weighted_mean, kM, kM | kSW) CL(tag::weighted_variance, kV, kV | kC | kM | kSW) CL(tag::weighted_moment<2>, kM2, kM2 | kC | kSW)
CL(tag::tail<right>, kTail, kTail) CL(tag::tail_quantile<right>, kTQ, kTQ | kTail | kC) CL(tag::non_coherent_tail_mean<right>, kTM, kTM | kTQ | kTail | kC) CL(tag::density, kDen, kDen | kC | kMin | kMax)
typedef tag::mean_of_variates<double, tag::covariate1> mvar; typedef tag::sum_of_variates<double, tag::covariate1> svar; typedef tag::covariance<double, tag::covariate1> cvar;
CL(svar, kSV, kSV) CL(mvar, kMV, kMV | kSV | kC) CL(cvar, kCV, kCV | kMV | kSV | kC | kM | kS)
}
using namespace dt;
// per accumulator: compare with the plain set when active, with the earlier copy when dropped
template<class F> struct undrop { typedef F type; }; template<class F> struct undrop<droppable<F> > { typedef F type; };
template<class S, class P> struct cmp2 { S* was; P* plain; int act; template<class A> void operator()(A& a) const { typedef typename A::feature_tag t; tape tp; save_ar o(tp);
  if (act & clo<t>::own) { walk(find_accumulator<typename undrop<t>::type>(*plain), o, 0); cmp_ar c(tp, "active-evolves-as-if-not-droppable"); walk(a, c, 0); c.done(); } else { walk(find_accumulator<t>(*was), o, 0); cmp_ar c(tp, "dropped-is-not-updated"); walk(a, c, 0); c.done(); } } };
template<class P> struct from_plain { P* p; template<class A> void operator()(A& a) const { tape t; save_ar o(t); walk(find_accumulator<typename undrop<typename A::feature_tag>::type>(*p), o, 0); load_ar i(t); walk(a, i, 0); } };
template<class T, class S, class P> static void result1(S& s, S& was, P& pl, int act) { int c = clo<T>::v; if (!(act & c)) vs_check_bits((double)extract_result<T>(s), (double)extract_result<T>(was), "dropped-result-frozen"); else if ((act & c) == c) vs_check_bits((double)extract_result<T>(s), (double)extract_result<T>(pl), "active-result-follows"); }
template<bool W, class S> static void push(S& s, double x, double y, double w) { if constexpr (W) s(x, covariate1 = y, weight = w); else s(x, covariate1 = y); }
template<class W, class... T> static void lw() {
  vs_flag("uf", 1); typedef accumulator_set<double, features<T...>, W> S; typedef accumulator_set<double, features<typename undrop<T>::type...>, W> P; S s; P p; int mask = 0, n = ndrop<T...>(); const bool wt = !std::is_void<W>::value;
  for (int j = 0; j <= n; ++j) {
    havoc_state(p); from_plain<P> fp; fp.p = &p; s.visit(fp); S was(s); double x = vs_real("x"), y = vs_real("y"), w = vs_real("w"); push<wt>(s, x, y, w); push<wt>(p, x, y, w);
    int act = active<T...>(mask); cmp2<S, P> c; c.was = &was; c.plain = &p; c.act = act; s.visit(c); (result1<typename undrop<T>::type>(s, was, p, act), ...);
    if (j < n) { int k = vs_choose("drop", n); if (mask >> k & 1) break; drop_nth<S, T...>(s, k); mask |= 1 << k; } }
  vs_cover("end");
}
template<class... T> static void ls() { lw<void, T...>(); }
template<class... T> static void wl() { lw<double, T...>(); }
typedef void (*fn_t)();
#define LISTS(...) { static const fn_t f[] = { __VA_ARGS__ }; int i = vs_choose("list", sizeof f / sizeof *f); f[i](); }
#define d_(...) droppable<tag::__VA_ARGS__>
OB(step_real) LISTS(ls<d_(mean)>, ls<d_(immediate_mean)>, ls<d_(variance)>, ls<d_(lazy_variance)>, (ls<d_(mean), d_(sum)>), (ls<d_(immediate_mean), d_(sum)>), (ls<d_(variance), d_(sum), d_(count)>), (ls<d_(lazy_variance), d_(mean)>), (ls<tag::sum, d_(mean)>), (ls<tag::mean, d_(variance)>), (ls<d_(min), d_(max)>), (ls<d_(moment<2>), d_(mean), tag::max>), (ls<d_(variance), d_(moment<2>)>))
OB(step_real_weighted) LISTS(wl<d_(weighted_mean)>, wl<d_(immediate_weighted_mean)>, wl<d_(weighted_variance)>, (wl<d_(weighted_mean), d_(count)>), (wl<d_(immediate_weighted_mean), d_(weighted_sum)>), (wl<d_(weighted_variance), d_(count), d_(sum_of_weights)>), (wl<tag::weighted_sum, d_(weighted_mean)>), (wl<d_(weighted_moment<2>), d_(weighted_mean)>), (wl<d_(min), d_(max), d_(weighted_sum)>))
OB(step_real_variates) LISTS(ls<droppable<svar> >, ls<droppable<mvar> >, (ls<droppable<mvar>, d_(count)>), (ls<droppable<mvar>, droppable<svar> >), (ls<droppable<cvar>, d_(mean)>), (ls<droppable<cvar>, droppable<mvar>, d_(count)>))
// unweighted tags in a weighted set are replaced by their weighted counterparts, droppable or not
OB(step_real_replaced) { typedef accumulator_set<double, features<droppable<tag::mean>, droppable<tag::count> >, double> S; vs_flag("uf", 1); S s; havoc_state(s); int k = vs_choose("which", 2); double x = vs_real("x"), w = vs_real("w"); double m0 = extract_result<tag::mean>(s); long c0 = extract_result<tag::count>(s);
  if (k == 0) { s.drop<tag::mean>(); s(x, weight = w); vs_check_bits(extract_result<tag::mean>(s), m0, "dropped-result-frozen"); vs_check_ieq((long)extract_result<tag::count>(s), c0 + 1, "active-result-follows"); }
  else { s.drop<tag::count>(); s(x, weight = w); vs_check_ieq((long)extract_result<tag::count>(s), c0, "dropped-result-frozen"); s.drop<tag::mean>(); m0 = extract_result<tag::mean>(s); s(x, weight = w); vs_check_bits(extract_result<tag::mean>(s), m0, "dropped-result-frozen"); }
  vs_cover("end"); }
// modifiers: droppable<tag::mean(immediate)> etc.
OB(step_real_modifier) { vs_flag("uf", 1); typedef accumulator_set<double, features<droppable<tag::mean(immediate)>, droppable<tag::sum>, droppable<tag::variance(lazy)> > > S; S s; havoc_state(s); double x = vs_real("x"); double s0 = sum(s), m0 = mean(s), v0 = extract_result<tag::variance>(s); (void)v0;
  int k = vs_choose("which", 3); if (k == 0) { s.drop<tag::sum>(); s(x); vs_check_bits(sum(s), s0, "dropped-result-frozen"); }
  if (k == 1) { s.drop<tag::variance>(); s.drop<tag::mean>(); s(x); vs_check_bits(mean(s), m0, "dropped-result-frozen"); vs_check_bits(variance(s), v0, "dropped-result-frozen"); vs_check_bits(sum(s), s0 + x, "active-result-follows"); }
  if (k == 2) { s.drop<tag::mean>(); s.drop<tag::sum>(); s(x); vs_check_bits(sum(s), s0, "dropped-result-frozen"); s.drop<tag::variance>(); m0 = mean(s); v0 = variance(s); s(x); vs_check_bits(mean(s), m0, "dropped-result-frozen"); vs_check_bits(variance(s), v0, "dropped-result-frozen"); }
  vs_cover("end"); }
