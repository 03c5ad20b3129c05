#include "hcfg.hpp"
template<class G> static void same(typename G::A& a, typename G::A& b, const char* what) { double p[32], q[32]; int n = G::q(a, p), m = G::q(b, q); vs_check_ieq(n, m, what); for (int i = 0; i < n && i < m; ++i) vs_check_bits(p[i], q[i], what); }
template<class G> static void keep(typename G::A& a, double* p, int n, const char* what) { double q[32]; int m = G::q(a, q); vs_check_ieq(m, n, what); for (int i = 0; i < n && i < m; ++i) vs_check_bits(q[i], p[i], what); }
template<class G> auto pre(typename G::A& a, smp const& s, int) -> decltype(G::pre(a, s), void()) { G::pre(a, s); }
template<class G> void pre(typename G::A&, smp const&, long) {}
template<class G> auto state(typename G::A& a, int) -> decltype(G::hv(a), void()) { G::hv(a); }
template<class G> void state(typename G::A& a, long) { havoc_state(a, G::warm > 1 ? G::warm : 1); }
// P-square markers: height and positions of one (each) marker arbitrary, the others concrete
template<class T, class A> static void hv_markers(A& a, int m0, int m1) {
  auto& p = st<T>(a); int n = (int)p.heights.size(), m = m0 + vs_choose("marker", m1 - m0); for (int i = 0; i < n; ++i) p.heights[i] = i == m ? vs_ghost("h") : 3. * i;
  p.actual_positions[m] = vs_ghost("n"); p.desired_positions[m] = vs_ghost("d");
}
#define HV(tg, G, m0, m1) struct h_##G : G { static void hv(A& a) { for (int i = 0; i < 3; ++i) { smp u = {7. - 2 * i, 1., 0.}; push(a, u); } hv_markers<tag::tg>(a, m0, m1); } };
HV(p_square_quantile, c_psq, 1, 4) HV(weighted_p_square_quantile, c_wpsq, 1, 4) HV(extended_p_square, c_xpsq, 1, 6) HV(weighted_extended_p_square, c_wxpsq, 1, 6) HV(extended_p_square, c_xq, 1, 6) HV(extended_p_square, c_xqq, 1, 6)
HV(p_square_quantile_for_median, c_med, 1, 4) HV(weighted_p_square_quantile_for_median, c_wmed, 1, 4)
// (results_only: a stale cached value may remain while the cache is marked dirty)
template<class G> auto results_only(int) -> decltype(G::stale_cache, bool()) { return true; }
template<class G> bool results_only(long) { return false; }
// results agree, and then (caches refreshed) so does the complete state: the relation is re-established
template<class G> static void agree(typename G::A& a, typename G::A& b, const char* what) { same<G>(a, b, what); if (!results_only<G>(0)) check_same_state(a, b, what); }
template<class G, bool UF = true> static void contract(int nsc = 6) {
  typedef typename G::A A; if (UF) vs_flag("uf", 1); A* o = G::make(); A& a = *o; smp s = draw_smp(), t = draw_smp(); if (nsc < 6) s.w = t.w = 1; double r[32], z[32];
  for (int i = 0; i < G::warm; ++i) { smp u = {0. + i, 1., 0.}; G::push(a, u); }
  state<G>(a, 0); pre<G>(a, s, 0); pre<G>(a, t, 0);
  int sc = nsc == 1 ? 6 : vs_choose("scenario", nsc);
  A b(a); A dirty(a);
  if (sc == 0) { int n = G::q(a, r); for (int k = 0; k < 2; ++k) keep<G>(a, r, n, "repeated-query-gives-the-same"); agree<G>(b, a, "query-does-not-change-results"); G::push(a, s); G::push(dirty, s); agree<G>(a, dirty, "query-does-not-change-later-results"); }
  if (sc == 1) { int n = G::q(dirty, r); G::push(a, s); keep<G>(b, r, n, "copy-unaffected-by-original"); agree<G>(b, dirty, "copy-unaffected-by-original"); G::push(b, s); agree<G>(b, a, "copy-evolves-like-original"); }
  if (sc == 2) { A* f = G::make(); G::push(*f, t); *f = a; int n = G::q(dirty, r); G::push(a, s); keep<G>(*f, r, n, "assigned-unaffected-by-original"); agree<G>(*f, dirty, "assigned-unaffected-by-original"); G::push(*f, s); agree<G>(*f, a, "assigned-evolves-like-original"); }
  if (sc == 3) { int n = G::q(dirty, r); G::push(b, s); keep<G>(a, r, n, "original-unaffected-by-copy"); agree<G>(a, dirty, "original-unaffected-by-copy"); G::push(a, s); agree<G>(a, b, "copy-evolves-like-original"); }
  if (sc == 4) { A* f = G::make(); *f = a; int n = G::q(dirty, r); G::push(*f, s); keep<G>(a, r, n, "original-unaffected-by-assigned"); agree<G>(a, dirty, "original-unaffected-by-assigned"); G::push(a, s); agree<G>(a, *f, "assigned-evolves-like-original"); }
  if (sc == 5) { int n = G::q(a, r); A c(a); keep<G>(c, r, n, "copy-of-queried"); G::push(c, s); G::push(dirty, s); agree<G>(c, dirty, "copy-of-queried-evolves"); keep<G>(a, r, n, "original-unaffected-by-copy"); }
  if (sc == 6) { A* f = G::make(); G::push(*f, t); *f = a; int n = G::q(a, r); keep<G>(a, r, n, "repeated-query-gives-the-same"); G::push(a, s); keep<G>(b, r, n, "copy-unaffected-by-original"); keep<G>(*f, r, n, "assigned-unaffected-by-original");
    agree<G>(b, *f, "copy-unaffected-by-original"); G::push(dirty, s); agree<G>(a, dirty, "query-does-not-change-later-results"); G::push(*f, s); agree<G>(a, *f, "assigned-evolves-like-original"); keep<G>(b, r, n, "copy-unaffected-by-assigned"); }
  vs_cover("end");
}
// median over a density / cumulative distribution: states satisfying the estimator's invariant (C18, C15), real arithmetic
template<class DT, bool WT, class A> static void hv_dens(A& acc, int nb) {
  auto& a = st<DT>(acc); long cnt = vs_int("cnt", 2, CNT_MAX); double lo = vs_real("lo"), bs = vs_real("bs"), tot = 0; vs_assume_lt(0, bs);
  for (int i = 0; i < nb + 2; ++i) { double s; if (i == nb + 1 && !WT) s = (double)cnt - tot; else s = vs_real("s"); vs_assume_le(0, s); tot += s; a.samples_in_bin[i] = s; a.bin_positions[i] = lo + (i - 1.) * bs; }
  a.is_dirty = true; st<tag::count>(acc).cnt = cnt; double mx = vs_real("mx"); vs_assume_le(lo + nb * bs, mx); st<tag::max>(acc).max_ = mx; st<tag::min>(acc).min_ = lo;
  if constexpr (WT) { vs_assume_lt(0, tot); st<tag::sum_of_weights>(acc).sum = tot; }
}
template<class PT, bool WT, class A> static void hv_cdf(A& acc, int b) {
  auto& a = st<PT>(acc); long cnt = vs_int("cnt", b + 1, CNT_MAX); double h[6], n[6];
  for (int i = 0; i <= b; ++i) { h[i] = vs_real("h"); n[i] = !WT && i == 0 ? 1. : !WT && i == b ? (double)cnt : vs_real("n"); if (i) { vs_assume_le(h[i - 1], h[i]); vs_assume_lt(n[i - 1], n[i]); } else vs_assume_lt(0, n[0]);
    a.heights[i] = h[i]; a.actual_positions[i] = n[i]; a.desired_positions[i] = n[i]; }
  a.is_dirty = true; st<tag::count>(acc).cnt = cnt; if constexpr (WT) st<tag::sum_of_weights>(acc).sum = n[b];
}
struct h_c_dmed : c_dmed { static void hv(A& a) { hv_dens<tag::density, false>(a, 2); } };
struct h_c_wdmed : c_wdmed { static void hv(A& a) { hv_dens<tag::weighted_density, true>(a, 2); } };
struct h_c_cmed : c_cmed { static void hv(A& a) { hv_cdf<tag::p_square_cumulative_distribution, false>(a, 2); } };
struct h_c_wcmed : c_wcmed { static void hv(A& a) { hv_cdf<tag::weighted_p_square_cumulative_distribution, true>(a, 2); } };
// tails: any heap (sorted or not) of distinct samples, cache size 2 (tail, tail_variate: 3); with variates / weights of the cells
template<class LR, class A> static long hv_tail(A& a, int k = 2) {
  double s[9]; int m = havoc_tail<LR>(a, k, s); for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) vs_assume_ne(s[i], s[j]); return m;
}
template<class LR, class G> struct distinct : G { typedef typename G::A A; static void pre(A& a, smp const& x) { auto& t = st<tag::tail<LR> >(a); for (std::size_t i = 0; i < t.indices.size(); ++i) vs_assume_ne(t.samples[i], x.x); } };
inline long cnt_of(long m) { return m < 2 ? m : 2 + vs_choose("cnt", 6); }       // decided for counts 0..7
template<class LR> struct h_c_tail : distinct<LR, c_tail<LR> > { static void hv(typename c_tail<LR>::A& a) { int m = (int)hv_tail<LR>(a, 3); for (int i = 0; i < m; ++i) st<tag::tail_variate<double, tag::covariate1, LR> >(a).variates[i] = vs_ghost("v"); } };
template<class LR> struct h_c_tq : distinct<LR, c_tq<LR> > { static void hv(typename c_tq<LR>::A& a) { long m = hv_tail<LR>(a); st<tag::count>(a).cnt = cnt_of(m); } };
template<class LR> struct h_c_wtq : distinct<LR, c_wtq<LR> > { static void hv(typename c_wtq<LR>::A& a) { long m = hv_tail<LR>(a); double w = 0; for (int i = 0; i < m; ++i) w += st<tag::tail_weights<LR> >(a).variates[i] = w_in("w"); st<tag::sum_of_weights>(a).sum = m < 2 ? w : w + vs_real("more"); if (m == 2) vs_assume_le(w, st<tag::sum_of_weights>(a).sum); } };
template<class LR> struct h_c_potp : distinct<LR, c_potp<LR> > { enum { stale_cache }; static void hv(typename c_potp<LR>::A& a) { long m = hv_tail<LR>(a); st<tag::count>(a).cnt = cnt_of(m); } };
template<class LR> struct h_c_wpotp : distinct<LR, c_wpotp<LR> > { enum { stale_cache }; static void hv(typename c_wpotp<LR>::A& a) { long m = hv_tail<LR>(a); double w = 0; for (int i = 0; i < m; ++i) w += st<tag::tail_weights<LR> >(a).variates[i] = w_in("w"); st<tag::sum_of_weights>(a).sum = m < 2 ? w : w + vs_real("more"); if (m == 2) vs_assume_le(w, st<tag::sum_of_weights>(a).sum); } };
#define CR(name, ...) OB(step_##name) { vs_flag("nlskip", 1); contract<h_##__VA_ARGS__, false>(1); }
#define CU(name, ...) OB(step_##name) { contract<h_##__VA_ARGS__, true>(1); }
#define CS(name, ...) OB(slow_step_##name) { contract<h_##__VA_ARGS__>(3); }
#define CH(name, ...) OB(step_##name) { contract<h_##__VA_ARGS__>(1); }
#define CT(name, ...) OB(step_##name) { contract<__VA_ARGS__>(); }
