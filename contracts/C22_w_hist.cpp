// C22, wide configurations: queries, copies and assignments at an arbitrary moment of a fixed history
#include "hwide.hpp"
template<class G> static void pure(int n) {
  typedef typename G::A A; A *a = G::make(), *b = G::make(), *c = 0, *e = 0; static double o[400]; static const int ats[] = {2, 11, 18, 19, 20, 21, 24, 33}; int at = vs_native() ? vs_choose("at", n) : ats[vs_choose("at", 8)], ask = vs_choose("ask", 2);
  for (int i = 0; i < n; ++i) {
    smp s = wide_smp(i); G::push(*a, s); G::push(*b, s); if (c) { G::push(*c, s); G::push(*e, s); }
    if (i + 1 >= G::min_q && ((ask && i % 3 == 0) || i == at)) { G::q(*a, o); wide_same<G>(*a, *a, "repeated-query"); }
    if (i == at) { c = new A(*a); e = G::make(); for (int j = 0; j < 5; ++j) G::push(*e, wide_smp(90 - j)); *e = *a; A d(*a); for (int j = 0; j < 4; ++j) G::push(d, wide_smp(70 - j)); if (i + 5 >= G::min_q) G::q(d, o); }
  }
  if (n >= G::min_q) { wide_same<G>(*a, *b, "unaffected-by-queries"); wide_same<G>(*c, *b, "copy-continues-alike"); wide_same<G>(*e, *b, "assigned-continues-alike"); }
  vs_cover("end");
}
#define CT(name, ...) OB(hist_wide_##name) { pure<__VA_ARGS__>(34); }
CT(rolling, w_roll) CT(lazy_rolling, w_lroll) CT(density, w_dens) CT(wdensity, w_wdens) CT(xp_square, w_xpsq) CT(wxp_square, w_wxpsq) CT(xp_square_quantile, w_xq) CT(xp_square_quadratic, w_xqq)
CT(distribution, w_cdf) CT(wdistribution, w_wcdf) CT(density_median, w_dmed) CT(wdensity_median, w_wdmed) CT(distribution_median, w_cmed) CT(wdistribution_median, w_wcmed)
CT(tail_left, w_tail<left>) CT(tail_right, w_tail<right>) CT(tq_left, w_tq<left>) CT(tq_right, w_tq<right>) CT(wtq_left, w_wtq<left>) CT(wtq_right, w_wtq<right>) CT(potp_left, w_potp<left>) CT(potp_right, w_potp<right>) CT(wpotp_left, w_wpotp<left>) CT(wpotp_right, w_wpotp<right>)
