// flags: -fexceptions
// libs: -lboost_serialization
// C25, wide configurations: saved at an arbitrary moment of a fixed history, loaded into a fresh or a used set
#include "hserhist.hpp"
#include "hwide.hpp"
WDT(w_stq, s_tq, 1, tag::tail<LR>::cache_size = 21) WDT(w_swtail, s_wtail, 0, tag::tail<LR>::cache_size = 21) WDT(w_stvm, s_tvm, 1, tag::tail<LR>::cache_size = 21)
template<class G> static void saved(int n) {
  typedef typename G::A A; A *a = G::make(), *b = G::make(), *r = G::make(); static double o[400]; static const int ats[] = {0, 7, 18, 19, 20, 21, 26, 34}; int at = vs_native() ? vs_choose("at", n) : ats[vs_choose("at", 8)], used = vs_choose("used", 3); bool loaded = false;
  for (int j = 0; j < (used == 2 ? 25 : 3 * used); ++j) G::push(*b, wide_smp(95 - j));
  for (int i = 0; i < n; ++i) {
    if (i == at) {
      if (i >= G::min_q && vs_choose("queried", 2)) G::q(*a, o);
#ifdef VS_NATIVE
      loaded = trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(*a, *b, false);
#else
      static log_t l; l = log_t(); { sav s(l); a->serialize(s, 0u); } { lod d(l); b->serialize(d, 0u); d.done(); } loaded = true;
#endif
      if (i >= G::min_q) { wide_same<G>(*b, *r, "restored-results"); wide_same<G>(*a, *r, "saving-leaves-the-set-alone"); }
    }
    smp s = wide_smp(i); G::push(*a, s); G::push(*r, s); if (loaded) { G::push(*b, s); if (i + 1 >= G::min_q && (i == at || i == n - 1)) { wide_same<G>(*b, *r, "results-after-later-samples"); wide_same<G>(*a, *r, "saving-leaves-the-set-alone"); } }
  }
  vs_cover("end");
}
#undef CT
#define CT(name, ...) OB(hist_wide_##name) { saved<__VA_ARGS__>(35); }
CT(rolling, w_roll) CT(lazy_rolling, w_lroll) CT(density, w_dens) CT(wdensity, w_wdens) CT(xp_square, w_xpsq) CT(wxp_square, w_wxpsq) CT(xp_square_quantile, w_xq) CT(xp_square_quadratic, w_xqq)
CT(distribution, w_cdf) CT(wdistribution, w_wcdf) CT(density_median, w_dmed) CT(wdensity_median, w_wdmed) CT(distribution_median, w_cmed) CT(wdistribution_median, w_wcmed)
CT(tail_left, w_tail<left>) CT(tail_right, w_tail<right>) CT(tq_left, w_stq<left>) CT(wtail_right, w_swtail<right>) CT(tvm_left, w_stvm<left>) CT(potp_left, w_potp<left>) CT(potp_right, w_potp<right>)
