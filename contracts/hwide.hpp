// the sets of hcfg.hpp with wide caches, many bins, cells and probabilities, fed with a fixed history
#ifndef HWIDE_HPP
#define HWIDE_HPP
#include "hcfg.hpp"
#define WD(name, base, mq, ...) struct name : base { enum { min_q = mq }; static A* make() { return new A(__VA_ARGS__); } };
#define WDT(name, base, mq, ...) template<class LR> struct name : base<LR> { enum { min_q = mq }; typedef typename base<LR>::A A; static A* make() { return new A(__VA_ARGS__); } };
WD(w_roll, c_roll, 1, tag::rolling_window::window_size = 19) WD(w_lroll, c_lroll, 1, tag::rolling_window::window_size = 19)
WD(w_dens, c_dens, 0, density_cache_size = 20, density_num_bins = 24) WD(w_wdens, c_wdens, 0, density_cache_size = 20, density_num_bins = 24)
inline V const& wprobs() { static V v; if (v.empty()) for (int i = 0; i < 11; ++i) v.push_back((i + 1) / 16. + (i % 3) / 64.); return v; }
WD(w_xpsq, c_xpsq, 0, extended_p_square_probabilities = wprobs()) WD(w_wxpsq, c_wxpsq, 0, extended_p_square_probabilities = wprobs())
WD(w_xq, c_xq, 0, extended_p_square_probabilities = wprobs()) WD(w_xqq, c_xqq, 0, extended_p_square_probabilities = wprobs())
WD(w_cdf, c_cdf, 1, p_square_cumulative_distribution_num_cells = 18) WD(w_wcdf, c_wcdf, 1, p_square_cumulative_distribution_num_cells = 18)
WD(w_dmed, c_dmed, 20, density_cache_size = 20, density_num_bins = 24) WD(w_wdmed, c_wdmed, 20, density_cache_size = 20, density_num_bins = 24)
WD(w_cmed, c_cmed, 19, p_square_cumulative_distribution_num_cells = 18) WD(w_wcmed, c_wcmed, 19, p_square_cumulative_distribution_num_cells = 18)
WDT(w_tail, c_tail, 0, tag::tail<LR>::cache_size = 21) WDT(w_tq, c_tq, 1, tag::tail<LR>::cache_size = 21) WDT(w_wtq, c_wtq, 1, tag::tail<LR>::cache_size = 21)
WDT(w_potp, c_potp, 3, tag::tail<LR>::cache_size = 21, pot_threshold_probability = 0.5) WDT(w_wpotp, c_wpotp, 3, tag::tail<LR>::cache_size = 21, pot_threshold_probability = 0.5)
inline smp wide_smp(int i) { smp s; s.x = wide_sample(i); s.w = 0.5 + i % 3; s.y = (i * 5) % 13; return s; }
template<class G> static void wide_same(typename G::A& a, typename G::A& b, const char* what) { static double p[400], q[400]; int n = G::q(a, p), m = G::q(b, q); vs_check_ieq(n, m, what); for (int i = 0; i < n && i < m; ++i) if (vs_native()) vs_check_eq(p[i], q[i], what); else vs_check_bits(p[i], q[i], what); }
#endif
