// Accumulator sets with their push and query, for contracts that range over all statistics (C22, C25).
// q(): every extractor of the set, into out; returns how many values.
#ifndef HCFG_HPP
#define HCFG_HPP
#ifndef BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#endif
#include "hstate.hpp"
#include "hpot.hpp"
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp>
typedef std::vector<double> V;
struct smp { double x, w, y; };
inline smp draw_smp(bool native_spread = true) { smp s; s.x = vs_real("x"); s.w = w_in("w"); s.y = vs_real("y"); return s; }
#define PU template<class A> static void push(A& a, smp const& s) { a(s.x, covariate1 = s.y); }
#define PW template<class A> static void push(A& a, smp const& s) { a(s.x, covariate1 = s.y, weight = s.w); }
// plain sets: q = the listed features
template<class... T> struct feats { template<class A> static int q(A& a, double* o) { int n = 0; ((o[n++] = (double)extract_result<T>(a)), ...); return n; } };
template<class R> inline int rng(R const& r, double* o) { int n = 0; for (auto const& e : r) o[n++] = (double)e; return n; }
template<class R> inline int hst(R const& r, double* o) { int n = 0; for (auto const& e : r) { o[n++] = e.first; o[n++] = e.second; } return n; }
#define TP(...) accumulator_set<double, features<__VA_ARGS__> >
#define TW(...) accumulator_set<double, features<__VA_ARGS__>, double>
typedef tag::covariance<double, tag::covariate1> cov1;
struct c_light { enum { warm = 0, min_q = 1, ties = 1 }; typedef feats<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::variance, tag::moment<3>, cov1, tag::sum_kahan> F;
  typedef accumulator_set<double, features<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::variance, tag::moment<3>, cov1> > A; static A* make() { return new A; } PU
  static int q(A& a, double* o) { return feats<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::variance, tag::moment<3>, cov1>::q(a, o); } };
struct c_light2 { enum { warm = 0, min_q = 1, ties = 1 }; typedef TP(tag::sum_kahan, tag::immediate_mean, tag::lazy_variance, tag::skewness, tag::kurtosis, tag::error_of<tag::mean>) A; static A* make() { return new A; } PU
  static int q(A& a, double* o) { return feats<tag::sum_kahan, tag::immediate_mean, tag::lazy_variance, tag::skewness, tag::kurtosis>::q(a, o); } };
struct c_wlight { enum { warm = 0, min_q = 1, ties = 1 }; typedef TW(tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::variance, tag::moment<3>, cov1, tag::sum_of_weights) A; static A* make() { return new A; } PW
  static int q(A& a, double* o) { return feats<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::variance, tag::moment<3>, cov1, tag::sum_of_weights>::q(a, o); } };
struct c_roll { enum { warm = 3, min_q = 1, ties = 1 }; typedef TP(tag::rolling_sum, tag::rolling_mean, tag::rolling_variance, tag::rolling_moment<3>, tag::rolling_window, tag::rolling_count) A; static A* make() { return new A(tag::rolling_window::window_size = 2); } PU
  static int q(A& a, double* o) { int n = feats<tag::rolling_sum, tag::rolling_mean, tag::rolling_variance, tag::rolling_moment<3>, tag::rolling_count>::q(a, o); return n + rng(rolling_window(a), o + n); } };
struct c_lroll { enum { warm = 3, min_q = 1, ties = 1 }; typedef TP(tag::lazy_rolling_mean, tag::lazy_rolling_variance) A; static A* make() { return new A(tag::rolling_window::window_size = 2); } PU
  static int q(A& a, double* o) { return feats<tag::lazy_rolling_mean, tag::lazy_rolling_variance>::q(a, o); } };
struct c_dens { enum { warm = 2, min_q = 0, ties = 1 }; typedef TP(tag::density) A; static A* make() { return new A(density_cache_size = 2, density_num_bins = 2); } PU static int q(A& a, double* o) { return hst(density(a), o); } };
struct c_wdens { enum { warm = 2, min_q = 0, ties = 1 }; typedef TW(tag::density) A; static A* make() { return new A(density_cache_size = 2, density_num_bins = 2); } PW static int q(A& a, double* o) { return hst(weighted_density(a), o); } };
struct c_psq { enum { warm = 5, min_q = 0, ties = 1 }; typedef TP(tag::p_square_quantile) A; static A* make() { return new A(quantile_probability = 0.3); } PU static int q(A& a, double* o) { o[0] = p_square_quantile(a); return 1; } };
struct c_wpsq { enum { warm = 5, min_q = 0, ties = 1 }; typedef TW(tag::p_square_quantile) A; static A* make() { return new A(quantile_probability = 0.3); } PW static int q(A& a, double* o) { o[0] = weighted_p_square_quantile(a); return 1; } };
inline V const& probs() { static const double p[] = {0.25, 0.75}; static const V v(p, p + 2); return v; }
struct c_xpsq { enum { warm = 7, min_q = 0, ties = 1 }; typedef TP(tag::extended_p_square) A; static A* make() { return new A(extended_p_square_probabilities = probs()); } PU static int q(A& a, double* o) { return rng(extended_p_square(a), o); } };
struct c_wxpsq { enum { warm = 7, min_q = 0, ties = 1 }; typedef TW(tag::extended_p_square) A; static A* make() { return new A(extended_p_square_probabilities = probs()); } PW static int q(A& a, double* o) { return rng(weighted_extended_p_square(a), o); } };
struct c_xq { enum { warm = 7, min_q = 0, ties = 1 }; typedef TP(tag::extended_p_square_quantile) A; static A* make() { return new A(extended_p_square_probabilities = probs()); } PU static int q(A& a, double* o) { o[0] = quantile(a, quantile_probability = 0.4); o[1] = quantile(a, quantile_probability = 0.6); o[2] = quantile(a, quantile_probability = 0.75); return 3; } };
struct c_xqq { enum { warm = 7, min_q = 0, ties = 1 }; typedef TP(tag::extended_p_square_quantile_quadratic) A; static A* make() { return new A(extended_p_square_probabilities = probs()); } PU static int q(A& a, double* o) { o[0] = quantile(a, quantile_probability = 0.4); o[1] = quantile(a, quantile_probability = 0.7); return 2; } };
struct c_cdf { enum { warm = 3, min_q = 1, ties = 1 }; typedef TP(tag::p_square_cumulative_distribution) A; static A* make() { return new A(p_square_cumulative_distribution_num_cells = 2); } PU static int q(A& a, double* o) { return hst(p_square_cumulative_distribution(a), o); } };
struct c_wcdf { enum { warm = 3, min_q = 1, ties = 1 }; typedef TW(tag::p_square_cumulative_distribution) A; static A* make() { return new A(p_square_cumulative_distribution_num_cells = 2); } PW static int q(A& a, double* o) { return hst(weighted_p_square_cumulative_distribution(a), o); } };
struct c_med { enum { warm = 5, min_q = 0, ties = 1 }; typedef TP(tag::median) A; static A* make() { return new A; } PU static int q(A& a, double* o) { o[0] = median(a); return 1; } };
struct c_wmed { enum { warm = 5, min_q = 0, ties = 1 }; typedef TW(tag::median) A; static A* make() { return new A; } PW static int q(A& a, double* o) { o[0] = weighted_median(a); return 1; } };
struct c_dmed { enum { warm = 2, min_q = 2, ties = 1 }; typedef TP(tag::with_density_median) A; static A* make() { return new A(density_cache_size = 2, density_num_bins = 2); } PU static int q(A& a, double* o) { o[0] = median(a); return 1; } };
struct c_wdmed { enum { warm = 2, min_q = 2, ties = 1 }; typedef TW(tag::with_density_median) A; static A* make() { return new A(density_cache_size = 2, density_num_bins = 2); } PW static int q(A& a, double* o) { o[0] = weighted_median(a); return 1; } };
struct c_cmed { enum { warm = 3, min_q = 3, ties = 1 }; typedef TP(tag::with_p_square_cumulative_distribution_median) A; static A* make() { return new A(p_square_cumulative_distribution_num_cells = 2); } PU static int q(A& a, double* o) { o[0] = median(a); return 1; } };
struct c_wcmed { enum { warm = 3, min_q = 3, ties = 1 }; typedef TW(tag::with_p_square_cumulative_distribution_median) A; static A* make() { return new A(p_square_cumulative_distribution_num_cells = 2); } PW static int q(A& a, double* o) { o[0] = weighted_median(a); return 1; } };
// tails: which of several equally extreme samples is kept is unspecified, hence no ties with variates
template<class LR> struct c_tail { enum { warm = -1, min_q = 0, ties = 0 }; typedef accumulator_set<double, features<tag::tail<LR>, tag::tail_variate<double, tag::covariate1, LR> > > A; static A* make() { return new A(tag::tail<LR>::cache_size = 3); } PU
  static int q(A& a, double* o) { int n = rng(tail(a), o); return n + rng(tail_variate(a), o + n); } };
template<class LR> struct c_tq { enum { warm = -1, min_q = 1, ties = 1 }; typedef accumulator_set<double, features<tag::tail_quantile<LR>, tag::coherent_tail_mean<LR> > > A; static A* make() { return new A(tag::tail<LR>::cache_size = 2); } PU
  static int q(A& a, double* o) { double p = std::is_same<LR, left>::value ? 0.3 : 0.7; o[0] = quantile(a, quantile_probability = p); o[1] = tail_mean(a, quantile_probability = p); o[2] = quantile(a, quantile_probability = 1 - p); return 3; } };
template<class LR> struct c_wtq { enum { warm = -1, min_q = 1, ties = 0 }; typedef accumulator_set<double, features<tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> >, double> A; static A* make() { return new A(tag::tail<LR>::cache_size = 2); } PW
  static int q(A& a, double* o) { double p = std::is_same<LR, left>::value ? 0.3 : 0.7; o[0] = quantile(a, quantile_probability = p); o[1] = non_coherent_tail_mean(a, quantile_probability = p); return 2; } };
template<class LR> struct c_pot { enum { warm = 0, min_q = 0, ties = 1 }; typedef accumulator_set<double, features<tag::pot_quantile<LR>(with_threshold_value)> > A; static A* make() { return new A(pot_threshold_value = 1.); } PU
  static int q(A& a, double* o) { auto r = peaks_over_threshold(a); o[0] = r.template get<0>(); o[1] = r.template get<1>(); o[2] = r.template get<2>(); return 3; } };
template<class LR> struct c_wpot { enum { warm = 0, min_q = 0, ties = 1 }; typedef accumulator_set<double, features<tag::weighted_pot_quantile<LR>(with_threshold_value)>, double> A; static A* make() { return new A(pot_threshold_value = 1.); } PW
  static int q(A& a, double* o) { auto r = weighted_peaks_over_threshold(a); o[0] = r.template get<0>(); o[1] = r.template get<1>(); o[2] = r.template get<2>(); return 3; } };
template<class LR> struct c_potp { enum { warm = -1, min_q = 0, ties = 1 }; typedef accumulator_set<double, features<tag::pot_quantile<LR>(with_threshold_probability)> > A; static A* make() { return new A(tag::tail<LR>::cache_size = 2, pot_threshold_probability = 0.5); } PU
  static int q(A& a, double* o) { auto r = peaks_over_threshold(a); o[0] = r.template get<0>(); o[1] = r.template get<1>(); o[2] = r.template get<2>(); return 3; } };
template<class LR> struct c_wpotp { enum { warm = -1, min_q = 0, ties = 0 }; typedef accumulator_set<double, features<tag::weighted_pot_quantile<LR>(with_threshold_probability)>, double> A; static A* make() { return new A(tag::tail<LR>::cache_size = 2, pot_threshold_probability = 0.5); } PW
  static int q(A& a, double* o) { auto r = weighted_peaks_over_threshold(a); o[0] = r.template get<0>(); o[1] = r.template get<1>(); o[2] = r.template get<2>(); return 3; } };
#endif
