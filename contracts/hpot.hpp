// Reference generalized-Pareto fit: u, mu, s2 = threshold, mean and second moment of the (mirrored)
// excess samples, a = fraction of the distribution beyond the threshold.
#ifndef HPOT_HPP
#define HPOT_HPP
#include "htail.hpp"
#include <boost/accumulators/statistics/peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/weighted_peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/pot_quantile.hpp>
#include <boost/accumulators/statistics/pot_tail_mean.hpp>
struct Fit { double u, b, x; };
template<class LR> constexpr int sgn() { return std::is_same<LR, left>::value ? -1 : 1; }
inline bool is_regular(double u, double mu, double m2) {       // precondition: sigma2 != 0 and xi != 0
  double s = m2 - mu * mu; 
  if (vs_native()) return std::fabs(s) > 1e-3 && std::fabs((mu - u) * (mu - u) / s - 1) > 1e-3 && std::fabs((mu - u) * (mu - u) / s) < 50;
  vs_assume_ne(s, 0); vs_assume_ne((mu - u) * (mu - u) / s, 1); return true;
}
inline Fit fit_of(double u, double mu, double m2, double a) {
  double s = m2 - mu * mu, t = (mu - u) * (mu - u) / s; Fit f; f.x = 0.5 * (1 - t);
  f.b = 0.5 * (mu - u) * (1 + t) * std::pow(a, f.x); f.u = u - f.b * (std::pow(a, -f.x) - 1) / f.x; return f;
}
template<class T> inline void same_fit(T const& g, Fit const& f, const char* n) { vs_check_eq(g.template get<2>(), f.x, n); vs_check_eq(g.template get<1>(), f.b, n); vs_check_eq(g.template get<0>(), f.u, n); }
template<class T> inline void nan_fit(T const& g, const char* n) { vs_check(vs_isnan(g.template get<0>()) && vs_isnan(g.template get<1>()) && vs_isnan(g.template get<2>()), n); }
template<class LR> inline double share_of(double q) { return std::is_same<LR, left>::value ? q : 1. - q; }
template<class LR> inline double ref_quantile(Fit const& f, double q) { return sgn<LR>() * (f.u + f.b / f.x * (std::pow(share_of<LR>(q), -f.x) - 1)); }
template<class LR> inline double ref_tail_mean(Fit const& f, double q) { return ref_quantile<LR>(f, q) - sgn<LR>() * f.b / (f.x - 1) * std::pow(share_of<LR>(q), -f.x); }
#endif
