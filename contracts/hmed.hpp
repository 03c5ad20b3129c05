// reference medians from a histogram of (position, mass) and from a cumulative distribution
#ifndef HMED_HPP
#define HMED_HPP
#include "hutil.hpp"
#include <vector>
// bins 0..N-1 with lower boundaries pos, fractions f (sum 1); the last bin extends to mx
template<class R> inline double ref_density_median(R const& r, int N, double mx, bool exact = false) {
  double cum = 0; int i = 0; for (; i < N - 1; ++i) { if (vs_native() && !exact) vs_assume(std::fabs(cum + r[i].second - 0.5) > 1e-9); if (!(cum + r[i].second < 0.5)) break; cum += r[i].second; }
  double lo = r[i].first, hi = i == N - 1 ? mx : (double)r[i + 1].first;
  return lo + (hi - lo) * (0.5 - cum) / r[i].second;
}
// markers with cumulative fractions: linear between the two markers around 1/2
template<class R> inline double ref_cdf_median(R const& r, int N) {
  int i = 0; while (i < N - 1 && r[i].second < 0.5) ++i;
  if (i == 0) return r[0].first;
  return r[i - 1].first + (r[i].first - r[i - 1].first) * (0.5 - r[i - 1].second) / (r[i].second - r[i - 1].second);
}
#endif
