// Shared vocabulary of the contracts: the real library plus ghost arithmetic.
#ifndef HUTIL_HPP
#define HUTIL_HPP
#include "vspec.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
#define CNT_MAX 4503599627370496L      /* 2^52: counts are exactly representable */
// state access for inductive contracts: the accumulator object of a feature in a set
template<class Tag, class Set> auto& st(Set& s) { return find_accumulator<Tag>(s); }
template<class T> inline T in(const char* n) { return (T)vs_real(n); }
template<> inline float in<float>(const char* n) {
  double x = vs_real(n);
  if (vs_native()) x = std::floor(x * 4) / 4; else { vs_assume_le(-1e30, x); vs_assume_le(x, 1e30); }
  return (float)x;
}
template<> inline int in<int>(const char* n) { return (int)vs_int(n, -1000000, 1000000); }
template<> inline long in<long>(const char* n) { return vs_int(n, -1000000000, 1000000000); }
template<> inline unsigned in<unsigned>(const char* n) { return (unsigned)vs_int(n, 0, 1000000); }
// native replays also run histories of a small scale (results are compared after scaling back)
template<class T> inline T scale() { long k = vs_len("scale", 0, 0, 40); if (sizeof(T) == 4 || k > 40 || k % 2) k = 0; double r = 1; for (long i = 0; i < k; ++i) r = r / 2; return (T)r; }
inline double w_in(const char* n) { double w = vs_real(n); if (vs_native()) w = std::fabs(w) + 0.125; else vs_assume_lt(0., w); return w; }
// a weight that may be zero, unless it is the first
inline double wz_in(const char* n, bool first) { double w = vs_real(n); if (vs_native()) { w = std::fabs(w); w = w < 0.5 ? first ? 0.5 : 0 : w; } else if (first) vs_assume_lt(0., w); else vs_assume_le(0., w); return w; }
// fixed history for wide configurations: integers without ties, in no particular order
inline double wide_sample(int i) { return (double)((i * 37 + 11) % 101) + 101 * (double)((i / 101) % 7); }
#endif
