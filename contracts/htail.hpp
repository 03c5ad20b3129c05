// State invariant of tail_impl / tail_variate_impl for cache size k, and its havoc.
//   indices is a permutation of 0..m-1, m = min(n,k), and a heap for "less extreme on top";
//   if is_sorted, indices is sorted from least to most extreme; cell i pairs samples[i],
//   variates[i] (and weights[i]); every discarded sample is at most as extreme as all cells.
#ifndef HTAIL_HPP
#define HTAIL_HPP
#include "hutil.hpp"
#include <algorithm>
template<class LR> inline bool more_extreme_eq(double a, double b) { return std::is_same<LR, left>::value ? a <= b : b <= a; }
template<class LR> inline void assume_me(double a, double b) { if (std::is_same<LR, left>::value) vs_assume_le(a, b); else vs_assume_le(b, a); }
template<class LR> inline void check_me(double a, double b, const char* n) { if (std::is_same<LR, left>::value) vs_check_le(a, b, n); else vs_check_le(b, a, n); }
template<class LR, class A> inline int havoc_tail(A& acc, int k, double* s) {
  auto& t = st<tag::tail<LR> >(acc);
  int m = vs_choose("m", k + 1);
  int perm[8], f = 1; for (int i = 0; i < m; ++i) { perm[i] = i; f *= i + 1; }
  int p = vs_choose("perm", f); for (int i = 0; i < p; ++i) std::next_permutation(perm, perm + m);
  t.is_sorted = vs_choose("is_sorted", 2) != 0;
  t.indices.clear(); for (int i = 0; i < m; ++i) t.indices.push_back((std::size_t)perm[i]);
  for (int i = 0; i < k; ++i) t.samples[i] = s[i] = vs_real("s");
  for (int i = 1; i < m; ++i) {
    if (t.is_sorted) assume_me<LR>(s[perm[i]], s[perm[i - 1]]);
    else assume_me<LR>(s[perm[i]], s[perm[(i - 1) / 2]]);
  }
  return m;
}
// the invariant as a postcondition
template<class LR, class A> inline void inv_tail(A& acc, int k, int m) {
  auto& t = st<tag::tail<LR> >(acc);
  vs_check_ieq((long)t.indices.size(), m, "tail.inv.size"); vs_check_ieq((long)t.samples.size(), k, "tail.inv.cache");
  for (int i = 0; i < m; ++i) {
    vs_check(t.indices[i] < (std::size_t)m, "tail.inv.index"); for (int j = 0; j < i; ++j) vs_check(t.indices[i] != t.indices[j], "tail.inv.permutation");
    if (i) check_me<LR>(t.samples[t.indices[i]], t.samples[t.indices[t.is_sorted ? i - 1 : (i - 1) / 2]], "tail.inv.heap");
  }
}
#endif
