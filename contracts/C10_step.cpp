// C10: tail and tail_variate.  One step from an arbitrary state satisfying the invariant
// (htail.hpp), cache sizes enumerated; variates are distinct identities of the cells.
#include "htail.hpp"
template<class LR> static void step(int kmax, bool query) {
  int k = 1 + vs_choose("k", kmax);
  accumulator_set<double, stats<tag::tail<LR>, tag::tail_variate<double, tag::covariate1, LR> > > acc(tag::tail<LR>::cache_size = k);
  double s[9]; int m = havoc_tail<LR>(acc, k, s);
  auto& v = st<tag::tail_variate<double, tag::covariate1, LR> >(acc).variates;
  for (int i = 0; i < m; ++i) v[i] = i;
  double x = vs_real("x");
  if (query) { auto r = tail(acc); vs_check_ieq((long)r.size(), m, "tail.size"); inv_tail<LR>(acc, k, m); vs_check(st<tag::tail<LR> >(acc).is_sorted, "tail.sorted"); }
  acc(x, covariate1 = (double)m); s[m < k ? m : 8] = x; if (m == k) { s[8] = x; }
  int m1 = m < k ? m + 1 : k;
  inv_tail<LR>(acc, k, m1);
  for (int rep = 0; rep < 2; ++rep) {
    auto r = tail(acc); auto c = tail_variate(acc);
    vs_check_ieq((long)r.size(), m1, "tail.size.post"); vs_check_ieq((long)c.size(), m1, "tail_variate.size.post");
    bool used[10] = {}; auto ci = c.begin(); double prev = 0; int j = 0;
    for (auto it = r.begin(); it != r.end() && ci != c.end(); ++it, ++ci, ++j) {
      double val = *it; int id = (int)*ci;
      vs_check(0 <= id && id <= m && !used[id], "tail.pair.once"); used[id] = true;
      vs_check_eq(val, id == m ? x : s[id], "tail.pair.value");
      if (j) check_me<LR>(prev, val, "tail.order");
      prev = val;
    }
    vs_check_ieq(j, m1, "tail.length");
    if (m == k) { int e = 0; while (used[e]) ++e; check_me<LR>(prev, e == m ? x : s[e], "tail.discards-least-extreme"); }
    inv_tail<LR>(acc, k, m1);
  }
  vs_cover("end");
}
OB(step_left) { step<left>(3, false); }
OB(step_right) { step<right>(3, false); }
OB(step_query_left) { step<left>(2, true); }
OB(step_query_right) { step<right>(2, true); }
OB(slow_step_left) { step<left>(4, false); }
OB(slow_step_right) { step<right>(4, false); }
OB(slow_step_query_left) { step<left>(3, true); }
// least-extreme element of the cache never becomes less extreme, so earlier discards stay discarded
template<class LR> static void frontier() {
  int k = 1 + vs_choose("k", 3);
  accumulator_set<double, stats<tag::tail<LR> > > acc(tag::tail<LR>::cache_size = k);
  double s[9]; int m = havoc_tail<LR>(acc, k, s); vs_assume(m == k); double d = vs_real("discarded"), x = vs_real("x");
  for (int i = 0; i < k; ++i) assume_me<LR>(s[i], d);
  acc(x); auto& t = st<tag::tail<LR> >(acc);
  for (int i = 0; i < k; ++i) check_me<LR>(t.samples[i], d, "tail.frontier");
  vs_cover("end");
}
OB(inv_frontier_left) { frontier<left>(); }
OB(inv_frontier_right) { frontier<right>(); }
OB(base_tail) {
  int k = 1 + vs_choose("k", 5);
  accumulator_set<double, stats<tag::tail<left> > > a(tag::tail<left>::cache_size = k); inv_tail<left>(a, k, 0); vs_check_ieq((long)tail(a).size(), 0, "tail.empty");
  accumulator_set<double, stats<tag::tail<right> > > b(tag::tail<right>::cache_size = k); inv_tail<right>(b, k, 0); vs_check_ieq((long)tail(b).size(), 0, "tail.empty");
  vs_cover("end");
}
// copies
template<class LR> static void copy() {
  int k = 1 + vs_choose("k", 3);
  typedef accumulator_set<double, stats<tag::tail<LR>, tag::tail_variate<double, tag::covariate1, LR> > > A;
  A acc(tag::tail<LR>::cache_size = k);
  double s[9]; int m = havoc_tail<LR>(acc, k, s); auto& v = st<tag::tail_variate<double, tag::covariate1, LR> >(acc).variates;
  for (int i = 0; i < m; ++i) v[i] = i;
  A cp(acc); double y = vs_real("y");
  inv_tail<LR>(cp, k, m);
  { A cq(acc); auto r = tail(cq); auto c = tail_variate(cq); auto ci = c.begin(); bool used[9] = {}; int j = 0; double prev = 0; vs_check_ieq((long)r.size(), m, "copy.size");
    for (auto it = r.begin(); it != r.end() && ci != c.end(); ++it, ++ci, ++j) { int id = (int)*ci; vs_check(0 <= id && id < m && !used[id], "copy.pair.once"); used[id] = true; vs_check_eq(*it, s[id], "copy.pair.value"); if (j) check_me<LR>(prev, *it, "copy.order"); prev = *it; }
    vs_check_ieq(j, m, "copy.length"); }
  cp(y, covariate1 = 77.); inv_tail<LR>(cp, k, m < k ? m + 1 : k); inv_tail<LR>(acc, k, m);
  for (int i = 0; i < k; ++i) vs_check_eq(st<tag::tail<LR> >(acc).samples[i], s[i], "copy.leaves-original");
  for (int i = 0; i < m; ++i) vs_check_eq(v[i], i, "copy.leaves-original-variates");
  auto r = tail(cp); auto c = tail_variate(cp); auto ci = c.begin();
  for (auto it = r.begin(); it != r.end(); ++it, ++ci) { int id = (int)*ci; vs_check_eq(*it, id == 77 ? y : s[id], "copy.pair"); }
  vs_cover("end");
}
OB(step_copy_left) { copy<left>(); }
OB(step_copy_right) { copy<right>(); }
