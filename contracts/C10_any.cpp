// C10, every cache size: one sample, and one query, of the tail from an arbitrary state, against the contracts of
// assumes: contracts of std::vector, push_heap, pop_heap, sort_heap, reverse (contracts/hany.hpp) in place of their code
// std::vector (a symbolic array, read lazily) and of the heap algorithms (std, dependencies, not part of the
// repository).  The library headers are compiled with those names bound to the contracts below; the same
// obligations are proved on the real containers for concrete sizes in C10_step.cpp.
//
// "The k smallest (largest) samples, duplicates included" is stated through an arbitrary threshold v:
//   for every v:  #{cached t : t before v}  =  min(k, #{samples seen before v}),   and  #cached = min(k, n),
// which determines the cached multiset.  "front is the worst cached sample" is likewise:  front before v  <=>  all are.
#include "hany.hpp"
template<class LR> struct T {
  typedef tag::tail<LR> t; typedef tag::tail_variate<double, tag::covariate1, LR> tv; typedef tag::tail_weights<LR> tw;
  typedef accumulator_set<double, features<tv, t, tw>, double> S;
  // an arbitrary state after n samples, N of them before v
  static void havoc(S& s, long k, long n, long N) {
    vsa::sg = std::is_same<LR, left>::value ? 1 : -1; vsa::v = vs_real("v"); auto& a = st<t>(s); auto& x = a.samples; auto& p = a.indices;
    vs_check_ieq((long)x.size(), k, "cache-size.init"); vs_check_ieq((long)p.size(), 0, "empty.init"); vs_check_ieq((long)st<tv>(s).variates.size(), k, "variates-size.init"); vs_check_ieq((long)st<tw>(s).variates.size(), k, "weights-size.init");
    vsa::m0 = n < k ? n : k; vsa::c0 = N < k ? N : k; std::vs_samples = &x; x.lazy = x.samp = true; st<tv>(s).variates.lazy = st<tw>(s).variates.lazy = true;
    p.n = vsa::m0; a.is_sorted = vs_choose("sorted", 2) != 0; p.sorted = a.is_sorted ? 2 : 0; p.heap = p.but_last = true;
    if (vsa::m0 > 0) { long i = vs_int("front", 0, 2000000000); vs_assume(i < vsa::m0); double f = x.at_((size_t)i); p.set(0, (size_t)i); if (vsa::key(f) < vsa::key(vsa::v)) vs_assume(vsa::c0 == vsa::m0); else vs_assume(vsa::c0 < vsa::m0); }
  }
  // the representation invariant, and what the cache holds
  static void inv(S& s, long k, long n, long N) {
    auto& a = st<t>(s); auto& p = a.indices; long m = n < k ? n : k; vs_check(std::vs_samples == &a.samples, "one-tail"); vs_check_ieq((long)a.samples.size(), k, "cache-size");
    vs_check_ieq(p.n, m, "number-cached"); if (m > vsa::m0) (void)a.samples.at_((size_t)vsa::m0); long c = std::vs_count(m); vs_check_ieq(c, N < k ? N : k, "cached-are-the-most-extreme");
    vs_check(p.heap, "heap"); vs_check(!a.is_sorted || p.sorted == 2 || m <= 1, "sorted-flag"); if (m > 0) { if (vsa::key(a.samples.at_(p.at_(0))) < vsa::key(vsa::v)) vs_check_ieq(c, m, "front-is-the-worst"); else vs_check(c < m, "front-is-the-worst"); }
  }
  template<class A> static double was(A& a, size_t i) { double now = a.at_(i); for (int j = 0; j < a.e; ++j) if (a.ix[j] == i) return a.init[j]; return now; }
  static void cell(S& s, size_t i, double x, double y, double w) {
    auto& a = st<t>(s).samples; auto& b = st<tv>(s).variates; auto& c = st<tw>(s).variates; double a0 = was(a, i), b0 = was(b, i), d0 = was(c, i);
    if (vs_same(a.at_(i), a0) && vs_same(b.at_(i), b0) && vs_same(c.at_(i), d0)) return;
    vs_check_bits(a.at_(i), x, "cell-sample"); vs_check_bits(b.at_(i), y, "cell-variate"); vs_check_bits(c.at_(i), w, "cell-weight");
  }
  static bool vs_same(double a, double b) { return a == b; }
  static void step(bool copy) {
    long k = vs_int("k", 1, 1000000000), n = vs_int("n", 0, 1000000000000), N = vs_int("N", 0, 1000000000000); vs_assume(N <= n);
    S o(t::cache_size = k); havoc(o, k, n, N); S cp(o); S& s = copy ? cp : o; std::vs_samples = &st<t>(s).samples; double x = vs_real("x"), y = vs_real("y"), w = vs_real("w");
    s(x, covariate1 = y, weight = w);
    auto& a = st<t>(s).samples; auto& b = st<tv>(s).variates; auto& c = st<tw>(s).variates; size_t ix[3 * std::vs_ne]; int e = 0;
    for (int j = 0; j < a.e; ++j) ix[e++] = a.ix[j]; for (int j = 0; j < b.e; ++j) ix[e++] = b.ix[j]; for (int j = 0; j < c.e; ++j) ix[e++] = c.ix[j];
    for (int j = 0; j < e; ++j) cell(s, ix[j], x, y, w);
    inv(s, k, n + 1, N + (vsa::key(x) < vsa::key(vsa::v) ? 1 : 0)); vs_cover("end");
  }
  static void query() {
    long k = vs_int("k", 1, 1000000000), n = vs_int("n", 0, 1000000000000), N = vs_int("N", 0, 1000000000000); vs_assume(N <= n);
    S o(t::cache_size = k); havoc(o, k, n, N); S s(o); std::vs_samples = &st<t>(s).samples; long m = vsa::m0; int which = vs_choose("first", 3);
    if (which == 1) (void)extract_result<tv>(s); if (which == 2) (void)extract_result<tw>(s);
    auto r = extract_result<t>(s); auto rv = extract_result<tv>(s); auto rw = extract_result<tw>(s);
    vs_check_ieq((long)(r.end() - r.begin()), m, "tail.size"); vs_check_ieq((long)(rv.end() - rv.begin()), m, "variates.size"); vs_check_ieq((long)(rw.end() - rw.begin()), m, "weights.size");
    if (m > 0) {
      long i = vs_int("i", 0, 1000000000), j = vs_int("j", 0, 1000000000); vs_assume(i < m && j < m && i < j || i == 0 && j == 0);
      size_t ii = st<t>(s).indices.at_((size_t)(m - 1 - i)); double ti = *(r.begin() + i), tj = *(r.begin() + j);
      vs_check_le(vsa::key(ti), vsa::key(tj), "tail.sorted"); vs_check_bits(ti, st<t>(s).samples.at_(ii), "tail.element"); vs_check_bits(*(rv.begin() + i), st<tv>(s).variates.at_(ii), "variate-of-the-same-sample"); vs_check_bits(*(rw.begin() + i), st<tw>(s).variates.at_(ii), "weight-of-the-same-sample");
    }
    auto& a = st<t>(s).samples; auto& b = st<tv>(s).variates; auto& c = st<tw>(s).variates;
    for (int j = 0; j < a.e; ++j) vs_check_bits(a.cur[j], a.init[j], "query.pure"); for (int j = 0; j < b.e; ++j) vs_check_bits(b.cur[j], b.init[j], "query.pure"); for (int j = 0; j < c.e; ++j) vs_check_bits(c.cur[j], c.init[j], "query.pure");
    inv(s, k, n, N); vs_cover("end");
  }
  // the heap algorithms are given the order of the tail
  static void order() {
    long k = vs_int("k", 2, 1000000000); S s(t::cache_size = k); vsa::sg = std::is_same<LR, left>::value ? 1 : -1; auto& x = st<t>(s).samples; std::vs_samples = &x; x.lazy = true; vsa::m0 = 0; vsa::c0 = 0;
    long i = vs_int("i", 0, 1000000000), j = vs_int("j", 0, 1000000000); vs_assume(i < k && j < k && i != j); double p = x.at_((size_t)i), q = x.at_((size_t)j);
    typedef typename std::decay<decltype(st<t>(s))>::type A; vs_check((typename A::indirect_cmp(x))((size_t)i, (size_t)j) == (vsa::key(p) < vsa::key(q)), "heap-order"); vs_cover("end");
  }
};
OB(step_left_anysize) { T<left>::step(false); }
OB(step_right_anysize) { T<right>::step(false); }
OB(step_left_copy_anysize) { T<left>::step(true); }
OB(step_right_copy_anysize) { T<right>::step(true); }
OB(fn_query_left_anysize) { T<left>::query(); }
OB(fn_query_right_anysize) { T<right>::query(); }
OB(fn_order_left_anysize) { T<left>::order(); }
OB(fn_order_right_anysize) { T<right>::order(); }
