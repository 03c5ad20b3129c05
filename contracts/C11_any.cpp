// C11, every cache size: the order-statistic estimators on an arbitrary tail, against the contracts of std::vector and
// assumes: contracts of std::vector, push_heap, pop_heap, sort_heap, reverse (contracts/hany.hpp) in place of their code, and of std::accumulate over a prefix of the tail
// the heap algorithms (hany.hpp) and of std::accumulate over the first n elements of the tail (its sum is a ghost,
// one value per n).
#include "hany.hpp"
#include <numeric>
namespace std {
typedef boost::iterators::reverse_iterator<boost::iterators::permutation_iterator<vs_arr<double>::const_iterator, vs_it> > vs_tail_it;
static int vs_ps_e; static long vs_ps_n[16]; static double vs_ps_v[16];
static double vs_prefix(long n) { for (int j = 0; j < vs_ps_e; ++j) if (vs_ps_n[j] == n) return vs_ps_v[j]; vs_ps_n[vs_ps_e] = n; vs_ps_v[vs_ps_e] = n == 0 ? 0. : vs_ghost("sum-of-the-first"); return vs_ps_v[vs_ps_e++]; }
template<class T> T accumulate(vs_tail_it b, vs_tail_it e, T init) {
  vs_it x = b.base().base(), y = e.base().base(); vs_check(x.a == y.a, "accumulate.one-range"); vs_check_ieq(x.i, x.a->n, "accumulate.from-the-most-extreme"); vs_check(0 <= y.i && y.i <= x.i, "accumulate.valid-range");
  vs_check(x.a->sorted == 2 || x.a->n <= 1, "accumulate.over-the-sorted-tail"); return init + (T)vs_prefix(x.i - y.i);
}
}
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/tail_mean.hpp>
static long ceil_of(double v) { return (long)std::ceil(v); }
// the sum of the tail's first n elements is known only through the contract of std::accumulate: a result computed without
// that call is left undecided here (C11_step decides it for small caches)
extern "C" void vs_beyond_this_contract();
#define SUMMED() do { if (std::vs_ps_e == 0) vs_beyond_this_contract(); } while (0)
template<class LR> static double share(double p) { return std::is_same<LR, left>::value ? p : 1. - p; }
// the tail after n samples with room for k
template<class LR, class S> static long havoc(S& s, long k, long n) {
  typedef tag::tail<LR> t; vsa::sg = std::is_same<LR, left>::value ? 1 : -1; auto& a = st<t>(s); vsa::m0 = n < k ? n : k; std::vs_samples = &a.samples; std::vs_ps_e = 0; a.samples.lazy = a.samples.samp = true;
  a.indices.n = vsa::m0; a.is_sorted = vs_choose("sorted", 2) != 0; a.indices.sorted = a.is_sorted ? 2 : 0; a.indices.heap = a.indices.but_last = true; st<tag::count>(s).cnt = (std::size_t)n;
  if (vsa::m0 > 0) { long i = vs_int("front", 0, 2000000000); vs_assume(i < vsa::m0); (void)a.samples.at_((std::size_t)i); a.indices.set(0, (std::size_t)i); }
  return vsa::m0;
}
// the i-th most extreme cached sample
template<class LR, class S> static double nth(S& s, long i) { auto& a = st<tag::tail<LR> >(s); (void)extract_result<tag::tail<LR> >(s); vs_check(a.indices.sorted == 2 || a.indices.n <= 1, "tail.sorted"); return a.samples.at_(a.indices.at_((std::size_t)(a.indices.n - i))); }
#define PRE(...) long k = vs_int("k", 1, 1000000000), n = vs_int("n", 1, 1000000000); accumulator_set<double, features<__VA_ARGS__> > s(tag::tail<LR>::cache_size = k); long m = havoc<LR>(s, k, n); double p = vs_real("p"); vs_assume_le(0, p); vs_assume_le(p, 1); double a = share<LR>(p); long r = ceil_of(n * a);
template<class LR> static void quantile_() {
  PRE(tag::tail_quantile<LR>)
  double q = extract_result<tag::tail_quantile<LR> >(s, quantile_probability = p);
  if (r < 1 || r > m) vs_check(vs_isnan(q), "tail_quantile.nan-when-not-cached"); else { vs_check_bits(q, nth<LR>(s, r), "tail_quantile"); vs_check_bits(extract_result<tag::tail_quantile<LR> >(s, quantile_probability = p), q, "tail_quantile.pure"); }
  vs_cover("end");
}
template<class LR> static void ncmean() {
  PRE(tag::non_coherent_tail_mean<LR>)
  double q = extract_result<tag::non_coherent_tail_mean<LR> >(s, quantile_probability = p);
  if (r < 1 || r > m) vs_check(vs_isnan(q), "non_coherent_tail_mean.nan-when-not-cached"); else { SUMMED(); vs_check_eq(q, std::vs_prefix(r) / r, "non_coherent_tail_mean"); }
  vs_cover("end");
}
template<class LR> static void cmean() {
  PRE(tag::tail_quantile<LR>, tag::coherent_tail_mean<LR>)
  double q = extract_result<tag::coherent_tail_mean<LR> >(s, quantile_probability = p);
  if (r < 1 || r > m) vs_check(vs_isnan(q), "coherent_tail_mean.nan-when-not-cached"); else { SUMMED(); vs_check_eq(q, std::vs_prefix(r) / r + nth<LR>(s, r) / r * (a - (double)r / n), "coherent_tail_mean"); }
  vs_cover("end");
}
OB(fn_quantile_left_anysize) { quantile_<left>(); }
OB(fn_quantile_right_anysize) { quantile_<right>(); }
OB(fn_ncmean_left_anysize) { ncmean<left>(); }
OB(fn_ncmean_right_anysize) { ncmean<right>(); }
OB(fn_cmean_left_anysize) { cmean<left>(); }
OB(fn_cmean_right_anysize) { cmean<right>(); }
