// C18: density / weighted_density.  Invariant for cnt >= cache_size: bin_positions[i] = lo + (i-1)*bs, bs >= 0,
// samples_in_bin[i] = ghost mass of bin i, total = cnt (total weight).  Decided for 1..5 bins.
#include "hutil.hpp"
#include <vector>
// the bin of x: 0 underflow (x < lo), nb+1 overflow (x >= hi), else the i with pos_i <= x < pos_{i+1}
static int bin(int nb, double lo, double bs, double x) { if (x < lo) return 0; for (int i = 1; i <= nb; ++i) if (x < lo + i * bs) return i; return nb + 1; }
template<class Tag, bool WT, class A> static void stp(A& acc, int nb, int k) {
  auto& a = st<Tag>(acc); long cnt = vs_int("cnt", k, CNT_MAX); double lo = vs_real("lo"), bs = vs_real("bs"), s[8], tot = 0, x = vs_real("x"), w = 1, W;
  vs_assume_le(0, bs);
  for (int i = 0; i < nb + 2; ++i) { if (i == nb + 1 && !WT) s[i] = (double)cnt - tot; else s[i] = vs_real("s"); tot += s[i]; a.samples_in_bin[i] = s[i]; a.bin_positions[i] = lo + (i - 1.) * bs; }
  for (int i = 0; i < k; ++i) { double c = vs_real("c"); if constexpr (WT) a.cache[i] = std::make_pair(c, vs_real("cw")); else a.cache[i] = c; }
  st<tag::count>(acc).cnt = cnt;
  if constexpr (WT) { w = wz_in("w", false); vs_assume_lt(0, tot); st<tag::sum_of_weights>(acc).sum = tot; acc(x, weight = w); W = tot + w; } else { acc(x); W = (double)cnt + 1; }
  s[bin(nb, lo, bs, x)] += w;
  for (int rep = 0; rep < 2; ++rep) {
    auto r = density(acc); vs_check_ieq((long)r.size(), nb + 2, "density.size"); double sum = 0;
    for (int i = 0; i < nb + 2; ++i) { vs_check_eq(r[i].first, lo + (i - 1.) * bs, "density.position"); vs_check_eq(r[i].second, s[i] / W, "density.fraction"); sum += r[i].second; }
    vs_check_eq(sum, 1, "density.total");
  }
  vs_cover("end");
}
OB(step_density) { int nb = 1 + vs_choose("nb", 5), k = 1 + vs_choose("k", 2); accumulator_set<double, stats<tag::density> > a(tag::density::cache_size = k, tag::density::num_bins = nb); stp<tag::density, false>(a, nb, k); }
OB(step_weighted_density) { int nb = 1 + vs_choose("nb", 5), k = 1 + vs_choose("k", 2); accumulator_set<double, stats<tag::weighted_density>, double> a(tag::weighted_density::cache_size = k, tag::weighted_density::num_bins = nb); stp<tag::weighted_density, true>(a, nb, k); }
// filling the cache: any k-1 cached samples, the k-th completes it
template<class Tag, bool WT, class A> static void bas(A& acc, int nb, int k) {
  double x[5], w[5], lo = 0, hi = 0, s[8] = {0, 0, 0, 0, 0, 0, 0, 0}, W = 0;
  for (int i = 0; i < k; ++i) {
    x[i] = vs_real("x"); w[i] = WT ? wz_in("w", i == 0) : 1.; W += w[i]; if (i == 0 || x[i] < lo) lo = x[i]; if (i == 0 || x[i] > hi) hi = x[i];
    if constexpr (WT) acc(x[i], weight = w[i]); else acc(x[i]);
    if (i < k - 1) for (auto const& b : density(acc)) vs_check_eq(b.second, 0, "density.unfilled");
  }
  double bs = (hi - lo) / nb; for (int i = 0; i < k; ++i) s[bin(nb, lo, bs, x[i])] += w[i];
  auto r = density(acc); double sum = 0; vs_check_ieq((long)r.size(), nb + 2, "density.size");
  for (int i = 0; i < nb + 2; ++i) { vs_check_eq(r[i].first, lo + (i - 1.) * bs, "density.position"); vs_check_eq(r[i].second, s[i] / W, "density.fraction"); sum += r[i].second; }
  vs_check_eq(sum, 1, "density.total"); vs_check_eq(r[1].first, lo, "density.min"); vs_check_eq(r[nb + 1].first, hi, "density.max"); vs_cover("end");
}
#define BA(k) OB(base_density_k##k) { int nb = 1 + vs_choose("nb", 3); accumulator_set<double, stats<tag::density> > a(density_cache_size = k, density_num_bins = nb); bas<tag::density, false>(a, nb, k); } \
  OB(base_weighted_density_k##k) { int nb = 1 + vs_choose("nb", 3); accumulator_set<double, stats<tag::weighted_density>, double> a(density_cache_size = k, density_num_bins = nb); bas<tag::weighted_density, true>(a, nb, k); }
BA(1) BA(2) BA(3) BA(4)
OB(base_density_int) { int nb = 1 + vs_choose("nb", 3); accumulator_set<int, stats<tag::density> > acc(density_cache_size = 2, density_num_bins = nb);
  int x = in<int>("x"), y = in<int>("x"), z = in<int>("x"); acc(x); acc(y); acc(z); double lo = x < y ? x : y, hi = x < y ? y : x, bs = (hi - lo) / nb, s[5] = {0, 0, 0, 0, 0};
  s[bin(nb, lo, bs, x)] += 1; s[bin(nb, lo, bs, y)] += 1; s[bin(nb, lo, bs, z)] += 1; auto r = density(acc);
  for (int i = 0; i < nb + 2; ++i) { vs_check_eq(r[i].first, lo + (i - 1.) * bs, "density.position"); vs_check_eq(r[i].second, s[i] / 3, "density.fraction"); } vs_cover("end"); }
