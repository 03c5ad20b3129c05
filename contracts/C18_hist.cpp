// C18: density histograms through the public interface
#include "hutil.hpp"
#include <vector>
template<bool WT, class A> static void run(A& acc, int nb, int k, int hi_) {
  long n = vs_len("n", 1, hi_, 40); static double x[200], w[200]; double lo = 0, hi = 0, W = 0;
  for (long i = 0; i < n; ++i) {
    x[i] = vs_real("x"); if (vs_native()) x[i] = std::floor(x[i] * 8) / 8; w[i] = WT ? wz_in("w", i == 0) : 1.; W += w[i]; if constexpr (WT) acc(x[i], weight = w[i]); else acc(x[i]);
    if (i < k) { if (i == 0 || x[i] < lo) lo = x[i]; if (i == 0 || x[i] > hi) hi = x[i]; }
    if (i < k - 1) { if (vs_choose("q", 2)) for (auto const& b : density(acc)) vs_check_eq(b.second, 0, "density.unfilled"); continue; }
    if (i < n - 1 && vs_choose("q", 2)) continue;
    auto r = density(acc); double sum = 0, bs = (hi - lo) / nb; vs_check_ieq((long)r.size(), nb + 2, "density.size");
    for (int b = 0; b < nb + 2; ++b) {
      double m = 0;
      for (long j = 0; j <= i; ++j) { double l = lo + (b - 1.) * bs, u = lo + b * bs; if (b == 0 ? x[j] < lo : b == nb + 1 ? x[j] >= hi : x[j] >= l && x[j] < u) m += w[j]; }
      vs_check_eq(r[b].first, lo + (b - 1.) * bs, "density.position"); vs_check_eq(r[b].second, m / W, "density.fraction"); sum += r[b].second;
    }
    vs_check_eq(sum, 1, "density.total");
  }
  vs_cover("end");
}
OB(hist_density) { int nb = vs_native() ? 1 << vs_choose("nb", 4) : 1 + vs_choose("nb", 3), k = 1 + vs_choose("k", vs_native() ? 8 : 2); accumulator_set<double, stats<tag::density> > a(density_cache_size = k, density_num_bins = nb); run<false>(a, nb, k, 3); }
OB(hist_weighted) { int nb = vs_native() ? 1 << vs_choose("nb", 4) : 1 + vs_choose("nb", 3), k = 1 + vs_choose("k", vs_native() ? 8 : 2); accumulator_set<double, stats<tag::weighted_density>, double> a(density_cache_size = k, density_num_bins = nb); run<true>(a, nb, k, 3); }
OB(hist_weighted_by_density) { int nb = vs_native() ? 1 << vs_choose("nb", 4) : 2, k = vs_native() ? 1 + vs_choose("k", 8) : 2; accumulator_set<double, stats<tag::density>, double> a(density_cache_size = k, density_num_bins = nb); run<true>(a, nb, k, 3); }
// many bins, long warm-up: a fixed history, then one arbitrary sample (the last of the warm-up, or later)
template<bool WT, class A> static void wide(A& acc, int nb, int k, int n) {
  static double x[300], w[300]; double lo = 0, hi = 0, W = 0;
  for (int i = 0; i <= n; ++i) { x[i] = i == n ? vs_real("x") : wide_sample(i); if (vs_native()) x[i] = std::floor(x[i] * 8) / 8; w[i] = WT ? (i * 7) % 4 + (i == 0) : 1.; W += w[i]; if constexpr (WT) acc(x[i], weight = w[i]); else acc(x[i]);
    if (i < k) { if (i == 0 || x[i] < lo) lo = x[i]; if (i == 0 || x[i] > hi) hi = x[i]; } if (i == k / 2 || i == k + 1) (void)density(acc); }
  auto r = density(acc); double sum = 0, bs = (hi - lo) / nb; vs_check_ieq((long)r.size(), nb + 2, "density.size");
  static double pos[400], m[400]; for (int b = 0; b < nb + 2; ++b) { pos[b] = lo + (b - 1.) * bs; m[b] = 0; }
  for (int j = 0; j <= n; ++j) { int b = 0; while (b < nb + 1 && x[j] >= pos[b + 1]) ++b; m[b] += w[j]; }
  for (int b = 0; b < nb + 2; ++b) { vs_check_eq(r[b].first, pos[b], "density.position"); vs_check_eq(r[b].second, m[b] / W, "density.fraction"); sum += r[b].second; }
  vs_check_eq(sum, 1, "density.total"); vs_cover("end");
}
OB(hist_wide_density) { accumulator_set<double, stats<tag::density> > a(density_cache_size = 40, density_num_bins = 64); wide<false>(a, 64, 40, 90); }
OB(hist_wide_weighted) { accumulator_set<double, stats<tag::weighted_density>, double> a(density_cache_size = 20, density_num_bins = 128); wide<true>(a, 128, 20, 60); }
OB(hist_wide_density_sizes) { int nb = 6 + vs_choose("nb", 30); accumulator_set<double, stats<tag::density> > a(density_cache_size = 5 + nb, density_num_bins = nb); wide<false>(a, nb, 5 + nb, 60); }
OB(hist_wide_weighted_sizes) { int nb = 6 + vs_choose("nb", 30); accumulator_set<double, stats<tag::weighted_density>, double> a(density_cache_size = 5 + nb, density_num_bins = nb); wide<true>(a, nb, 5 + nb, 60); }
OB(hist_wide_density_128) { accumulator_set<double, stats<tag::density> > a(density_cache_size = 20, density_num_bins = 128); wide<false>(a, 128, 20, 30); }
OB(hist_wide_density_257) { accumulator_set<double, stats<tag::density> > a(density_cache_size = 6, density_num_bins = 257); wide<false>(a, 257, 6, 9); }
OB(hist_wide_weighted_257) { accumulator_set<double, stats<tag::weighted_density>, double> a(density_cache_size = 6, density_num_bins = 257); wide<true>(a, 257, 6, 9); }
