// C20 through the public interface: bounded histories with queries interleaved
#include "hpot.hpp"
#define MX 60
// native only: skip ill-conditioned fits, where rounding alone exceeds the comparison tolerance
static bool small_q(Fit const& f, double a) { return !vs_native() || (std::fabs(f.x) < 6 && std::fabs(f.x) > 1e-2 && std::fabs(f.x - 1) > 1e-2 && std::fabs(f.u) + std::fabs(f.b / f.x) * (1 + std::pow(a, -f.x)) < 1e3); }
template<class LR, bool Wt, class A, class G> static void query(A& acc, G get, double u, double s1, double s2, double w, double a) {
  double mu = sgn<LR>() * s1 / w, m2 = s2 / w; if (!is_regular(u, mu, m2)) return;
  Fit f = fit_of(u, mu, m2, a); if (!vs_native()) vs_assume_ne(f.x, 1);
  double q; if (vs_native()) q = (1 + vs_choose("q", 31)) / 32.; else { q = vs_real("q"); vs_assume_lt(0, q); vs_assume_lt(q, 1); }
  if (!small_q(f, share_of<LR>(q))) return;
  for (int rep = 0; rep < 2; ++rep) {
    same_fit(get(acc), f, "pot.fit");
    vs_check_eq(quantile(acc, quantile_probability = q), ref_quantile<LR>(f, q), "pot_quantile");
    vs_check_eq(tail_mean(acc, quantile_probability = q), ref_tail_mean<LR>(f, q), "pot_tail_mean");
  }
}
template<class LR, bool Wt> static void value(int hi) {
  vs_flag("nlskip", 1);
  double thr = vs_real("thr"); long n = vs_len("n", 1, hi, 30); double nu = 0, W = 0, s1 = 0, s2 = 0;
  typedef typename std::conditional<Wt, accumulator_set<double, stats<tag::weighted_pot_tail_mean<LR>(with_threshold_value)>, double>, accumulator_set<double, stats<tag::pot_tail_mean<LR>(with_threshold_value)> > >::type A;
  A acc(pot_threshold_value = thr);
  auto get = [](A const& a) { if constexpr (Wt) return weighted_peaks_over_threshold(a); else return peaks_over_threshold(a); };
  for (long i = 0; i < n; ++i) {
    double x = vs_real("x"), w = Wt ? w_in("w") : 1.; if constexpr (Wt) acc(x, weight = w); else acc(x);
    W += w; if (sgn<LR>() < 0 ? x < thr : x > thr) { nu += w; s1 += w * x; s2 += w * x * x; }
    if (vs_native() ? nu > 0 && (i == n - 1 || vs_choose("ask", 3) == 0) : nu > 0 && i > 0) query<LR, Wt>(acc, get, sgn<LR>() * thr, s1, s2, nu, nu / W);
    if (nu == 0) { double b = get(acc).template get<1>(); vs_check(vs_isnan(b), "pot.no-excess-is-nan"); }
  }
  vs_cover("end");
}
OB(hist_value_left) { value<left, false>(3); }
OB(hist_value_right) { value<right, false>(3); }
OB(hist_wvalue_left) { value<left, true>(3); }
OB(hist_wvalue_right) { value<right, true>(3); }
template<class LR, bool Wt> static void prob(int hi) {
  vs_flag("nlskip", 1);
  double p; if (vs_native()) p = (1 + vs_choose("p", 63)) / 64.; else { p = (1 + vs_choose("p", 3)) / 4.; }
  int k = vs_native() ? 1 + vs_choose("k", 12) : 3; long n = vs_len("n", vs_native() ? 1 : hi, hi, 20);
  typedef typename std::conditional<Wt, accumulator_set<double, stats<tag::weighted_pot_tail_mean<LR>(with_threshold_probability)>, double>, accumulator_set<double, stats<tag::pot_tail_mean<LR>(with_threshold_probability)> > >::type A;
  A acc(tag::tail<LR>::cache_size = k, pot_threshold_probability = p);
  auto get = [](A const& a) { if constexpr (Wt) return weighted_peaks_over_threshold(a); else return peaks_over_threshold(a); };
  double x[MX], w[MX], W = 0, a = share_of<LR>(p);
  for (long i = 0; i < n; ++i) {
    double xi = vs_real("x"), wi = Wt ? w_in("w") : 1.; if (vs_native()) xi += i * 1e-3;
    if constexpr (Wt) acc(xi, weight = wi); else acc(xi);
    W += wi; long j = i; x[j] = xi; w[j] = wi;
    for (; j > 0; --j) { vs_assume_ne(x[j], x[j - 1]); if (!(sgn<LR>() < 0 ? x[j] < x[j - 1] : x[j] > x[j - 1])) break; std::swap(x[j], x[j - 1]); std::swap(w[j], w[j - 1]); }
    if (!(vs_native() ? i == n - 1 || vs_choose("ask", 3) == 0 : i >= n - 2)) continue;
    double thr = W * a, cum = 0, s1 = 0, s2 = 0; long r = 0, m = i + 1 < k ? i + 1 : k;
    for (long c = 0; c < m && !r; ++c) { cum += w[c]; s1 += w[c] * x[c]; s2 += w[c] * x[c] * x[c]; if (Wt && vs_native()) vs_assume(std::fabs(cum - thr) > 1e-9); if (cum >= thr) r = c + 1; }
    if (!r) { nan_fit(get(acc), "pot_prob.nan-when-not-cached"); nan_fit(get(acc), "pot_prob.nan-when-not-cached"); continue; }
    if (!vs_native() && r < (Wt ? 2 : 3)) continue;
    query<LR, Wt>(acc, get, sgn<LR>() * x[r - 1], s1, s2, cum, a);
  }
  vs_cover("end");
}
OB(hist_prob_left) { prob<left, false>(4); }
OB(hist_prob_right) { prob<right, false>(4); }
OB(hist_wprob_left) { prob<left, true>(3); }
OB(hist_wprob_right) { prob<right, true>(3); }
// wide caches: a fixed history, threshold probabilities in 1/32ths, queried on the way
template<class LR, bool Wt> static void wide(int k, int n) {
  vs_flag("nlskip", 1); double p = (1 + vs_choose("p", 31)) / 32.;
  typedef typename std::conditional<Wt, accumulator_set<double, stats<tag::weighted_pot_tail_mean<LR>(with_threshold_probability)>, double>, accumulator_set<double, stats<tag::pot_tail_mean<LR>(with_threshold_probability)> > >::type A;
  A acc(tag::tail<LR>::cache_size = k, pot_threshold_probability = p);
  auto get = [](A const& a) { if constexpr (Wt) return weighted_peaks_over_threshold(a); else return peaks_over_threshold(a); };
  double x[MX], w[MX], W = 0, a = share_of<LR>(p);
  for (long i = 0; i < n; ++i) {
    double xi = wide_sample(i), wi = Wt ? 0.5 + i % 3 : 1.; if constexpr (Wt) acc(xi, weight = wi); else acc(xi);
    W += wi; long j = i; x[j] = xi; w[j] = wi; for (; j > 0 && (sgn<LR>() < 0 ? x[j] < x[j - 1] : x[j] > x[j - 1]); --j) { std::swap(x[j], x[j - 1]); std::swap(w[j], w[j - 1]); }
    if (i != n / 2 && i != n - 1) continue;
    double thr = W * a, cum = 0, s1 = 0, s2 = 0; long r = 0, m = i + 1 < k ? i + 1 : k;
    for (long c = 0; c < m && !r; ++c) { cum += w[c]; s1 += w[c] * x[c]; s2 += w[c] * x[c] * x[c]; if (cum >= thr) r = c + 1; }
    if (!r) { nan_fit(get(acc), "pot_prob.nan-when-not-cached"); continue; }
    if (r < 2) continue;
    query<LR, Wt>(acc, get, sgn<LR>() * x[r - 1], s1, s2, cum, a);
  }
  vs_cover("end");
}
OB(hist_wide_left) { wide<left, false>(30, 50); }
OB(hist_wide_right) { wide<right, false>(30, 50); }
OB(hist_wide_wleft) { wide<left, true>(30, 50); }
OB(hist_wide_wright) { wide<right, true>(30, 50); }
