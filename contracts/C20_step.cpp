// C20: peaks over threshold from an arbitrary state: one sample, then the fit and the two estimators,
// queried repeatedly and again after a further sample.  Value form: state (Nu, sum x, sum x^2, cnt);
// probability form: any sorted tail of C10 with m cached of n samples.
#include "hpot.hpp"
// value form: inductive step + result function
template<class LR> static void value() {
  vs_flag("nlskip", 1);
  double thr = vs_real("thr");
  accumulator_set<double, stats<tag::pot_tail_mean<LR>(with_threshold_value)> > acc(pot_threshold_value = thr);
  auto& a = st<tag::peaks_over_threshold<LR> >(acc); long nu = vs_int("nu", 0, CNT_MAX), n = vs_int("n", 0, CNT_MAX); vs_assume(nu <= n);
  double s1 = vs_ghost("s1"), s2 = vs_ghost("s2"), f0 = vs_ghost("f0"), f1 = vs_ghost("f1"), f2 = vs_ghost("f2");
  a.Nu_ = nu; a.mu_ = s1; a.sigma2_ = s2; a.is_dirty_ = vs_choose("dirty", 2); a.fit_parameters_ = boost::make_tuple(f0, f1, f2); st<tag::count>(acc).cnt = n;
  double x = vs_real("x"), q = vs_real("q"); vs_assume_lt(0, q); vs_assume_lt(q, 1);
  acc(x); ++n; if (sgn<LR>() < 0 ? x < thr : x > thr) { ++nu; s1 += x; s2 += x * x; }
  vs_check_ieq((long)a.Nu_, nu, "pot.excesses"); vs_check_eq(a.mu_, s1, "pot.sum"); vs_check_eq(a.sigma2_, s2, "pot.sum2"); vs_check(a.is_dirty_, "pot.dirty-after-sample");
  vs_assume(nu >= 1); double u = sgn<LR>() * thr, mu = sgn<LR>() * s1 / nu, m2 = s2 / nu; if (!is_regular(u, mu, m2)) return;
  Fit f = fit_of(u, mu, m2, (double)nu / n); vs_assume_ne(f.x, 1);
  int order = vs_choose("order", 2);
  if (order) { vs_check_eq(tail_mean(acc, quantile_probability = q), ref_tail_mean<LR>(f, q), "pot_tail_mean"); }
  same_fit(peaks_over_threshold(acc), f, "pot.fit"); same_fit(peaks_over_threshold(acc), f, "pot.fit.repeated");
  vs_check_eq(quantile(acc, quantile_probability = q), ref_quantile<LR>(f, q), "pot_quantile");
  if (!order) vs_check_eq(tail_mean(acc, quantile_probability = q), ref_tail_mean<LR>(f, q), "pot_tail_mean");
  vs_check_ieq((long)a.Nu_, nu, "pot.query-pure"); vs_check_eq(a.mu_, s1, "pot.query-pure"); vs_check_eq(a.sigma2_, s2, "pot.query-pure"); vs_check_ieq((long)count(acc), n, "pot.query-pure");
  vs_cover("end");
}
OB(step_value_left) { value<left>(); }
OB(step_value_right) { value<right>(); }
template<class LR> static void base() {
  double thr = vs_real("thr"), ltp = vs_real("tp"); 
  accumulator_set<double, stats<tag::pot_tail_mean<LR>(with_threshold_value)> > acc(pot_threshold_value = thr);
  auto& a = st<tag::peaks_over_threshold<LR> >(acc); vs_check_ieq((long)a.Nu_, 0, "pot.init"); vs_check_eq(a.mu_, 0, "pot.init"); vs_check_eq(a.sigma2_, 0, "pot.init"); vs_check_eq(a.threshold_, sgn<LR>() * thr, "pot.init");
  accumulator_set<double, stats<tag::weighted_pot_tail_mean<LR>(with_threshold_value)>, double> wacc(pot_threshold_value = thr);
  auto& b = st<tag::weighted_peaks_over_threshold<LR> >(wacc); vs_check_eq(b.w_sum_, 0, "wpot.init"); vs_check_eq(b.mu_, 0, "wpot.init"); vs_check_eq(b.sigma2_, 0, "wpot.init"); vs_check_eq(b.threshold_, sgn<LR>() * thr, "wpot.init");
  accumulator_set<double, stats<tag::pot_tail_mean<LR>(with_threshold_probability)> > pacc(tag::tail<LR>::cache_size = 2, pot_threshold_probability = ltp);
  auto& c = st<tag::peaks_over_threshold_prob<LR> >(pacc); vs_check_eq(c.threshold_probability_, ltp, "pot_prob.init"); vs_check(c.is_dirty_, "pot_prob.init");
  vs_cover("end");
}
OB(base_left) { base<left>(); }
OB(base_right) { base<right>(); }
template<class LR> static void wvalue() {
  vs_flag("nlskip", 1);
  double thr = vs_real("thr");
  accumulator_set<double, stats<tag::weighted_pot_tail_mean<LR>(with_threshold_value)>, double> acc(pot_threshold_value = thr);
  auto& a = st<tag::weighted_peaks_over_threshold<LR> >(acc);
  double w0 = vs_ghost("w0"), W = vs_ghost("W"), s1 = vs_ghost("s1"), s2 = vs_ghost("s2"); vs_assume_le(0, w0); vs_assume_le(w0, W);
  a.w_sum_ = w0; a.mu_ = s1; a.sigma2_ = s2; a.is_dirty_ = vs_choose("dirty", 2); st<tag::sum_of_weights>(acc).sum = W;
  double x = vs_real("x"), w = w_in("w"), q = vs_real("q"); vs_assume_lt(0, q); vs_assume_lt(q, 1);
  acc(x, weight = w); W += w; if (sgn<LR>() < 0 ? x < thr : x > thr) { w0 += w; s1 += w * x; s2 += w * x * x; }
  vs_check_eq(a.w_sum_, w0, "wpot.excess-weight"); vs_check_eq(a.mu_, s1, "wpot.sum"); vs_check_eq(a.sigma2_, s2, "wpot.sum2"); vs_check(a.is_dirty_, "wpot.dirty-after-sample");
  vs_assume_lt(0, w0); double u = sgn<LR>() * thr, mu = sgn<LR>() * s1 / w0, m2 = s2 / w0; if (!is_regular(u, mu, m2)) return;
  Fit f = fit_of(u, mu, m2, w0 / W); vs_assume_ne(f.x, 1);
  int order = vs_choose("order", 2);
  if (order) { vs_check_eq(tail_mean(acc, quantile_probability = q), ref_tail_mean<LR>(f, q), "wpot_tail_mean"); }
  same_fit(weighted_peaks_over_threshold(acc), f, "wpot.fit"); same_fit(weighted_peaks_over_threshold(acc), f, "wpot.fit.repeated");
  vs_check_eq(quantile(acc, quantile_probability = q), ref_quantile<LR>(f, q), "wpot_quantile");
  if (!order) vs_check_eq(tail_mean(acc, quantile_probability = q), ref_tail_mean<LR>(f, q), "wpot_tail_mean");
  vs_check_eq(a.w_sum_, w0, "wpot.query-pure"); vs_check_eq(a.mu_, s1, "wpot.query-pure"); vs_check_eq(a.sigma2_, s2, "wpot.query-pure");
  vs_cover("end");
}
OB(step_wvalue_left) { wvalue<left>(); }
OB(step_wvalue_right) { wvalue<right>(); }
// probability form from any sorted tail
template<class LR> static void prob(int kmax) {
  vs_flag("nlskip", 1);
  int k = 1 + vs_choose("k", kmax); double p = vs_real("p"); vs_assume_lt(0, p); vs_assume_lt(p, 1);
  accumulator_set<double, stats<tag::pot_tail_mean<LR>(with_threshold_probability)> > acc(tag::tail<LR>::cache_size = k, pot_threshold_probability = p);
  int m = 1 + vs_choose("m", k); long n = m; if (m == k) n = vs_int("n", k, 1000000000);
  auto& c = st<tag::tail<LR> >(acc); double t[9]; c.is_sorted = true; c.indices.clear();
  for (int i = 0; i < m; ++i) { c.indices.push_back((std::size_t)(m - 1 - i)); c.samples[i] = t[i] = vs_real("t"); if (i) assume_me<LR>(t[i - 1], t[i]); }
  st<tag::count>(acc).cnt = n;
  double a = share_of<LR>(p); int r = 1 + vs_choose("r", m + 1); vs_assume_lt((double)r - 1, n * a); if (r <= m) vs_assume_le(n * a, (double)r);
  if (r > m) { for (int rep = 0; rep < 2; ++rep) nan_fit(peaks_over_threshold(acc), "pot_prob.nan-when-not-cached"); vs_cover("end"); return; }
  double s1 = 0, s2 = 0; for (int i = 0; i < r; ++i) { s1 += t[i]; s2 += t[i] * t[i]; }
  double u = sgn<LR>() * t[r - 1], mu = sgn<LR>() * s1 / r, m2 = s2 / r; if (!is_regular(u, mu, m2)) return;
  Fit f = fit_of(u, mu, m2, a); vs_assume_ne(f.x, 1); double q = vs_real("q"); vs_assume_lt(0, q); vs_assume_lt(q, 1);
  for (int rep = 0; rep < 2; ++rep) {
    same_fit(peaks_over_threshold(acc), f, "pot_prob.fit");
    vs_check_eq(quantile(acc, quantile_probability = q), ref_quantile<LR>(f, q), "pot_prob.quantile");
    vs_check_eq(tail_mean(acc, quantile_probability = q), ref_tail_mean<LR>(f, q), "pot_prob.tail_mean");
    if (rep == 0) st<tag::peaks_over_threshold_prob<LR> >(acc)(0);     // the accumulator's own per-sample update: forces a refit on the same tail
  }
  vs_cover("end");
}
OB(fn_prob_left) { prob<left>(4); }
OB(fn_prob_right) { prob<right>(4); }
template<class LR> static void wprob(int kmax) {
  vs_flag("nlskip", 1);
  int k = 1 + vs_choose("k", kmax); double p = vs_real("p"); vs_assume_lt(0, p); vs_assume_lt(p, 1);
  accumulator_set<double, stats<tag::weighted_pot_tail_mean<LR>(with_threshold_probability)>, double> acc(tag::tail<LR>::cache_size = k, pot_threshold_probability = p);
  int m = 1 + vs_choose("m", k); 
  auto& c = st<tag::tail<LR> >(acc); auto& wv = st<tag::tail_weights<LR> >(acc).variates; double t[9], w[9], tot = 0; c.is_sorted = true; c.indices.clear();
  for (int i = 0; i < m; ++i) { c.indices.push_back((std::size_t)(m - 1 - i)); c.samples[i] = t[i] = vs_real("t"); wv[i] = w[i] = w_in("w"); tot += w[i]; if (i) assume_me<LR>(t[i - 1], t[i]); }
  double W = tot; if (m == k) { W = vs_real("W"); vs_assume_le(tot, W); } st<tag::sum_of_weights>(acc).sum = W;
  double a = share_of<LR>(p), thr = W * a, cum = 0, s1 = 0, s2 = 0; int r = 0;
  for (int i = 0; i < m && !r; ++i) { cum += w[i]; s1 += w[i] * t[i]; s2 += w[i] * t[i] * t[i]; if (cum >= thr) r = i + 1; }
  if (!r) { for (int rep = 0; rep < 2; ++rep) nan_fit(weighted_peaks_over_threshold(acc), "wpot_prob.nan-when-not-cached"); vs_cover("end"); return; }
  double u = sgn<LR>() * t[r - 1], mu = sgn<LR>() * s1 / cum, m2 = s2 / cum; if (!is_regular(u, mu, m2)) return;
  Fit f = fit_of(u, mu, m2, a); vs_assume_ne(f.x, 1); double q = vs_real("q"); vs_assume_lt(0, q); vs_assume_lt(q, 1);
  for (int rep = 0; rep < 2; ++rep) {
    same_fit(weighted_peaks_over_threshold(acc), f, "wpot_prob.fit");
    vs_check_eq(quantile(acc, quantile_probability = q), ref_quantile<LR>(f, q), "wpot_prob.quantile");
    vs_check_eq(tail_mean(acc, quantile_probability = q), ref_tail_mean<LR>(f, q), "wpot_prob.tail_mean");
    if (rep == 0) st<tag::weighted_peaks_over_threshold_prob<LR> >(acc)(0);
  }
  vs_cover("end");
}
OB(fn_wprob_left) { wprob<left>(3); }
OB(fn_wprob_right) { wprob<right>(3); }
OB(slow_fn_prob_left) { prob<left>(5); }
OB(slow_fn_prob_right) { prob<right>(5); }
OB(slow_fn_wprob_left) { wprob<left>(4); }
OB(slow_fn_wprob_right) { wprob<right>(4); }
