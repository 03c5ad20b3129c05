// C10: tail, tail_variate and tail_weights, public interface, every prefix
#include "hutil.hpp"
#define MX 700
template<class LR> static bool ext(double a, double b) { return std::is_same<LR, left>::value ? a < b : b < a; }
// selection of the most extreme: repeatedly pick an unused most extreme sample
template<class LR, class R, class C, class W> static void check(double* x, long n, int k, R const& r, C const& c, W const& w, bool hasw, double* wt) {
  long m = n < k ? n : k; vs_check_ieq((long)r.size(), m, "tail.size"); vs_check_ieq((long)c.size(), m, "tail_variate.size");
  bool used[MX]; for (long i = 0; i < n; ++i) used[i] = false;
  auto ci = c.begin(); long j = 0; double prev = 0;
  auto wi = w.begin();
  for (auto it = r.begin(); it != r.end() && j < m; ++it, ++ci, ++j) {
    long id = (long)*ci; vs_check(id >= 0 && id < n && !used[id], "tail.pair.once"); if (!(id >= 0 && id < n)) return;
    used[id] = true;
    vs_check_eq(*it, x[id], "tail.pair.value");
    if (hasw) { vs_check_eq(*wi, wt[id], "tail.weight"); ++wi; }
    if (j) vs_check(!ext<LR>(*it, prev), "tail.order"); prev = *it;
  }
  for (long i = 0; i < n; ++i) if (!used[i]) vs_check(!ext<LR>(x[i], prev), "tail.most-extreme");
}
template<class LR, bool Q> static void go(int kmax, int hi) {
  int k = 1 + vs_choose("k", vs_native() ? 8 : kmax); long n = vs_len("n", hi, hi, 40); double x[MX];
  accumulator_set<double, stats<tag::tail<LR>, tag::tail_variate<double, tag::covariate1, LR> > > acc(tag::tail<LR>::cache_size = k);
  bool nothing = false;
  for (long i = 0; i < n; ++i) {
    x[i] = vs_real("x"); acc(x[i], covariate1 = (double)i);
    if (i == n - 1 || (vs_native() && vs_choose("qc", 2))) { auto cp(acc); auto r = tail(cp); auto c = tail_variate(cp); check<LR>(x, i + 1, k, r, c, c, false, (double*)0); }
    if (Q || i == n - 1 || (vs_native() && vs_choose("q", 2))) { auto r = tail(acc); auto c = tail_variate(acc); check<LR>(x, i + 1, k, r, c, c, false, (double*)0); }
    if (i == 1) { auto cp(acc); for (int q = 0; q < k; ++q) cp(q, covariate1 = 5.); (void)tail(cp); }
  }
  vs_cover("end");
}
OB(hist_left) { go<left, false>(3, 4); }
OB(hist_right) { go<right, false>(3, 4); }
OB(hist_left_q) { go<left, true>(2, 3); }
OB(hist_right_q) { go<right, true>(2, 3); }
template<class LR> static void gow(int kmax, int hi) {
  int k = 1 + vs_choose("k", vs_native() ? 8 : kmax); long n = vs_len("n", hi, hi, 40); double x[MX], w[MX];
  accumulator_set<double, stats<tag::tail<LR>, tag::tail_variate<double, tag::covariate1, LR>, tag::tail_weights<LR> >, double> acc(tag::tail<LR>::cache_size = k);
  for (long i = 0; i < n; ++i) {
    x[i] = vs_real("x"); w[i] = w_in("w"); acc(x[i], weight = w[i], covariate1 = (double)i);
    if (i == n - 1 || (vs_native() && vs_choose("q", 2))) { auto r = tail(acc); auto c = tail_variate(acc); auto v = tail_weights(acc); vs_check_ieq((long)v.size(), (long)r.size(), "tail_weights.size"); check<LR>(x, i + 1, k, r, c, v, true, w); }
  }
  vs_cover("end");
}
OB(hist_w_left) { gow<left>(2, 3); }
OB(hist_w_right) { gow<right>(2, 3); }
OB(hist_int) {
  int k = 1 + vs_choose("k", 2); long n = vs_len("n", 3, 3, 20); double x[MX];
  accumulator_set<int, stats<tag::tail<left>, tag::tail_variate<int, tag::covariate1, left> > > acc(tag::tail<left>::cache_size = k);
  for (long i = 0; i < n; ++i) { int v = (int)vs_int("x", -1000, 1000); x[i] = v; acc(v, covariate1 = (int)i); auto r = tail(acc); auto c = tail_variate(acc); check<left>(x, i + 1, k, r, c, c, false, (double*)0); }
  vs_cover("end");
}
// wide caches: a fixed history, queried on the way, then arbitrary samples
template<class LR> static void wide(int k, int n, bool q, int sym = 1) {
  double x[MX], w[MX]; accumulator_set<double, stats<tag::tail<LR>, tag::tail_variate<double, tag::covariate1, LR>, tag::tail_weights<LR> >, double> acc(tag::tail<LR>::cache_size = k);
  for (int i = 0; i < n; ++i) { x[i] = wide_sample(i); w[i] = 1 + i % 5; acc(x[i], weight = w[i], covariate1 = (double)i); if (q && i % 19 == 18) (void)tail(acc); }
  for (int i = n; i < n + sym; ++i) { x[i] = vs_real("x"); w[i] = 2.5 + i; acc(x[i], weight = w[i], covariate1 = (double)i); }
  n += sym; auto r = tail(acc); auto c = tail_variate(acc); auto v = tail_weights(acc); vs_check_ieq((long)v.size(), (long)r.size(), "tail_weights.size"); check<LR>(x, n, k, r, c, v, true, w); vs_cover("end");
}
OB(hist_wide_left) { wide<left>(130, 200, false); }
OB(hist_wide_right) { wide<right>(130, 260, true); }
OB(hist_wide_filling) { wide<right>(300, 150, true); }
OB(hist_wide_all) { wide<left>(257, 257, true, 0); }
OB(hist_wide_two_left) { wide<left>(17, 24, true, 2); }
OB(hist_wide_two_right) { wide<right>(20, 31, false, 2); }
OB(hist_wide_sizes) { wide<left>(1 + vs_choose("k", 40), 60, vs_choose("q", 2) != 0, 0); }
OB(hist_wide_sizes_right) { wide<right>(1 + vs_choose("k", 40), 60, vs_choose("q", 2) != 0, 0); }
