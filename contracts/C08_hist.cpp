// C08: rolling window, public interface, every prefix
#include "hroll.hpp"
template<class T> static void go(int Wmax, int extra) {
  int W = 1 + vs_choose("W", vs_native() ? (vs_choose("big", 4) ? 12 : 400) : Wmax); static T x[4000];
  accumulator_set<T, stats<tag::rolling_window, tag::rolling_count> > acc(tag::rolling_window::window_size = W);
  long n = vs_len("n", 2 * Wmax + extra, 2 * Wmax + extra, W > 12 ? 1000 : 60); if (n > 3999) n = 3999;
  for (long i = 0; i < n; ++i) {
    x[i] = in<T>("x"); acc(x[i]);
    long c = i + 1 < W ? i + 1 : W;
    vs_check_ieq((long)rolling_count(acc), c, "rolling_count");
    auto r = rolling_window(acc); long j = i + 1 - c;
    vs_check_ieq((long)(r.end() - r.begin()), c, "window.size");
    for (auto it = r.begin(); it != r.end(); ++it) { vs_check_eq((double)*it, (double)x[j], "window"); ++j; }
    vs_check_ieq(j, i + 1, "window.end");
    if (i == W || i + 2 == n) { auto cp(acc); cp(T(7)); auto q = rolling_window(cp); vs_check_eq((double)q.back(), 7, "copy.back"); vs_check_ieq((long)(q.end() - q.begin()), i + 2 < W ? i + 2 : W, "copy.size"); if (W > 1) vs_check_eq((double)q.front(), (double)x[i + 2 < W ? 0 : i + 2 - W], "copy.front"); }
  }
  vs_cover("end");
}
OB(hist_window) { go<double>(3, 3); }
OB(hist_window_int) { go<int>(2, 3); }
// wide windows on the real container: every size up to 40, and one larger; all samples arbitrary
static void wide(int W, int n) {
  static double x[600]; accumulator_set<double, stats<tag::rolling_window, tag::rolling_count> > acc(tag::rolling_window::window_size = W);
  for (int i = 0; i < n; ++i) { x[i] = i % 5 == 0 ? vs_real("x") : wide_sample(i); acc(x[i]); long c = i + 1 < W ? i + 1 : W; vs_check_ieq((long)rolling_count(acc), c, "rolling_count");
    if (i % 13 && i < n - 1 && i != W && i != W - 1 && i != 2 * W) continue; auto r = rolling_window(acc); long j = i + 1 - c; vs_check_ieq((long)(r.end() - r.begin()), c, "window.size");
    for (auto it = r.begin(); it != r.end(); ++it) { vs_check_eq((double)*it, x[j], "window"); ++j; } vs_check_ieq(j, i + 1, "window.end"); }
  vs_cover("end");
}
OB(hist_wide_sizes) { int W = 4 + vs_choose("W", 37); wide(W, 2 * W + 3); }
OB(hist_wide_200) { wide(200, 430); }
