// C08: rolling window on the real circular_buffer.  State invariant for window size W: the
// buffer (capacity W+1) holds the last min(n, W+1) samples, oldest first.  The step contract
// havocs the contents at every fill level and every wrap-around phase, so it covers histories
// of any length; the window size is enumerated.
#include "hroll.hpp"
template<class T, class A> static void window_is(A& acc, T const* w, int c, const char* what) {
  vs_check_ieq((long)rolling_count(acc), c, "rolling_count");
  auto r = rolling_window(acc); int i = 0;
  vs_check_ieq((long)(r.end() - r.begin()), c, "window.size");
  for (auto it = r.begin(); it != r.end(); ++it, ++i) vs_check_eq((double)*it, (double)w[i], what);
  vs_check_ieq(i, c, "window.length");
}
template<class T, class A> static void havoc(A& acc, int W, int k, T* w) {
  for (int i = 0; i < k; ++i) acc(T(0));                       // fill level min(k,W+1), phase k mod (W+1)
  auto& b = st<tag::rolling_window_plus1>(acc).buffer_;
  vs_check_ieq((long)b.size(), k < W + 1 ? k : W + 1, "buffer.size"); vs_check_ieq((long)b.capacity(), W + 1, "buffer.capacity");
  for (int i = 0; i < (int)b.size(); ++i) b[i] = w[i] = in<T>("w");
}
template<class T> static void step(int Wmax) {
  int W = 1 + vs_choose("W", Wmax), k = vs_choose("k", 2 * W + 3);
  accumulator_set<T, stats<tag::rolling_window, tag::rolling_count> > acc(tag::rolling_window::window_size = W);
  T w[64]; havoc<T>(acc, W, k, w); int s = k < W + 1 ? k : W + 1;
  window_is(acc, s == W + 1 ? w + 1 : w, s == W + 1 ? W : s, "window.pre");
  T x = in<T>("x"); acc(x); w[s] = x;
  int n = s + 1, c = n < W ? n : W;
  window_is(acc, w + (n - c), c, "window.post"); window_is(acc, w + (n - c), c, "window.pure");
  auto& b = st<tag::rolling_window_plus1>(acc).buffer_;
  int m = n < W + 1 ? n : W + 1;
  vs_check_ieq((long)b.size(), m, "buffer.size.post");
  for (int i = 0; i < m; ++i) vs_check_eq((double)b[i], (double)w[n - m + i], "buffer.post");
  auto r1 = rolling_window_plus1(acc); vs_check_ieq((long)(r1.end() - r1.begin()), m, "window_plus1.size");
  vs_cover("end");
}
OB(step_window) { step<double>(4); }
OB(step_window_int) { step<int>(3); }
OB(slow_step_window) { step<double>(9); }
// copies (constructed and assigned) hold the same window and go on independently
template<int how> static void copy(int Wmax) {
  int W = 1 + vs_choose("W", Wmax), k = vs_choose("k", 2 * W + 3);
  typedef accumulator_set<double, stats<tag::rolling_window, tag::rolling_count> > A;
  A acc(tag::rolling_window::window_size = W);
  double w[64], v[64]; havoc<double>(acc, W, k, w); int s = k < W + 1 ? k : W + 1;
  double x = vs_real("x"), y = vs_real("y");
  for (int i = 0; i < s; ++i) v[i] = w[i];
  w[s] = x; v[s] = y; int n = s + 1, c = n < W ? n : W;
  if (how == 0) {
    A cp(acc);
    window_is(cp, s == W + 1 ? v + 1 : v, s == W + 1 ? W : s, "copy.window");
    cp(y); acc(x);
    window_is(acc, w + (n - c), c, "original.window.post"); window_is(cp, v + (n - c), c, "copy.window.post");
    for (int i = 0; i < W + 1; ++i) { v[n + i] = vs_real("z"); cp(v[n + i]); }
    n += W + 1; c = n < W ? n : W; window_is(cp, v + (n - c), c, "copy.window.later");
  } else {
    auto& p = st<tag::rolling_window_plus1>(acc);
    int W2 = 1 + vs_choose("W2", 3), k2 = vs_choose("k2", 3);
    A other(tag::rolling_window::window_size = W2); for (int i = 0; i < k2; ++i) other(vs_real("o"));
    auto& q = st<tag::rolling_window_plus1>(other);
    typedef typename std::remove_reference<decltype(q)>::type P;
    P& r = (q = p);
    vs_check(&r == &q, "assign.returns-self");
    other(y); acc(x);
    window_is(acc, w + (n - c), c, "original.window.post"); window_is(other, v + (n - c), c, "assigned.window.post");
  }
  vs_cover("end");
}
OB(step_window_copy) { copy<0>(3); }
OB(step_window_assign) { copy<1>(2); }
OB(base_window) {
  int W = 1 + vs_choose("W", 6);
  accumulator_set<double, stats<tag::rolling_window, tag::rolling_count> > acc(tag::rolling_window::window_size = W);
  window_is<double>(acc, 0, 0, "window.init");
  vs_check_ieq((long)st<tag::rolling_window_plus1>(acc).buffer_.capacity(), W + 1, "capacity.init");
  vs_cover("end");
}
