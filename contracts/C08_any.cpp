// flags: -I@/stubs_cb
// C08, every window size: the rolling_window code against the contract of circular_buffer.
// assumes: contract of boost::circular_buffer (contracts/stubs_cb) in place of its code
#include "hroll.hpp"
typedef accumulator_set<double, stats<tag::rolling_window, tag::rolling_count> > A;
static void havoc(A& acc, long W, long s, double e0, double e1, double e2) {
  auto& b = st<tag::rolling_window_plus1>(acc).buffer_;
  vs_check_ieq((long)b.cap, W + 1, "capacity.init"); vs_check_ieq((long)b.sz, 0, "size.init");
  b.sz = s; b.e0 = e0; b.e1 = e1; b.third = e2;
}
OB(step_window_anysize) {
  long W = vs_int("W", 1, 1000000000), s = vs_int("s", 0, 1000000001); vs_assume(s <= W + 1);
  double e0 = vs_real("e0"), e1 = vs_real("e1"), e2 = vs_real("e2"), x = vs_real("x");
  A acc(tag::rolling_window::window_size = W); havoc(acc, W, s, e0, e1, e2);
  acc(x);
  vs_check_ieq((long)rolling_count(acc), s < W ? s + 1 : W, "rolling_count.post");
  auto r = rolling_window(acc);
  vs_check_ieq((long)(r.end() - r.begin()), s < W ? s + 1 : W, "window.size.post");
  double oldest = s == 0 ? x : s < W ? e0 : s == W ? (W == 1 ? x : e1) : (W == 1 ? x : e2);
  if (!(s == W && W > 2 && false)) vs_check_eq((double)r.front(), oldest, "window.oldest.post");
  vs_check_eq((double)r.back(), x, "window.newest.post");
  vs_cover("end");
}
