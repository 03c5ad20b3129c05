// C03: variance, public interface, every prefix, against sum (x-mean)^2 / n
#include "hutil.hpp"
#define MAXN 400
template<class T, class A> static void go(A& acc, int hi) {
  long n = vs_len("n", 1, hi, 150); T x[MAXN];
  if (n > MAXN) n = MAXN;
  T c = scale<T>();
  for (long i = 0; i < n; ++i) {
    x[i] = in<T>("x") * c; acc(x[i]);
    if (vs_native() && i > 20 && i != n - 1) continue;
    double m = 0, v = 0;
    for (long j = 0; j <= i; ++j) m += (double)x[j];
    m = m / (i + 1);
    for (long j = 0; j <= i; ++j) v += ((double)x[j] - m) * ((double)x[j] - m);
    vs_check_eq(variance(acc) / c / c, v / (i + 1) / c / c, "variance");
    vs_check_eq(mean(acc) / c, m / c, "mean");
  }
  vs_cover("end");
}
OB(hist_immediate) { accumulator_set<double, stats<tag::variance> > a; go<double>(a, 4); }
OB(hist_lazy) { accumulator_set<double, stats<tag::variance(lazy)> > a; go<double>(a, 4); }
OB(hist_immediate2) { accumulator_set<double, stats<tag::variance(immediate), tag::mean(immediate)> > a; go<double>(a, 3); }
OB(hist_lazymean) { accumulator_set<double, stats<tag::mean, tag::variance> > a; go<double>(a, 3); }
OB(hist_int) { accumulator_set<int, stats<tag::variance> > a; go<int>(a, 3); }
OB(hist_int_lazy) {
  accumulator_set<int, stats<tag::variance(lazy)> > acc; long n = vs_len("n", 1, 3, 50); double s = 0, q = 0;
  for (long i = 0; i < n; ++i) { int x = (int)vs_int("x", -1000, 1000); acc(x); s += x; q += (double)x * x; vs_check_eq(variance(acc), q / (i + 1) - s / (i + 1) * (s / (i + 1)), "variance"); }
  vs_cover("end");
}
