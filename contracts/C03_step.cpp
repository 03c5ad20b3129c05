// C03: variance.  Ghosts: n, S1 = sum x, S2 = sum x^2;   V(n) = S2/n - (S1/n)^2 = (1/n) sum (x-mean)^2.
#include "hutil.hpp"
static double var(double n, double s1, double s2) { return s2 / n - (s1 / n) * (s1 / n); }
template<class T, class MeanTag, class Acc> static void imm(Acc& acc) {
  long n = vs_int("n", 0, CNT_MAX); double S1 = vs_real("S1"), S2 = vs_real("S2"); T x = in<T>("x");
  if (n == 0) S1 = S2 = 0;
  if (n == 1) S2 = S1 * S1;
  st<tag::count>(acc).cnt = n; st<MeanTag>(acc).mean = n ? S1 / n : 0.; st<tag::variance>(acc).variance = n ? var(n, S1, S2) : 0.;
  acc(x);
  vs_check_eq(variance(acc), var(n + 1, S1 + x, S2 + (double)x * x), "variance.post");
  vs_check_eq(mean(acc), (S1 + x) / (n + 1), "mean.post");
  vs_check_eq(variance(acc), var(n + 1, S1 + x, S2 + (double)x * x), "variance.pure");
  vs_cover("end");
}
OB(step_variance) { accumulator_set<double, stats<tag::variance> > acc; imm<double, tag::immediate_mean>(acc); }
OB(step_variance_int) { accumulator_set<int, stats<tag::variance> > acc; imm<int, tag::immediate_mean>(acc); }
OB(base_variance) {
  accumulator_set<double, stats<tag::variance> > acc;
  vs_check_eq(variance(acc), 0, "variance.init"); vs_check_eq(mean(acc), 0, "mean.init"); vs_check_ieq((long)count(acc), 0, "count.init");
  double x = vs_real("x"); acc(x); vs_check_eq(variance(acc), 0, "variance.first"); vs_check_eq(mean(acc), x, "mean.first");
  vs_cover("end");
}
// immediate variance on top of a lazy mean
OB(step_variance_lazymean) {
  accumulator_set<double, stats<tag::mean, tag::variance> > acc;
  long n = vs_int("n", 0, CNT_MAX); double S1 = vs_real("S1"), S2 = vs_real("S2"), x = vs_real("x");
  if (n == 0) S1 = S2 = 0;
  if (n == 1) S2 = S1 * S1;
  st<tag::count>(acc).cnt = n; st<tag::sum>(acc).sum = S1; st<tag::variance>(acc).variance = n ? var(n, S1, S2) : 0.;
  acc(x);
  vs_check_eq(variance(acc), var(n + 1, S1 + x, S2 + x * x), "variance.post");
  vs_cover("end");
}
OB(step_lazy_variance) {
  accumulator_set<double, stats<tag::lazy_variance> > acc;
  long n = vs_int("n", 0, CNT_MAX); double S1 = vs_real("S1"), S2 = vs_real("S2"), x = vs_real("x");
  st<tag::count>(acc).cnt = n; st<tag::sum>(acc).sum = S1; st<tag::moment<2> >(acc).sum = S2;
  acc(x);
  vs_check_eq(variance(acc), var(n + 1, S1 + x, S2 + x * x), "lazy_variance.post");
  vs_check_eq(lazy_variance(acc), var(n + 1, S1 + x, S2 + x * x), "lazy_variance.pure");
  vs_cover("end");
}
OB(base_lazy_variance) {
  accumulator_set<double, stats<tag::variance(lazy)> > acc;
  vs_check_eq(sum(acc), 0, "sum.init"); vs_check_ieq((long)count(acc), 0, "count.init");
  double x = vs_real("x"); acc(x); vs_check_eq(variance(acc), 0, "lazy_variance.first");
  vs_cover("end");
}
OB(step_lazy_variance_int) {
  accumulator_set<int, stats<tag::variance(lazy)> > acc;
  long n = vs_int("n", 0, CNT_MAX); int S1 = (int)vs_int("S1", -1000000000, 1000000000), S2 = (int)vs_int("S2", 0, 2000000000), x = (int)vs_int("x", -10000, 10000);
  st<tag::count>(acc).cnt = n; st<tag::sum>(acc).sum = S1; st<tag::moment<2> >(acc).sum = S2;
  acc(x);
  vs_check_eq(variance(acc), var(n + 1, (double)S1 + x, (double)S2 + (double)x * x), "lazy_variance.post");
  vs_cover("end");
}
// lemma over the contracts: S2/n - (S1/n)^2 is the mean squared deviation and adding a sample
// changes n*V by (x-mean)^2 * n/(n+1)
OB(lem_deviation) {
  long n = vs_int("n", 1, CNT_MAX); double S1 = vs_real("S1"), S2 = vs_real("S2"), x = vs_real("x");
  double m = S1 / n, m1 = (S1 + x) / (n + 1);
  // sum (x_i - m1)^2 over the n+1 samples, from the sums
  double dev = (S2 + x * x) - 2 * m1 * (S1 + x) + (n + 1) * m1 * m1;
  vs_check_eq(dev / (n + 1), var(n + 1, S1 + x, S2 + x * x), "variance.is-mean-squared-deviation");
  vs_check_eq((n + 1) * var(n + 1, S1 + x, S2 + x * x), n * var(n, S1, S2) + (x - m) * (x - m) * n / (n + 1), "variance.recurrence");
  vs_cover("end");
}
