// C01: count / sum / min / max: inductive contracts (any history length)
#include "hutil.hpp"
// requires: the accumulators hold n, S, lo, hi.   ensures: after one more sample x they hold
// n+1, S+x, min(lo,x), max(hi,x); nothing else.
template<class T> static void step_all() {
  accumulator_set<T, stats<tag::count, tag::sum, tag::min, tag::max> > acc;
  long n = vs_int("n", 0, CNT_MAX);
  T S = in<T>("S"), lo = in<T>("lo"), hi = in<T>("hi"), x = in<T>("x");
  st<tag::count>(acc).cnt = n; st<tag::sum>(acc).sum = S; st<tag::min>(acc).min_ = lo; st<tag::max>(acc).max_ = hi;
  acc(x);
  vs_check_ieq((long)count(acc), n + 1, "count.post");
  vs_check_eq((double)sum(acc), (double)S + (double)x, "sum.post");
  vs_check((min)(acc) == (x < lo ? x : lo), "min.post");
  vs_check((max)(acc) == (x > hi ? x : hi), "max.post");
  // extraction is stable
  vs_check_ieq((long)count(acc), n + 1, "count.pure");
  vs_check_eq((double)sum(acc), (double)S + (double)x, "sum.pure");
  vs_cover("end");
}
OB(step_double) { step_all<double>(); }
OB(step_int) { step_all<int>(); }
OB(step_long) { step_all<long>(); }
OB(step_unsigned) { step_all<unsigned>(); }
OB(step_float) { vs_flag("nornd", 1); step_all<float>(); }
OB(base_double) {
  accumulator_set<double, stats<tag::count, tag::sum, tag::min, tag::max> > acc;
  vs_check_ieq((long)count(acc), 0, "count.init"); vs_check_eq(sum(acc), 0, "sum.init");
  double x = vs_real("x"); acc(x);
  vs_check_ieq((long)count(acc), 1, "count.first"); vs_check_eq(sum(acc), x, "sum.first");
  vs_check_eq((min)(acc), x, "min.first"); vs_check_eq((max)(acc), x, "max.first");
  vs_cover("end");
}
OB(base_int) {
  accumulator_set<int, stats<tag::count, tag::sum, tag::min, tag::max> > acc;
  vs_check_ieq((long)count(acc), 0, "count.init"); vs_check_ieq(sum(acc), 0, "sum.init");
  int x = (int)vs_int("x", -2147483647L - 1, 2147483647L); acc(x);
  vs_check_ieq((long)count(acc), 1, "count.first"); vs_check_ieq(sum(acc), x, "sum.first");
  vs_check_ieq((min)(acc), x, "min.first"); vs_check_ieq((max)(acc), x, "max.first");
  vs_cover("end");
}
OB(base_unsigned) {
  accumulator_set<unsigned, stats<tag::count, tag::sum, tag::min, tag::max> > acc;
  unsigned x = (unsigned)vs_int("x", 0, 2147483647L); acc(x);
  vs_check_ieq(sum(acc), x, "sum.first");
  vs_check_ieq((min)(acc), x, "min.first"); vs_check_ieq((max)(acc), x, "max.first");
  vs_cover("end");
}
// sums of variates and of weights are independent of the samples and of each other
OB(step_variates_weights) {
  typedef tag::sum_of_variates<double, tag::covariate1> V1;
  accumulator_set<double, stats<tag::count, tag::sum_of_weights, V1, tag::min, tag::max>, double> acc;
  long n = vs_int("n", 0, CNT_MAX);
  double W = vs_real("W"), A = vs_real("A"), lo = vs_real("lo"), hi = vs_real("hi");
  st<tag::count>(acc).cnt = n; st<tag::sum_of_weights>(acc).sum = W; st<V1>(acc).sum = A;
  st<tag::min>(acc).min_ = lo; st<tag::max>(acc).max_ = hi;
  double x = vs_real("x"), w = vs_real("w"), y = vs_real("y");
  acc(x, weight = w, covariate1 = y);
  vs_check_ieq((long)count(acc), n + 1, "count.post");
  vs_check_eq(sum_of_weights(acc), W + w, "sum_of_weights.post");
  vs_check_eq(sum_of_variates(acc), A + y, "sum_of_variates.post");
  vs_check_eq((min)(acc), x < lo ? x : lo, "min.post");
  vs_check_eq((max)(acc), x > hi ? x : hi, "max.post");
  vs_cover("end");
}
