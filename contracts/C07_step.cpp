// C07: Kahan summation, bit-exact: in "uf" mode every floating-point + - * is uninterpreted
// (commutative), so equality means the same rounded operations on the same operands.
#include "hutil.hpp"
typedef tag::covariate1 C1;
#define KAHAN(s, c, v) double y_ = (v) - (c); double t_ = (s) + y_; double c_ = (t_ - (s)) - y_;
OB(step_sum_kahan) {
  vs_flag("uf", 1);
  accumulator_set<double, stats<tag::sum_kahan, tag::count> > a;
  double s = vs_real("s"), c = vs_real("c"), x = vs_real("x");
  st<tag::sum_kahan>(a).sum = s; st<tag::sum_kahan>(a).compensation = c;
  a(x);
  KAHAN(s, c, x)
  vs_check_bits(sum_kahan(a), t_, "sum_kahan.post"); vs_check_bits(st<tag::sum_kahan>(a).compensation, c_, "sum_kahan.compensation");
  vs_check_bits(sum_kahan(a), t_, "sum_kahan.pure");
  vs_cover("end");
}
OB(base_sum_kahan) {
  vs_flag("uf", 1);
  accumulator_set<double, stats<tag::sum_kahan> > a; accumulator_set<double, stats<tag::sum(kahan)> > b;
  vs_check_bits(sum_kahan(a), 0, "sum_kahan.init"); vs_check_bits(st<tag::sum_kahan>(a).compensation, 0, "compensation.init");
  double x = vs_real("x"); a(x); b(x);
  double t = 0. + x; vs_check_bits(sum_kahan(a), t, "sum_kahan.first"); vs_check_bits(sum(b), t, "sum(kahan).first");
  vs_cover("end");
}
OB(base_sum_kahan_initial) {
  vs_flag("uf", 1);
  double s0 = vs_real("s0"); accumulator_set<double, stats<tag::sum_kahan> > a(sample = s0);
  vs_check_bits(sum_kahan(a), s0, "sum_kahan.init"); vs_check_bits(st<tag::sum_kahan>(a).compensation, 0, "compensation.init");
  vs_cover("end");
}
OB(step_weights_kahan) {
  vs_flag("uf", 1);
  accumulator_set<double, stats<tag::sum_of_weights_kahan>, double> a;
  double s = vs_real("s"), c = vs_real("c"), x = vs_real("x"), w = vs_real("w");
  st<tag::sum_of_weights_kahan>(a).sum = s; st<tag::sum_of_weights_kahan>(a).compensation = c;
  a(x, weight = w);
  KAHAN(s, c, w)
  vs_check_bits(sum_of_weights_kahan(a), t_, "sum_of_weights_kahan.post"); vs_check_bits(st<tag::sum_of_weights_kahan>(a).compensation, c_, "compensation.post");
  vs_cover("end");
}
OB(step_variates_kahan) {
  vs_flag("uf", 1); typedef tag::sum_of_variates_kahan<double, C1> F;
  accumulator_set<double, stats<F> > a;
  double s = vs_real("s"), c = vs_real("c"), x = vs_real("x"), v = vs_real("v");
  st<F>(a).sum = s; st<F>(a).compensation = c;
  a(x, covariate1 = v);
  KAHAN(s, c, v)
  vs_check_bits(sum_of_variates_kahan(a), t_, "sum_of_variates_kahan.post"); vs_check_bits(st<F>(a).compensation, c_, "compensation.post");
  vs_cover("end");
}
OB(step_weighted_kahan) {
  vs_flag("uf", 1); typedef tag::weighted_sum_kahan F;
  accumulator_set<double, stats<F>, double> a;
  double s = vs_real("s"), c = vs_real("c"), x = vs_real("x"), w = vs_real("w");
  st<F>(a).weighted_sum_ = s; st<F>(a).compensation = c;
  a(x, weight = w);
  KAHAN(s, c, x * w)
  vs_check_bits(weighted_sum_kahan(a), t_, "weighted_sum_kahan.post"); vs_check_bits(st<F>(a).compensation, c_, "compensation.post");
  vs_cover("end");
}
OB(step_weighted_variates_kahan) {
  vs_flag("uf", 1); typedef tag::weighted_sum_of_variates_kahan<double, C1> F;
  accumulator_set<double, stats<F>, double> a;
  double s = vs_real("s"), c = vs_real("c"), x = vs_real("x"), w = vs_real("w"), v = vs_real("v");
  st<F>(a).weighted_sum_ = s; st<F>(a).compensation = c;
  a(x, weight = w, covariate1 = v);
  KAHAN(s, c, v * w)
  vs_check_bits(weighted_sum_of_variates_kahan(a), t_, "weighted_sum_of_variates_kahan.post"); vs_check_bits(st<F>(a).compensation, c_, "compensation.post");
  vs_cover("end");
}
OB(base_weighted_kahan) {
  vs_flag("uf", 1);
  accumulator_set<double, stats<tag::weighted_sum_kahan, tag::sum_of_weights_kahan>, double> a; accumulator_set<double, stats<tag::sum(kahan), tag::sum_of_weights_kahan>, double> b;
  vs_check_bits(weighted_sum_kahan(a), 0, "weighted_sum_kahan.init"); vs_check_bits(st<tag::weighted_sum_kahan>(a).compensation, 0, "compensation.init");
  vs_check_bits(st<tag::sum_of_weights_kahan>(a).compensation, 0, "compensation.init.weights");
  double x = vs_real("x"), w = vs_real("w"); a(x, weight = w); b(x, weight = w);
  vs_check_bits(weighted_sum_kahan(a), x * w, "weighted_sum_kahan.first"); vs_check_bits(sum(b), x * w, "sum(kahan).weighted.first"); vs_check_bits(sum_of_weights_kahan(a), w, "sum_of_weights_kahan.first");
  vs_cover("end");
}
// in exact arithmetic the compensation stays zero and the result is the plain sum
OB(step_exact) {
  accumulator_set<double, stats<tag::sum_kahan> > a; double s = vs_real("s"), x = vs_real("x");
  st<tag::sum_kahan>(a).sum = s; st<tag::sum_kahan>(a).compensation = 0;
  a(x);
  vs_check_eq(sum_kahan(a), s + x, "sum_kahan.exact"); vs_check_eq(st<tag::sum_kahan>(a).compensation, 0, "compensation.exact");
  vs_cover("end");
}
