// C02: mean and raw moments: inductive contracts.  Ghosts: n samples, S = sum, Pk = sum of k-th powers.
#include "hutil.hpp"
typedef tag::covariate1 C1;
// invariant: immediate mean == S/n (0 before the first sample)
OB(step_immediate_mean) {
  accumulator_set<double, stats<tag::immediate_mean> > acc;
  long n = vs_int("n", 0, CNT_MAX); double S = vs_real("S"), x = vs_real("x");
  if (n == 0) S = 0;
  st<tag::count>(acc).cnt = n; st<tag::immediate_mean>(acc).mean = n == 0 ? 0. : S / n;
  acc(x);
  vs_check_eq(mean(acc), (S + x) / (n + 1), "immediate_mean.post");
  vs_check_eq(mean(acc), (S + x) / (n + 1), "immediate_mean.pure");
  vs_check_ieq((long)count(acc), n + 1, "count.post");
  vs_cover("end");
}
OB(base_immediate_mean) {
  accumulator_set<double, stats<tag::immediate_mean> > acc;
  vs_check_eq(mean(acc), 0, "immediate_mean.init"); vs_check_ieq((long)count(acc), 0, "count.init");
  double x = vs_real("x"); acc(x); vs_check_eq(mean(acc), x, "immediate_mean.first");
  vs_cover("end");
}
OB(step_immediate_mean_int) {
  accumulator_set<int, stats<tag::immediate_mean> > acc;
  long n = vs_int("n", 0, CNT_MAX); double S = vs_real("S"); int x = in<int>("x");
  if (n == 0) S = 0;
  st<tag::count>(acc).cnt = n; st<tag::immediate_mean>(acc).mean = n == 0 ? 0. : S / n;
  acc(x);
  vs_check_eq(mean(acc), (S + x) / (n + 1), "immediate_mean.post");
  vs_cover("end");
}
// lazy mean: state is (count, sum)
OB(step_mean) {
  accumulator_set<double, stats<tag::mean> > acc;
  long n = vs_int("n", 0, CNT_MAX); double S = vs_real("S"), x = vs_real("x");
  st<tag::count>(acc).cnt = n; st<tag::sum>(acc).sum = S;
  acc(x);
  vs_check_eq(mean(acc), (S + x) / (n + 1), "mean.post"); vs_check_eq(mean(acc), (S + x) / (n + 1), "mean.pure");
  vs_check_eq(sum(acc), S + x, "sum.post"); vs_check_ieq((long)count(acc), n + 1, "count.post");
  vs_cover("end");
}
OB(base_mean) {
  accumulator_set<double, stats<tag::mean> > acc;
  vs_check_ieq((long)count(acc), 0, "count.init"); vs_check_eq(sum(acc), 0, "sum.init");
  double x = vs_real("x"); acc(x); vs_check_eq(mean(acc), x, "mean.first");
  vs_cover("end");
}
OB(step_mean_int) {
  accumulator_set<int, stats<tag::mean> > acc;
  long n = vs_int("n", 0, CNT_MAX); int S = (int)vs_int("S", -2000000000, 2000000000), x = in<int>("x");
  st<tag::count>(acc).cnt = n; st<tag::sum>(acc).sum = S;
  acc(x);
  vs_check_eq(mean(acc), ((double)S + x) / (n + 1), "mean.post");
  vs_cover("end");
}
// means of variates and of weights
OB(step_mean_of_variates) {
  accumulator_set<double, stats<tag::mean_of_variates<double, C1>, tag::mean, tag::mean_of_weights>, double> acc;
  typedef tag::mean_of_variates<double, C1> MV;
  vs_cover("end");
  long n = vs_int("n", 0, CNT_MAX); double W = vs_real("W"), x = vs_real("x"), y = vs_real("y"), w = vs_real("w");
  st<tag::count>(acc).cnt = n; st<tag::sum_of_weights>(acc).sum = W;
  acc(x, weight = w, covariate1 = y);
  vs_check_eq(mean_of_weights(acc), (W + w) / (n + 1), "mean_of_weights.post");
  vs_check_ieq((long)count(acc), n + 1, "count.post");
}
OB(step_mean_of_variates_u) {
  typedef tag::mean_of_variates<double, C1> MV; typedef tag::sum_of_variates<double, C1> SV;
  accumulator_set<double, stats<MV, tag::mean> > acc;
  long n = vs_int("n", 0, CNT_MAX); double S = vs_real("S"), V = vs_real("V"), x = vs_real("x"), y = vs_real("y");
  st<tag::count>(acc).cnt = n; st<tag::sum>(acc).sum = S; st<SV>(acc).sum = V;
  acc(x, covariate1 = y);
  vs_check_eq((mean_of_variates<double, C1>(acc)), (V + y) / (n + 1), "mean_of_variates.post");
  vs_check_eq(mean(acc), (S + x) / (n + 1), "mean.post");
  vs_cover("end");
}
OB(step_immediate_mean_of_variates) {
  typedef tag::immediate_mean_of_variates<double, C1> MV;
  accumulator_set<double, stats<MV, tag::immediate_mean> > acc;
  long n = vs_int("n", 0, CNT_MAX); double S = vs_real("S"), V = vs_real("V"), x = vs_real("x"), y = vs_real("y");
  if (n == 0) S = V = 0;
  st<tag::count>(acc).cnt = n; st<tag::immediate_mean>(acc).mean = n ? S / n : 0.; st<MV>(acc).mean = n ? V / n : 0.;
  acc(x, covariate1 = y);
  vs_check_eq((mean_of_variates<double, C1>(acc)), (V + y) / (n + 1), "immediate_mean_of_variates.post");
  vs_check_eq(mean(acc), (S + x) / (n + 1), "immediate_mean.post");
  vs_cover("end");
}
OB(step_immediate_mean_of_weights) {
  accumulator_set<double, stats<tag::mean_of_weights(immediate)>, double> acc;
  long n = vs_int("n", 0, CNT_MAX); double W = vs_real("W"), x = vs_real("x"), w = vs_real("w");
  if (n == 0) W = 0;
  st<tag::count>(acc).cnt = n; st<tag::immediate_mean_of_weights>(acc).mean = n ? W / n : 0.;
  acc(x, weight = w);
  vs_check_eq(mean_of_weights(acc), (W + w) / (n + 1), "immediate_mean_of_weights.post");
  vs_cover("end");
}
static double ipow(double x, int k) { double r = x; for (int i = 1; i < k; ++i) r = r * x; return r; }
template<int K> static void moment_step() {
  accumulator_set<double, stats<tag::moment<K> > > acc;
  long n = vs_int("n", 0, CNT_MAX); double P = vs_real("P"), x = vs_real("x");
  st<tag::count>(acc).cnt = n; st<tag::moment<K> >(acc).sum = P;
  acc(x);
  vs_check_eq(moment<K>(acc), (P + ipow(x, K)) / (n + 1), "moment.post");
  vs_check_eq(moment<K>(acc), (P + ipow(x, K)) / (n + 1), "moment.pure");
  vs_cover("end");
}
OB(step_moment1) { moment_step<1>(); }
OB(step_moment2) { moment_step<2>(); }
OB(step_moment3) { moment_step<3>(); }
OB(step_moment4) { moment_step<4>(); }
OB(step_moment5) { moment_step<5>(); }
OB(step_moment6) { moment_step<6>(); }
OB(step_moment7) { moment_step<7>(); }
OB(step_moment8) { moment_step<8>(); }
OB(step_moment9) { moment_step<9>(); }
OB(step_moment10) { moment_step<10>(); }
OB(step_moment11) { moment_step<11>(); }
OB(step_moment12) { moment_step<12>(); }
OB(step_moment13) { moment_step<13>(); }
OB(step_moment14) { moment_step<14>(); }
OB(step_moment15) { moment_step<15>(); }
OB(step_moment16) { moment_step<16>(); }
OB(step_moment17) { moment_step<17>(); }
OB(step_moment31) { moment_step<31>(); }
OB(step_moment32) { moment_step<32>(); }
OB(step_moment33) { moment_step<33>(); }
OB(base_moments) {
  accumulator_set<double, stats<tag::moment<1>, tag::moment<2>, tag::moment<3>, tag::moment<7> > > acc;
  double x = vs_real("x"); acc(x);
  vs_check_eq(moment<1>(acc), x, "moment1.first"); vs_check_eq(moment<2>(acc), x * x, "moment2.first");
  vs_check_eq(moment<3>(acc), x * x * x, "moment3.first"); vs_check_eq(moment<7>(acc), ipow(x, 7), "moment7.first");
  vs_cover("end");
}
OB(step_moment_int) {
  accumulator_set<int, stats<tag::moment<2>, tag::moment<3> > > acc;
  long n = vs_int("n", 0, CNT_MAX); int P = (int)vs_int("P", 0, 2000000000), Q = (int)vs_int("Q", -1000000000, 1000000000), x = (int)vs_int("x", -1000, 1000);
  st<tag::count>(acc).cnt = n; st<tag::moment<2> >(acc).sum = P; st<tag::moment<3> >(acc).sum = Q;
  acc(x); double d = x;
  vs_check_eq(moment<2>(acc), (P + d * d) / (n + 1), "moment2.post");
  vs_check_eq(moment<3>(acc), (Q + d * d * d) / (n + 1), "moment3.post");
  vs_cover("end");
}
