// C02: means and raw moments, public interface, every prefix of bounded histories
#include "hutil.hpp"
typedef tag::covariate1 C1;
template<class T, class A> static void means(A& acc, int hi) {
  long n = vs_len("n", 1, hi, 400); double s = 0;
  for (long i = 0; i < n; ++i) {
    T x = in<T>("x"); acc(x); s += (double)x;
    vs_check_eq(mean(acc), s / (i + 1), "mean");
    if (vs_native() == 0 || i % 7 == 0) vs_check_eq(mean(acc), s / (i + 1), "mean.again");
  }
  vs_check_eq(mean(acc), s / n, "mean.end");
  vs_cover("end");
}
OB(hist_mean_lazy) { accumulator_set<double, stats<tag::mean> > a; means<double>(a, 4); }
OB(hist_mean_immediate) { accumulator_set<double, stats<tag::mean(immediate)> > a; means<double>(a, 4); }
OB(hist_mean_lazy_int) { accumulator_set<int, stats<tag::mean(lazy)> > a; means<int>(a, 3); }
OB(hist_mean_immediate_int) { accumulator_set<int, stats<tag::mean(immediate)> > a; means<int>(a, 3); }
OB(hist_mean_long) { accumulator_set<long, stats<tag::mean, tag::immediate_mean> > a; means<long>(a, 3); }
template<class M> static void variates() {
  accumulator_set<double, stats<M, tag::count> > acc;
  long n = vs_len("n", 1, 3, 200); double s = 0;
  for (long i = 0; i < n; ++i) {
    double x = vs_real("x"), y = vs_real("y"); acc(x, covariate1 = y); s += y;
    vs_check_eq((mean_of_variates<double, C1>(acc)), s / (i + 1), "mean_of_variates");
  }
  vs_cover("end");
}
OB(hist_variates_lazy) { variates<tag::mean_of_variates<double, C1> >(); }
OB(hist_variates_immediate) { variates<tag::immediate_mean_of_variates<double, C1> >(); }
OB(hist_weights) {
  accumulator_set<double, stats<tag::mean_of_weights, tag::count>, double> a; accumulator_set<double, stats<tag::mean_of_weights(immediate), tag::count>, double> b;
  long n = vs_len("n", 1, 3, 200); double s = 0;
  for (long i = 0; i < n; ++i) {
    double x = vs_real("x"), w = vs_real("w"); a(x, weight = w); b(x, weight = w); s += w;
    vs_check_eq(mean_of_weights(a), s / (i + 1), "mean_of_weights"); vs_check_eq(mean_of_weights(b), s / (i + 1), "mean_of_weights.immediate");
  }
  vs_cover("end");
}
OB(hist_moments) {
  accumulator_set<double, stats<tag::moment<5>, tag::moment<2>, tag::moment<3>, tag::moment<4>, tag::moment<1>, tag::moment<6> > > acc;
  long n = vs_len("n", 1, 3, 60); double p[7] = {0, 0, 0, 0, 0, 0, 0};
  for (long i = 0; i < n; ++i) {
    double x = vs_real("x"), y = 1; acc(x);
    for (int k = 1; k <= 6; ++k) { y = y * x; p[k] += y; }
    vs_check_eq(moment<1>(acc), p[1] / (i + 1), "moment1"); vs_check_eq(moment<2>(acc), p[2] / (i + 1), "moment2");
    vs_check_eq(moment<3>(acc), p[3] / (i + 1), "moment3"); vs_check_eq(moment<4>(acc), p[4] / (i + 1), "moment4");
    vs_check_eq(moment<5>(acc), p[5] / (i + 1), "moment5"); vs_check_eq(moment<6>(acc), p[6] / (i + 1), "moment6");
  }
  vs_cover("end");
}
OB(hist_moments_high) { // exponents with every pattern of binary digits
  accumulator_set<double, stats<tag::moment<7>, tag::moment<8>, tag::moment<9>, tag::moment<11>, tag::moment<13> > > acc;
  long n = vs_len("n", 1, 2, 20); double p[14] = {};
  for (long i = 0; i < n; ++i) {
    double x = vs_real("x"), y = 1; acc(x); for (int k = 1; k <= 13; ++k) { y = y * x; p[k] += y; }
    vs_check_eq(moment<7>(acc), p[7] / (i + 1), "moment7"); vs_check_eq(moment<8>(acc), p[8] / (i + 1), "moment8"); vs_check_eq(moment<9>(acc), p[9] / (i + 1), "moment9");
    vs_check_eq(moment<11>(acc), p[11] / (i + 1), "moment11"); vs_check_eq(moment<13>(acc), p[13] / (i + 1), "moment13");
  }
  vs_cover("end");
}
OB(hist_moment_int) {
  accumulator_set<int, stats<tag::moment<2>, tag::moment<3> > > acc;
  long n = vs_len("n", 1, 3, 40); double p = 0, q = 0;
  for (long i = 0; i < n; ++i) {
    int x = (int)vs_int("x", -100, 100); acc(x); p += (double)x * x; q += (double)x * x * x;
    vs_check_eq(moment<2>(acc), p / (i + 1), "moment2"); vs_check_eq(moment<3>(acc), q / (i + 1), "moment3");
  }
  vs_cover("end");
}
