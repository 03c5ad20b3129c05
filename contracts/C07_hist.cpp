// C07: bit-exact Kahan recurrence over the public interface
#include "hutil.hpp"
typedef tag::covariate1 C1;
struct Kh { double s, c; Kh() : s(0), c(0) {} void add(double v) { double y = v - c; double t = s + y; c = (t - s) - y; s = t; } };
static double big(double x, int k) { return vs_native() ? (k % 3 == 0 ? x * 1e8 : k % 3 == 1 ? x * 1e-9 : x) : x; }
OB(hist_sum) {
  vs_flag("uf", 1);
  accumulator_set<double, stats<tag::sum_kahan> > a; accumulator_set<double, stats<tag::sum(kahan), tag::count> > b; Kh k;
  long n = vs_len("n", 1, 4, 300);
  for (long i = 0; i < n; ++i) { double x = big(vs_real("x"), i); a(x); b(x); k.add(x); vs_check_bits(sum_kahan(a), k.s, "sum_kahan"); vs_check_bits(sum(b), k.s, "sum(kahan)"); }
  vs_cover("end");
}
OB(hist_weighted) {
  vs_flag("uf", 1);
  accumulator_set<double, stats<tag::weighted_sum_kahan, tag::sum_of_weights_kahan>, double> a; Kh k, kw;
  long n = vs_len("n", 1, 3, 300);
  for (long i = 0; i < n; ++i) { double x = big(vs_real("x"), i), w = vs_real("w"); a(x, weight = w); k.add(x * w); kw.add(w); vs_check_bits(weighted_sum_kahan(a), k.s, "weighted_sum_kahan"); vs_check_bits(sum_of_weights_kahan(a), kw.s, "sum_of_weights_kahan"); }
  vs_cover("end");
}
OB(hist_variates) {
  vs_flag("uf", 1);
  accumulator_set<double, stats<tag::sum_of_variates_kahan<double, C1> > > a; accumulator_set<double, stats<tag::weighted_sum_of_variates_kahan<double, C1> >, double> b; Kh k, kw;
  long n = vs_len("n", 1, 3, 300);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"), v = big(vs_real("v"), i), w = vs_real("w"); a(x, covariate1 = v); b(x, covariate1 = v, weight = w); k.add(v); kw.add(v * w); vs_check_bits(sum_of_variates_kahan(a), k.s, "sum_of_variates_kahan"); vs_check_bits(weighted_sum_of_variates_kahan(b), kw.s, "weighted_sum_of_variates_kahan"); }
  vs_cover("end");
}
