// C04: skewness, kurtosis, error of the mean from the ghost power sums P1..P4 and n
#include "hutil.hpp"
struct G { long n; double p1, p2, p3, p4, x; };
static G ghost() { G g; g.n = vs_int("n", 0, CNT_MAX); g.p1 = vs_real("P1"); g.p2 = vs_real("P2"); g.p3 = vs_real("P3"); g.p4 = vs_real("P4"); g.x = vs_real("x"); return g; }
static void adv(G& g) { double x = g.x; g.n += 1; g.p1 += x; g.p2 += x * x; g.p3 += x * x * x; g.p4 += x * x * x * x; }
// central moments (1/n) sum (x-m)^k from power sums
static double c2(G const& g) { double m = g.p1 / g.n; return g.p2 / g.n - m * m; }
static double c3(G const& g) { double m = g.p1 / g.n; return (g.p3 - 3 * m * g.p2 + 3 * m * m * g.p1) / g.n - m * m * m; }
static double c4(G const& g) { double m = g.p1 / g.n; return (g.p4 - 4 * m * g.p3 + 6 * m * m * g.p2 - 4 * m * m * m * g.p1) / g.n + m * m * m * m; }
template<class Acc> static void set_common(Acc& a, G const& g) { st<tag::count>(a).cnt = g.n; st<tag::moment<2> >(a).sum = g.p2; st<tag::moment<3> >(a).sum = g.p3; }
OB(step_skewness) {
  accumulator_set<double, stats<tag::skewness> > a; G g = ghost();
  set_common(a, g); st<tag::sum>(a).sum = g.p1;
  a(g.x); adv(g);
  vs_assume_lt(0., c2(g));
  vs_check_eq(skewness(a), c3(g) / (c2(g) * std::sqrt(c2(g))), "skewness.post");
  vs_check_eq(skewness(a), c3(g) / (c2(g) * std::sqrt(c2(g))), "skewness.pure");
  vs_cover("end");
}
OB(step_kurtosis) {
  accumulator_set<double, stats<tag::kurtosis> > a; G g = ghost();
  set_common(a, g); st<tag::sum>(a).sum = g.p1; st<tag::moment<4> >(a).sum = g.p4;
  a(g.x); adv(g);
  vs_assume_lt(0., c2(g));
  vs_check_eq(kurtosis(a), c4(g) / (c2(g) * c2(g)) - 3, "kurtosis.post");
  vs_check_eq(kurtosis(a), c4(g) / (c2(g) * c2(g)) - 3, "kurtosis.pure");
  vs_cover("end");
}
// on top of an immediate mean
OB(step_skew_kurt_immediate_mean) {
  accumulator_set<double, stats<tag::mean(immediate), tag::skewness, tag::kurtosis> > a; G g = ghost();
  if (g.n == 0) g.p1 = 0;
  set_common(a, g); st<tag::immediate_mean>(a).mean = g.n ? g.p1 / g.n : 0.; st<tag::moment<4> >(a).sum = g.p4;
  a(g.x); adv(g);
  vs_assume_lt(0., c2(g));
  vs_check_eq(skewness(a), c3(g) / (c2(g) * std::sqrt(c2(g))), "skewness.post");
  vs_check_eq(kurtosis(a), c4(g) / (c2(g) * c2(g)) - 3, "kurtosis.post");
  vs_cover("end");
}
OB(step_skew_kurt_int) {
  accumulator_set<int, stats<tag::skewness, tag::kurtosis> > a;
  G g; g.n = vs_int("n", 0, CNT_MAX); int p1 = in<int>("P1"), p2 = in<int>("P2"), p3 = in<int>("P3"), p4 = in<int>("P4"), x = (int)vs_int("x", -100, 100);
  g.p1 = p1; g.p2 = p2; g.p3 = p3; g.p4 = p4; g.x = x;
  st<tag::count>(a).cnt = g.n; st<tag::moment<2> >(a).sum = p2; st<tag::moment<3> >(a).sum = p3; st<tag::moment<4> >(a).sum = p4; st<tag::sum>(a).sum = p1;
  a(x); adv(g);
  vs_assume_lt(0., c2(g));
  vs_check_eq(skewness(a), c3(g) / (c2(g) * std::sqrt(c2(g))), "skewness.post");
  vs_check_eq(kurtosis(a), c4(g) / (c2(g) * c2(g)) - 3, "kurtosis.post");
  vs_cover("end");
}
OB(step_error_of_mean_lazy) {
  accumulator_set<double, stats<tag::error_of<tag::mean> > > a; G g = ghost();
  st<tag::count>(a).cnt = g.n; st<tag::moment<2> >(a).sum = g.p2; st<tag::sum>(a).sum = g.p1;
  a(g.x); adv(g);
  vs_assume(g.n >= 2); vs_assume_le(0., c2(g));
  vs_check_eq(error_of<tag::mean>(a), std::sqrt(c2(g) / (g.n - 1)), "error_of_mean.post");
  vs_cover("end");
}
OB(step_error_of_mean_immediate) {
  accumulator_set<double, stats<tag::error_of<tag::mean(immediate)> > > a; G g = ghost();
  if (g.n == 0) g.p1 = g.p2 = 0;
  if (g.n == 1) g.p2 = g.p1 * g.p1;
  st<tag::count>(a).cnt = g.n; st<tag::immediate_mean>(a).mean = g.n ? g.p1 / g.n : 0.; st<tag::variance>(a).variance = g.n ? c2(g) : 0.;
  a(g.x); adv(g);
  vs_assume(g.n >= 2); vs_assume_le(0., c2(g));
  vs_check_eq(error_of<tag::mean(immediate)>(a), std::sqrt(c2(g) / (g.n - 1)), "error_of_immediate_mean.post");
  vs_cover("end");
}
OB(base_all) {
  accumulator_set<double, stats<tag::skewness, tag::kurtosis, tag::error_of<tag::mean> > > a;
  double x = vs_real("x"), y = vs_real("y"), z = vs_real("z"); a(x); a(y); a(z);
  G g; g.n = 3; g.p1 = x + y + z; g.p2 = x * x + y * y + z * z; g.p3 = x * x * x + y * y * y + z * z * z; g.p4 = x * x * x * x + y * y * y * y + z * z * z * z;
  vs_assume_lt(0., c2(g));
  vs_check_eq(skewness(a), c3(g) / (c2(g) * std::sqrt(c2(g))), "skewness.first");
  vs_check_eq(kurtosis(a), c4(g) / (c2(g) * c2(g)) - 3, "kurtosis.first");
  vs_check_eq(error_of<tag::mean>(a), std::sqrt(c2(g) / 2), "error_of_mean.first");
  vs_cover("end");
}
