// flags: -DBOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
// C05: covariance.  Ghosts n, X = sum x, Y = sum y, P = sum x y.   cov(n) = P/n - (X/n)(Y/n)
#include "hutil.hpp"
typedef tag::covariate1 C1;
static double cov(double n, double X, double Y, double P) { return P / n - (X / n) * (Y / n); }
OB(step_covariance) {
  typedef tag::covariance<double, C1> F; typedef tag::sum_of_variates<double, C1> SV;
  accumulator_set<double, stats<F> > a;
  long n = vs_int("n", 0, CNT_MAX); double X = vs_real("X"), Y = vs_real("Y"), P = vs_real("P"), x = vs_real("x"), y = vs_real("y");
  if (n == 0) X = Y = P = 0;
  if (n == 1) P = X * Y;
  st<tag::count>(a).cnt = n; st<tag::sum>(a).sum = X; st<SV>(a).sum = Y; st<F>(a).cov_ = n ? cov(n, X, Y, P) : 0.;
  a(x, covariate1 = y);
  vs_check_eq(covariance(a), cov(n + 1, X + x, Y + y, P + x * y), "covariance.post");
  vs_check_eq(mean(a), (X + x) / (n + 1), "mean.post");
  vs_check_eq((mean_of_variates<double, C1>(a)), (Y + y) / (n + 1), "mean_of_variates.post");
  vs_check_eq(covariance(a), cov(n + 1, X + x, Y + y, P + x * y), "covariance.pure");
  vs_cover("end");
}
OB(step_covariance_int) {
  typedef tag::covariance<int, C1> F; typedef tag::sum_of_variates<int, C1> SV;
  accumulator_set<int, stats<F> > a;
  long n = vs_int("n", 2, CNT_MAX); int X = in<int>("X"), Y = in<int>("Y"), x = in<int>("x"), y = in<int>("y"); double P = vs_real("P");
  st<tag::count>(a).cnt = n; st<tag::sum>(a).sum = X; st<SV>(a).sum = Y; st<F>(a).cov_ = cov(n, X, Y, P);
  a(x, covariate1 = y);
  vs_check_eq(covariance(a), cov(n + 1, (double)X + x, (double)Y + y, P + (double)x * y), "covariance.post");
  vs_cover("end");
}
// with an immediate mean in the set
OB(step_covariance_immediate_mean) {
  typedef tag::covariance<double, C1> F; typedef tag::sum_of_variates<double, C1> SV;
  accumulator_set<double, stats<tag::mean(immediate), F> > a;
  long n = vs_int("n", 2, CNT_MAX); double X = vs_real("X"), Y = vs_real("Y"), P = vs_real("P"), x = vs_real("x"), y = vs_real("y");
  st<tag::count>(a).cnt = n; st<tag::immediate_mean>(a).mean = X / n; st<SV>(a).sum = Y; st<F>(a).cov_ = cov(n, X, Y, P);
  a(x, covariate1 = y);
  vs_check_eq(covariance(a), cov(n + 1, X + x, Y + y, P + x * y), "covariance.post");
  vs_cover("end");
}
OB(base_covariance) {
  accumulator_set<double, stats<tag::covariance<double, C1> > > a;
  vs_check_eq(covariance(a), 0, "covariance.init"); vs_check_ieq((long)count(a), 0, "count.init");
  double x = vs_real("x"), y = vs_real("y"), x2 = vs_real("x"), y2 = vs_real("y");
  a(x, covariate1 = y); vs_check_eq(covariance(a), 0, "covariance.first");
  a(covariate1 = y2, sample = x2); vs_check_eq(covariance(a), (x - x2) * (y - y2) / 4, "covariance.second");
  vs_cover("end");
}
// vector-valued variate: component by component
OB(step_covariance_vector) {
  typedef std::vector<double> V; typedef tag::covariance<V, C1> F; typedef tag::sum_of_variates<V, C1> SV;
  V z(2); accumulator_set<double, stats<F> > a(covariate1 = z);
  long n = vs_int("n", 2, CNT_MAX); double X = vs_real("X"), x = vs_real("x"); double Y[2], P[2]; V y(2);
  st<tag::count>(a).cnt = n; st<tag::sum>(a).sum = X;
  for (int i = 0; i < 2; ++i) { Y[i] = vs_real("Y"); P[i] = vs_real("P"); y[i] = vs_real("y"); st<SV>(a).sum[i] = Y[i]; st<F>(a).cov_[i] = cov(n, X, Y[i], P[i]); }
  a(x, covariate1 = y);
  V r = covariance(a);
  vs_check_ieq((long)r.size(), 2, "covariance.dimension");
  for (int i = 0; i < 2; ++i) vs_check_eq(r[i], cov(n + 1, X + x, Y[i] + y[i], P[i] + x * y[i]), "covariance.post");
  vs_cover("end");
}
OB(lem_deviation) {
  long n = vs_int("n", 1, CNT_MAX); double X = vs_real("X"), Y = vs_real("Y"), P = vs_real("P");
  double mx = X / n, my = Y / n;
  vs_check_eq((P - mx * Y - my * X + n * mx * my) / n, cov(n, X, Y, P), "covariance.is-mean-product-of-deviations");
  vs_cover("end");
}
