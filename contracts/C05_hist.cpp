// flags: -DBOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
// C05: covariance over the public interface
#include "hutil.hpp"
#define MAXN 300
typedef tag::covariate1 C1;
typedef std::vector<double> V;
static double dev(double const* x, double const* y, long n) {
  double mx = 0, my = 0, r = 0; for (long i = 0; i < n; ++i) { mx += x[i]; my += y[i]; } mx = mx / n; my = my / n;
  for (long i = 0; i < n; ++i) r += (x[i] - mx) * (y[i] - my);
  return r / n;
}
template<class T, class A> static void scalar(A& a) {
  long n = vs_len("n", 1, 4, 120); if (n > MAXN) n = MAXN; double x[MAXN], y[MAXN]; int alt = vs_choose("alt", 2); T c = scale<T>();
  for (long i = 0; i < n; ++i) {
    T s = in<T>("x") * c, t = in<T>("y") * c; x[i] = s; y[i] = t;
    if (alt) a(covariate1 = t, sample = s); else a(s, covariate1 = t);
    vs_check_eq(covariance(a) / c / c, dev(x, y, i + 1) / c / c, "covariance");
  }
  vs_cover("end");
}
OB(hist_double) { accumulator_set<double, stats<tag::covariance<double, C1> > > a; scalar<double>(a); }
OB(hist_imm) { accumulator_set<double, stats<tag::covariance<double, C1>, tag::immediate_mean_of_variates<double, C1>, tag::immediate_mean> > a; scalar<double>(a); }
OB(hist_int) { accumulator_set<int, stats<tag::covariance<int, C1> > > a; scalar<int>(a); }
OB(hist_vector_variate) {
  V z(2); accumulator_set<double, stats<tag::covariance<V, C1> > > a(covariate1 = z);
  long n = vs_len("n", 1, 3, 60); if (n > MAXN) n = MAXN; double x[MAXN], y[2][MAXN];
  for (long i = 0; i < n; ++i) {
    V t(2); x[i] = vs_real("x"); y[0][i] = t[0] = vs_real("y"); y[1][i] = t[1] = vs_real("y"); a(x[i], covariate1 = t);
    for (int k = 0; k < 2; ++k) vs_check_eq(covariance(a)[k], dev(x, y[k], i + 1), "covariance.component");
  }
  vs_cover("end");
}
OB(hist_vector_sample) {
  V z(2); accumulator_set<V, stats<tag::covariance<double, C1> > > a(sample = z);
  long n = vs_len("n", 1, 3, 60); if (n > MAXN) n = MAXN; double x[MAXN], y[2][MAXN];
  for (long i = 0; i < n; ++i) {
    V t(2); x[i] = vs_real("x"); y[0][i] = t[0] = vs_real("y"); y[1][i] = t[1] = vs_real("y"); a(t, covariate1 = x[i]);
    for (int k = 0; k < 2; ++k) vs_check_eq(covariance(a)[k], dev(x, y[k], i + 1), "covariance.component");
  }
  vs_cover("end");
}
// matrix: entry (i,j) belongs to variate component i and sample component j; dimensions may differ
OB(hist_vector_vector) {
  V z(2), w(3); accumulator_set<V, stats<tag::covariance<V, C1> > > a(sample = z, covariate1 = w);
  long n = vs_len("n", 1, 2, 40); if (n > MAXN) n = MAXN; double x[2][MAXN], y[3][MAXN];
  for (long i = 0; i < n; ++i) {
    V s(2), t(3); for (int k = 0; k < 2; ++k) x[k][i] = s[k] = vs_real("x"); for (int k = 0; k < 3; ++k) y[k][i] = t[k] = vs_real("y");
    a(s, covariate1 = t);
  }
  for (int k = 0; k < 3; ++k) for (int j = 0; j < 2; ++j) vs_check_eq(covariance(a)(k, j), dev(x[j], y[k], n), "covariance.matrix");
  vs_cover("end");
}
