// C01: count / sum / min / max over the public interface only (bounded histories)
#include "hutil.hpp"
template<class T, class Acc> static void hist(Acc& acc, int hi_) {
  long n = vs_len("n", 0, hi_, 3000);
  double s = 0; T mn = T(), mx = T();
  for (long i = 0; i < n; ++i) {
    T x = in<T>("x");
    acc(x);
    s += (double)x; if (i == 0 || x < mn) mn = x; if (i == 0 || mx < x) mx = x;
    vs_check_ieq((long)count(acc), i + 1, "count");
    vs_check_eq((double)sum(acc), s, "sum");
    vs_check_eq((double)(min)(acc), (double)mn, "min");
    vs_check_eq((double)(max)(acc), (double)mx, "max");
  }
  vs_check_ieq((long)count(acc), n, "count.end");
  vs_check_eq((double)sum(acc), s, "sum.end");
  vs_cover("end");
}
OB(hist_double) { accumulator_set<double, stats<tag::count, tag::sum, tag::min, tag::max> > a; hist<double>(a, 4); }
OB(hist_int) { accumulator_set<int, stats<tag::max, tag::min, tag::sum, tag::count> > a; hist<int>(a, 3); }
OB(hist_float) { vs_flag("nornd", 1); accumulator_set<float, features<tag::sum, tag::max, tag::count, tag::min> > a; hist<float>(a, 3); }
OB(hist_long) { accumulator_set<long, stats<tag::max, tag::min, tag::sum, tag::count> > a; hist<long>(a, 3); }
OB(hist_var) {
  accumulator_set<double, stats<tag::sum_of_weights, tag::sum_of_variates<double, tag::covariate1>, tag::count, tag::min>, double> acc;
  typedef tag::sum_of_variates<double, tag::covariate1> V1;
  long n = vs_len("n", 0, 3, 200); double W = 0, A = 0;
  for (long i = 0; i < n; ++i) {
    double x = vs_real("x"), w = vs_real("w"), y = vs_real("y");
    acc(x, weight = w, covariate1 = y); W += w; A += y;
    vs_check_eq(sum_of_weights(acc), W, "sum_of_weights"); vs_check_eq(extractor<V1>()(acc), A, "sum_of_variates"); vs_check_ieq(count(acc), i + 1, "count");
  }
  vs_check_eq(sum_of_weights(acc), W, "sum_of_weights.end");
  vs_cover("end");
}
