// One step of the component-wise relation: vector set <-> one scalar set per component (pair).
#include "hvec.hpp"
template<class V, class Y, class W, class... T> static void vw() {
  vs_flag("uf", 1); typedef typename elem<V>::type v; typedef typename elem<Y>::type y; const bool wt = !std::is_void<W>::value; typedef std::conditional_t<wt, W, double> Q; const int D = 2;
  typedef accumulator_set<V, features<T...>, W> VS; typedef accumulator_set<v, features<typename scal<T>::type...>, W> SS; V z = zeros<V>(D); Y zy = zeros<Y>(D); VS s(sample = z, covariate1 = zy); SS c[D][D];
  for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) same_component(s, c[i][j], i, j, "initial-state-adopts-dimension");
  bool first = vs_choose("state", 2) == 0; if (!first) { havoc_vec(s); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) to_scalar(s, c[i][j], i, j); }
  V x = draw<V>("x", D); Y yy = draw<Y>("y", D); Q q = in<Q>("w");
  push<wt>(s, x, yy, q); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { push<wt>(c[i][j], (v)x[i], (y)yy[j], q); same_component(s, c[i][j], i, j, "update-component-wise"); (vs_check_bits(comp(extract_result<T>(s), idx<T>::of(i, j), i), (double)extract_result<typename scal<T>::type>(c[i][j]), "result-component-wise"), ...); }
  vs_cover("end");
}
template<class V, class... T> static void vl() { vw<V, V, void, T...>(); }
template<class V, class W, class... T> static void wl() { vw<V, V, W, T...>(); }
#define COV(Y) tag::covariance<Y, tag::covariate1>
#define MOV(Y) tag::mean_of_variates<Y, tag::covariate1>
