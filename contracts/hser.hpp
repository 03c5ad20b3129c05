// Archives for C25.  Boost.Serialization's contract for arithmetic types, std::vector, boost::array, std::pair, nvp,
// array and binary wrappers is assumed: an object is read back by the same sequence of operations that wrote
// it (a block written by save_binary is read by one load_binary of the same size).  Everything else goes
// through the library's own serialize / save / load.
#ifndef HSER_HPP
#define HSER_HPP
#include "hcfg.hpp"
#include <valarray>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/array_wrapper.hpp>
#include <boost/serialization/binary_object.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/array.hpp>
#include <cstring>
struct log_t { double d[512]; long k[512]; double raw[512]; long chunk[16]; char kind[1024]; int nd, nk, nr, nc, n; log_t() : nd(0), nk(0), nr(0), nc(0), n(0) {} };
template<class D> struct arch {
  D& self() { return static_cast<D&>(*this); }
  template<class T> D& operator&(T& t) { self().go(const_cast<std::remove_const_t<T>&>(t)); return self(); }
  template<class T> D& operator&(T const& t) { self().go(const_cast<T&>(t)); return self(); }
  template<class T> D& operator<<(T const& t) { return *this & t; }
  template<class T> D& operator>>(T& t) { return *this & t; }
  template<class T> D& operator>>(T const& t) { return *this & t; }
  template<class T> auto go(T& t) -> std::enable_if_t<std::is_floating_point<T>::value> { double v = (double)t; self().f(v); t = (T)v; }
  template<class T> auto go(T& t) -> std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value> { long v = (long)t; self().i(v); t = (T)v; }
  template<class T> void go(std::vector<T>& v) { long n = (long)v.size(); self().i(n); v.resize(n); for (long i = 0; i < n; ++i) go(v[i]); }
  template<class T> void go(std::valarray<T>& v) { long n = (long)v.size(); self().i(n); if ((long)v.size() != n) v.resize(n); for (long i = 0; i < n; ++i) go(v[i]); }
  template<class T, std::size_t N> void go(boost::array<T, N>& v) { for (std::size_t i = 0; i < N; ++i) go(v[i]); }
  template<class T, std::size_t N> void go(T (&v)[N]) { for (std::size_t i = 0; i < N; ++i) go(v[i]); }
  template<class A, class B> void go(std::pair<A, B>& p) { go(p.first); go(p.second); }
  template<class T> void go(boost::serialization::nvp<T>& n) { go(n.value()); }
  template<class T> void go(boost::serialization::array_wrapper<T>& a) { for (std::size_t i = 0; i < a.count(); ++i) go(a.address()[i]); }
  void go(boost::serialization::binary_object& b) { self().bin((void*)b.m_t, b.m_size); }
  template<class T> auto go(T& t) -> std::enable_if_t<std::is_class<T>::value, decltype(t.serialize(self(), 0u), void())> { t.serialize(self(), 0u); }
  template<class T> void go(boost::circular_buffer<T>& b) { boost::serialization::serialize(self(), b, 0u); }
  template<class H> void register_type(H* = 0) {}
  unsigned get_library_version() const { return 19; }
};
struct sav : arch<sav> { typedef boost::mpl::bool_<true> is_saving; typedef boost::mpl::bool_<false> is_loading; log_t& l; sav(log_t& l) : l(l) {}
  void f(double v) { l.kind[l.n++] = 'f'; l.d[l.nd++] = v; } void i(long v) { l.kind[l.n++] = 'i'; l.k[l.nk++] = v; }
  void bin(void const* p, std::size_t n) { l.kind[l.n++] = 'b'; l.chunk[l.nc++] = (long)n; std::memcpy(&l.raw[l.nr], p, n); l.nr += (int)((n + 7) / 8); }
  void save_binary(void const* p, std::size_t n) { bin(p, n); } };
struct lod : arch<lod> { typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading; log_t& l; int nd, nk, nr, nc, n; lod(log_t& l) : l(l), nd(0), nk(0), nr(0), nc(0), n(0) {}
  void next(char c) { vs_check(n < l.n && l.kind[n] == c, "archive-read-in-the-order-written"); ++n; }
  void f(double& v) { next('f'); v = l.d[nd++]; } void i(long& v) { next('i'); v = l.k[nk++]; }
  void bin(void* p, std::size_t k) { next('b'); vs_check_ieq((long)k, l.chunk[nc++], "block-read-as-written"); std::memcpy(p, &l.raw[nr], k); nr += (int)((k + 7) / 8); }
  void load_binary(void* p, std::size_t k) { bin(p, k); }
  void done() { vs_check(n == l.n, "archive-read-completely"); } };
// sets whose features all have a serialize member (others: see hcfg.hpp)
typedef tag::covariance<V, tag::covariate1> covv;
#define SQ(...) static int q(A& a, double* o) { return feats<__VA_ARGS__>::q(a, o); }
struct s_light2 { enum { warm = 0, min_q = 1, ties = 1 }; typedef TP(tag::sum_kahan, tag::immediate_mean, tag::lazy_variance, tag::skewness, tag::kurtosis) A; static A* make() { return new A; } PU SQ(tag::sum_kahan, tag::immediate_mean, tag::lazy_variance, tag::skewness, tag::kurtosis) };
struct s_wlight { enum { warm = 0, min_q = 1, ties = 1 }; typedef TW(tag::count, tag::sum, tag::sum_kahan, tag::immediate_mean, tag::min, tag::max, tag::variance, tag::moment<3>, tag::sum_of_weights) A; static A* make() { return new A; } PW SQ(tag::count, tag::sum, tag::sum_kahan, tag::immediate_mean, tag::min, tag::max, tag::variance, tag::moment<3>, tag::sum_of_weights) };
struct s_var { enum { warm = 0, min_q = 1, ties = 1 }; typedef TP(tag::sum_of_variates<double, tag::covariate1>, tag::mean_of_variates<double, tag::covariate1>, cov1) A; static A* make() { return new A; } PU static int q(A& a, double* o) { o[0] = extract_result<tag::sum_of_variates<double, tag::covariate1> >(a); o[1] = extract_result<tag::mean_of_variates<double, tag::covariate1> >(a); o[2] = extract_result<cov1>(a); return 3; } };
struct s_ivar { enum { warm = 0, min_q = 1, ties = 1 }; typedef TP(tag::immediate_mean_of_variates<double, tag::covariate1>) A; static A* make() { return new A; } PU static int q(A& a, double* o) { o[0] = extract_result<tag::immediate_mean_of_variates<double, tag::covariate1> >(a); return 1; } };
struct s_wvar { enum { warm = 0, min_q = 1, ties = 1 }; typedef TW(tag::weighted_sum_of_variates<double, tag::covariate1>, tag::immediate_weighted_mean_of_variates<double, tag::covariate1>, tag::immediate_weighted_mean) A; static A* make() { return new A; } PW static int q(A& a, double* o) { o[0] = extract_result<tag::weighted_sum_of_variates<double, tag::covariate1> >(a); o[1] = extract_result<tag::immediate_weighted_mean_of_variates<double, tag::covariate1> >(a); o[2] = extract_result<tag::immediate_weighted_mean>(a); return 3; } };
struct s_int { enum { warm = 0, min_q = 1, ties = 1 }; typedef accumulator_set<int, features<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::variance, tag::rolling_window, tag::rolling_sum, tag::rolling_mean> > A; static A* make() { return new A(tag::rolling_window::window_size = 2); }
  static void push(A& a, smp const& s) { if (!vs_native()) { vs_assume_le(-1000000, s.x); vs_assume_le(s.x, 1000000); } a((int)s.x); } static int q(A& a, double* o) { int n = feats<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::variance, tag::rolling_sum, tag::rolling_mean>::q(a, o); return n + rng(rolling_window(a), o + n); } };
struct s_vec { enum { warm = 0, min_q = 1, ties = 1 }; typedef accumulator_set<V, features<tag::sum, tag::mean, tag::immediate_mean, tag::min, tag::max, tag::variance, tag::sum_kahan> > A; static A* make() { static const V z(2); return new A(sample = z); }
  static void push(A& a, smp const& s) { V v(2); v[0] = s.x; v[1] = s.y; a(v); } static int q(A& a, double* o) { int n = rng(sum(a), o); n += rng(extract_result<tag::immediate_mean>(a), o + n); n += rng(extract_result<tag::min>(a), o + n); n += rng(extract_result<tag::max>(a), o + n); n += rng(variance(a), o + n); return n + rng(extract_result<tag::sum_kahan>(a), o + n); } };
template<class LR> struct s_tq { enum { warm = -1, min_q = 1, ties = 1 }; typedef accumulator_set<double, features<tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR>, tag::coherent_tail_mean<LR> > > A; static A* make() { return new A(tag::tail<LR>::cache_size = 3); } PU
  static int q(A& a, double* o) { double p = std::is_same<LR, left>::value ? 0.3 : 0.7; o[0] = quantile(a, quantile_probability = p); o[1] = non_coherent_tail_mean(a, quantile_probability = p); return 2; } };
template<class LR> struct s_wtail { enum { warm = -1, min_q = 0, ties = 0 }; typedef accumulator_set<double, features<tag::tail<LR>, tag::tail_weights<LR> >, double> A; static A* make() { return new A(tag::tail<LR>::cache_size = 3); } PW
  static int q(A& a, double* o) { int n = rng(tail(a), o); return n + rng(tail_weights(a), o + n); } };
template<class LR> struct s_tvm { enum { warm = -1, min_q = 3, ties = 0 }; typedef accumulator_set<double, features<tag::absolute_tail_variate_means<LR, V, tag::covariate1> > > A; static A* make() { static const V z(2); return new A(tag::tail<LR>::cache_size = 3, covariate1 = z); }
  static void push(A& a, smp const& s) { V v(2); v[0] = s.y; v[1] = s.w; a(s.x, covariate1 = v); } static int q(A& a, double* o) { double p = std::is_same<LR, left>::value ? 0.3 : 0.7; return rng(tail_variate_means(a, quantile_probability = p), o); } };
#endif
