// Vector-valued samples (C26): component access and component-wise state transfer.
#ifndef HVEC_HPP
#define HVEC_HPP
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include <complex>
#include <valarray>
#include <vector>
#include "hstate.hpp"
namespace nm = boost::numeric;
template<class T> struct cont;        // container of T: vector or valarray
template<class T> inline std::vector<T> mk(std::size_t n, std::vector<T>*) { return std::vector<T>(n, T()); }
template<class T> inline std::valarray<T> mk(std::size_t n, std::valarray<T>*) { return std::valarray<T>(T(), n); }
template<class V> inline V zeros(std::size_t n) { return mk(n, (V*)0); }
template<class V> inline V draw(const char* nm_, std::size_t n) { V v(mk(n, (V*)0)); for (std::size_t i = 0; i < n; ++i) v[i] = in<typename V::value_type>(nm_); return v; }
// walkers over the i-th component of every vector / valarray / (i,j)-th of every matrix
template<class D> struct slice_base { int i, j; D& self() { return static_cast<D&>(*this); }
  template<class T> D& operator&(T& t) { go(t); return self(); }
  template<class T> auto go(T& t) -> std::enable_if_t<std::is_arithmetic<T>::value> { self().num(t); }
  template<class T> void go(std::vector<T>& v) { vs_check(i < (int)v.size(), "dimension-of-the-sample"); go(v[i]); }
  template<class T> void go(std::valarray<T>& v) { vs_check(i < (int)v.size(), "dimension-of-the-sample"); go(v[i]); }
  template<class T> void go(boost::numeric::ublas::matrix<T>& m) { vs_check(i < (int)m.size1() && j < (int)m.size2(), "dimension-of-the-sample"); go(m(i, j)); } };
struct slice_save : slice_base<slice_save> { tape& t; slice_save(tape& t, int i_, int j_) : t(t) { i = i_; j = j_; } template<class T> void num(T& x) { if (std::is_floating_point<T>::value) t.d[t.nd++] = (double)x; else t.k[t.nk++] = (long)x; } };
struct slice_havoc { typedef int is_walker; template<class T> slice_havoc& operator&(T& t) { go(t); return *this; }
  template<class T> auto go(T& t) -> std::enable_if_t<std::is_arithmetic<T>::value> { if (std::is_floating_point<T>::value) t = (T)vs_ghost("s"); else if (!std::is_same<T, std::size_t>::value) t = (T)vs_int("k", -1000000, 1000000); }
  template<class T> void go(std::vector<T>& v) { for (std::size_t i = 0; i < v.size(); ++i) go(v[i]); }
  template<class T> void go(std::valarray<T>& v) { for (std::size_t i = 0; i < v.size(); ++i) go(v[i]); }
  template<class T> void go(boost::numeric::ublas::matrix<T>& v) { for (std::size_t i = 0; i < v.size1(); ++i) for (std::size_t j = 0; j < v.size2(); ++j) go(v(i, j)); } };
struct v_havoc { template<class A> void operator()(A& a) const { slice_havoc h; walk(a, h, 0); } };
template<class S> inline void havoc_vec(S& s) { s.visit(v_havoc()); cnt_all c; c.n = vs_int("cnt", 1, CNT_MAX); s.visit(c); }
// scalar set := component (i, j) of the vector set;  compare
// (pick: which component index applies to an accumulator: samples i, variates j)
template<class F> struct idx { static int of(int i, int j) { return i; } };
template<class T, class G> struct idx<tag::sum_of_variates<T, G> > { static int of(int, int j) { return j; } };
template<class T, class G> struct idx<tag::mean_of_variates<T, G> > { static int of(int, int j) { return j; } };
template<class T, class G> struct idx<tag::immediate_mean_of_variates<T, G> > { static int of(int, int j) { return j; } };
template<class T, class G> struct idx<tag::weighted_sum_of_variates<T, G> > { static int of(int, int j) { return j; } };
template<class T, class G> struct idx<tag::weighted_mean_of_variates<T, G> > { static int of(int, int j) { return j; } };
template<class T, class G> struct idx<tag::covariance<T, G> > { static int of(int, int j) { return j; } };           // rows: variates
template<class T, class G> struct idx<tag::weighted_covariance<T, G> > { static int of(int, int j) { return j; } };
// vector feature -> its scalar counterpart
template<class T> struct elem { typedef T type; }; template<class T> struct elem<std::vector<T> > { typedef T type; }; template<class T> struct elem<std::valarray<T> > { typedef T type; };
template<class F> struct scal { typedef F type; };
#define SC(n) template<class T, class G> struct scal<tag::n<T, G> > { typedef tag::n<typename elem<T>::type, G> type; };
SC(sum_of_variates) SC(mean_of_variates) SC(immediate_mean_of_variates) SC(weighted_sum_of_variates) SC(weighted_mean_of_variates) SC(covariance) SC(weighted_covariance)
template<class S> struct s_from { S* v; int i, j; template<class A> void operator()(A& a) const { from<S>(a, (typename A::feature_tag*)0); }
  template<class S1, class A, class F> void from(A& a, F*) const; };
template<class VS> struct put_in { VS* v; int i, j; template<class A, class T> void one(A& sc, T*) const { tape t; slice_save o(t, idx<T>::of(i, j), i); walk(find_accumulator<T>(*v), o, 0); load_ar l(t); walk(find_accumulator<typename scal<T>::type>(sc), l, 0); } };
template<class VS, class SS> struct xfer { VS* v; SS* s; int i, j; bool check; const char* what; template<class A> void operator()(A& a) const { typedef typename A::feature_tag F; tape t; slice_save o(t, idx<F>::of(i, j), i); walk(a, o, 0); auto& b = find_accumulator<typename scal<F>::type>(*s); if (check) { cmp_ar c(t, what); walk(b, c, 0); c.done(); } else { load_ar l(t); walk(b, l, 0); } } };
template<class VS, class SS> inline void to_scalar(VS& v, SS& s, int i, int j) { xfer<VS, SS> x; x.v = &v; x.s = &s; x.i = i; x.j = j; x.check = false; v.visit(x); }
template<class VS, class SS> inline void same_component(VS& v, SS& s, int i, int j, const char* what) { xfer<VS, SS> x; x.v = &v; x.s = &s; x.i = i; x.j = j; x.check = true; x.what = what; v.visit(x); }
template<class T> inline double comp(std::vector<T> const& v, int i, int) { vs_check(i < (int)v.size(), "dimension-of-the-sample"); return (double)v[i]; }
template<class T> inline double comp(std::valarray<T> const& v, int i, int) { vs_check(i < (int)v.size(), "dimension-of-the-sample"); return (double)v[i]; }
template<class T> inline double comp(boost::numeric::ublas::matrix<T> const& v, int i, int j) { vs_check(i < (int)v.size1() && j < (int)v.size2(), "dimension-of-the-sample"); return (double)v(i, j); }
template<class T> inline auto comp(T const& v, int, int) -> std::enable_if_t<std::is_arithmetic<T>::value, double> { return (double)v; }
template<bool W, class S, class X, class Y, class Q> static void push(S& s, X const& x, Y const& y, Q const& w) { if constexpr (W) s(x, covariate1 = y, weight = w); else s(x, covariate1 = y); }
typedef void (*fn_t)();
#define LISTS(...) { static const fn_t f[] = { __VA_ARGS__ }; int i = vs_choose("list", sizeof f / sizeof *f); f[i](); }
#endif
