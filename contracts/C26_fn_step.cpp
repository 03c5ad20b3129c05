// native: functions of plain values
// C26, the numeric functions themselves: every operator and function on scalars, std::vector, std::valarray
// and std::complex, for all component values, dimensions 0..3 (doubles: also 4, 5, 8, 9), bit for bit against the
// scalar operation of each component.
#include "hvec.hpp"
#ifndef DMAX
#define DMAX 3
#endif
// dimensions: 0..DMAX for every type, 4, 5, 8, 9 for doubles
template<class... T> static long dims() { static const int d[] = {4, 5, 8, 9}; int k = vs_choose("dim", DMAX + 1 + ((std::is_same<T, double>::value && ...) ? 4 : 0)); return k <= DMAX ? k : d[k - DMAX - 1]; }
template<class A, class B> static void bounded_order(A const& a, B const& b, long n) { if (n > 5) for (long i = 1; i < n - 1; ++i) vs_assume(i % 2 ? a[i] < b[i] : b[i] < a[i]); } // (limits the paths of min and max)
template<class X, class Y> static void bits(X a, Y b, const char* w) { static_assert(std::is_same<X, Y>::value, "result type"); vs_check_bits((double)a, (double)b, w); }
#define EACH(expr, sc, what) { auto r = expr; vs_check_ieq((long)r.size(), n, what); for (long i = 0; i < n && i < (long)r.size(); ++i) bits(r[i], sc, what); }
template<class L, class R> static void vecvec() { vs_flag("uf", 1); long n = dims<L, R>(); std::vector<L> a = draw<std::vector<L> >("a", n); std::vector<R> b = draw<std::vector<R> >("b", n); using namespace nm::operators;
  bounded_order(a, b, n); for (long i = 0; i < n; ++i) vs_assume_ne((double)b[i], 0);
  EACH(nm::plus(a, b), a[i] + b[i], "plus") EACH(nm::minus(a, b), a[i] - b[i], "minus") EACH(nm::multiplies(a, b), a[i] * b[i], "multiplies") EACH(nm::divides(a, b), a[i] / b[i], "divides") EACH(nm::unary_minus(a), -a[i], "negation")
  { std::vector<L> c(a); nm::min_assign(c, a); for (long i = 0; i < n; ++i) bits(c[i], a[i], "min-with-self"); }
  if constexpr (std::is_same<L, R>::value) { { std::vector<L> c(a); nm::plus_assign(c, b); EACH(c, L(a[i] + b[i]), "plus-assign") } { std::vector<L> c(a); nm::min_assign(c, b); EACH(c, (b[i] < a[i] ? b[i] : a[i]), "min-assign") } { std::vector<L> c(a); nm::max_assign(c, b); EACH(c, (b[i] > a[i] ? b[i] : a[i]), "max-assign") } }
  vs_cover("end"); }
template<class L, class R> static void vecsc() { vs_flag("uf", 1); long n = dims<L, R>(); std::vector<L> a = draw<std::vector<L> >("a", n); R b = in<R>("b"); vs_assume_ne((double)b, 0); using namespace nm::operators;
  EACH(nm::multiplies(a, b), a[i] * b, "vector-times-scalar") EACH(nm::multiplies(b, a), b * a[i], "scalar-times-vector") EACH(nm::divides(a, b), a[i] / b, "vector-over-scalar")
  if constexpr (std::is_integral<L>::value && std::is_integral<R>::value) EACH(nm::fdiv(a, b), (double)a[i] / (double)b, "integer-division-promoted") else EACH(nm::fdiv(a, b), a[i] / b, "fdiv")
  vs_cover("end"); }
template<class L, class R> static void scsc() { vs_flag("uf", 1); L a = in<L>("a"); R b = in<R>("b"); vs_assume_ne((double)b, 0); bits(nm::plus(a, b), a + b, "plus"); bits(nm::minus(a, b), a - b, "minus"); bits(nm::multiplies(a, b), a * b, "multiplies"); if constexpr (std::is_integral<L>::value && std::is_integral<R>::value) bits(nm::fdiv(a, b), (double)a / (double)b, "integer-division-promoted"); else bits(nm::fdiv(a, b), a / b, "fdiv"); bits(nm::divides(a, b), a / b, "divides"); bits(nm::unary_minus(a), -a, "negation");
  vs_check(nm::less(a, b) == (a < b), "less"); vs_check(nm::greater(a, b) == (a > b), "greater"); vs_check(nm::less_equal(a, b) == (a <= b), "less-equal"); vs_check(nm::greater_equal(a, b) == (a >= b), "greater-equal"); vs_check(nm::equal_to(a, b) == (a == b), "equal"); vs_check(nm::not_equal_to(a, b) == (a != b), "not-equal");
  { L c = a; nm::plus_assign(c, b); bits(c, (L)(a + b), "plus-assign"); } { L c = a; nm::minus_assign(c, b); bits(c, (L)(a - b), "minus-assign"); } { L c = a; nm::multiplies_assign(c, b); bits(c, (L)(a * b), "multiplies-assign"); } { L c = a; nm::divides_assign(c, b); bits(c, (L)(a / b), "divides-assign"); } { L c = a; nm::assign(c, b); bits(c, (L)b, "assign"); }
  if constexpr (std::is_same<L, R>::value) { { L c = a; nm::min_assign(c, b); bits(c, b < a ? b : a, "min-assign"); } { L c = a; nm::max_assign(c, b); bits(c, b > a ? b : a, "max-assign"); } }
  bits((R)nm::promote<R>(a), (R)a, "promote"); vs_cover("end"); }
OB(fn_scalar) LISTS((scsc<double, double>), (scsc<int, double>), (scsc<double, int>), (scsc<int, int>), (scsc<long, unsigned>), (scsc<float, double>), (scsc<unsigned, unsigned>), (scsc<long, int>))
OB(fn_vector_vector) LISTS((vecvec<double, double>), (vecvec<int, double>), (vecvec<double, int>), (vecvec<int, int>))
OB(fn_vector_scalar) LISTS((vecsc<double, double>), (vecsc<int, double>), (vecsc<double, int>), (vecsc<int, int>), (vecsc<int, unsigned>), (vecsc<int, long>), (vecsc<double, unsigned>))
template<class L, class R> static void valval() { vs_flag("uf", 1); long n = dims<L, R>(); std::valarray<L> a = draw<std::valarray<L> >("a", n); std::valarray<R> b = draw<std::valarray<R> >("b", n); bounded_order(a, b, n); for (long i = 0; i < n; ++i) vs_assume_ne((double)b[i], 0); using namespace nm::operators;
  EACH(nm::plus(a, b), a[i] + b[i], "plus") if constexpr (std::is_same<L, R>::value) { EACH(nm::minus(a, b), a[i] - b[i], "minus") EACH(nm::multiplies(a, b), a[i] * b[i], "multiplies") EACH(nm::divides(a, b), a[i] / b[i], "divides") { std::valarray<L> c(a); nm::min_assign(c, b); EACH(c, (b[i] < a[i] ? b[i] : a[i]), "min-assign") } { std::valarray<L> c(a); nm::max_assign(c, b); EACH(c, (b[i] > a[i] ? b[i] : a[i]), "max-assign") } }
  vs_cover("end"); }
template<class L, class R> static void valsc() { vs_flag("uf", 1); long n = dims<L, R>(); std::valarray<L> a = draw<std::valarray<L> >("a", n); R b = in<R>("b"); vs_assume_ne((double)b, 0); using namespace nm::operators;
  EACH(nm::multiplies(a, b), a[i] * b, "array-times-scalar") EACH(nm::divides(a, b), a[i] / b, "array-over-scalar") if constexpr (std::is_integral<L>::value && std::is_integral<R>::value) EACH(nm::fdiv(a, b), (double)a[i] / (double)b, "integer-division-promoted") else EACH(nm::fdiv(a, b), a[i] / b, "fdiv") if constexpr (std::is_same<L, R>::value) EACH(nm::multiplies(b, a), b * a[i], "scalar-times-array")
  vs_cover("end"); }
OB(fn_valarray_valarray) LISTS((valval<double, double>), (valval<int, double>), (valval<double, int>), (valval<int, int>))
OB(fn_valarray_scalar) LISTS((valsc<double, double>), (valsc<int, double>), (valsc<double, int>), (valsc<int, int>), (valsc<int, unsigned>), (valsc<double, unsigned>))
// promotion, extreme values, zero and one: dimension of the argument, value of the component type
template<class T> static T lo() { return std::numeric_limits<T>::is_integer ? std::numeric_limits<T>::min() : -std::numeric_limits<T>::max(); }
template<class C> static void consts() { vs_flag("uf", 1); typedef typename C::value_type T; long n = dims<T>(); C a = draw<C>("a", n); EACH(nm::as_min(a), lo<T>(), "as-min") EACH(nm::as_max(a), std::numeric_limits<T>::max(), "as-max") EACH(nm::as_zero(a), T(0), "as-zero") EACH(nm::as_one(a), T(1), "as-one")
  C const& k = a; EACH(nm::as_min(k), lo<T>(), "as-min") EACH(nm::as_max(k), std::numeric_limits<T>::max(), "as-max") EACH(nm::as_zero(k), T(0), "as-zero") EACH(nm::as_one(k), T(1), "as-one")
  { C& p = nm::promote<C>(a); vs_check(&p == &a, "promote-to-itself"); } { C const& p = nm::promote<C>(k); vs_check(&p == &a, "promote-to-itself"); } vs_cover("end"); }
template<class T> static void sconsts() { vs_flag("uf", 1); T a = in<T>("a"); T const& k = a; bits(nm::as_min(a), lo<T>(), "as-min"); bits(nm::as_max(a), std::numeric_limits<T>::max(), "as-max"); bits(nm::as_zero(a), T(0), "as-zero"); bits(nm::as_one(a), T(1), "as-one"); bits(nm::as_min(k), lo<T>(), "as-min"); bits(nm::as_max(k), std::numeric_limits<T>::max(), "as-max"); bits(nm::as_zero(k), T(0), "as-zero"); vs_check(&nm::promote<T>(a) == &a, "promote-to-itself"); vs_cover("end"); }
OB(fn_constants) LISTS((consts<std::vector<double> >), (consts<std::vector<int> >), (consts<std::valarray<double> >), (consts<std::valarray<int> >), (consts<std::vector<float> >), sconsts<double>, sconsts<int>, sconsts<unsigned>, sconsts<long>, sconsts<float>)
template<class To, class From> static void prom() { vs_flag("uf", 1); long n = dims<typename To::value_type>(); From a = draw<From>("a", n); EACH(nm::promote<To>(a), (typename To::value_type)a[i], "promote") From const& k = a; EACH(nm::promote<To>(k), (typename To::value_type)a[i], "promote") vs_cover("end"); }
OB(fn_promote) LISTS((prom<std::vector<double>, std::vector<int> >), (prom<std::valarray<double>, std::valarray<int> >), (prom<std::vector<long>, std::vector<int> >), (prom<std::vector<double>, std::vector<unsigned> >))
OB(fn_promote_bool) { long n = vs_choose("dim", DMAX + 1); std::valarray<int> a = draw<std::valarray<int> >("a", n), b = draw<std::valarray<int> >("b", n); std::valarray<bool> e(a == b); bool all = true; for (long i = 0; i < n; ++i) if (a[i] != b[i]) all = false; vs_check(nm::promote<bool>(e) == all, "all-equal"); vs_cover("end"); }
// the neutral elements of complex numbers
template<class T> static void cone() { vs_flag("uf", 1); std::complex<T> z(in<T>("re"), in<T>("im")); std::complex<T> const& o = nm::one<std::complex<T> >::value; bits(o.real(), T(1), "complex-one"); bits(o.imag(), T(0), "complex-one");
  std::complex<T> e = nm::as_zero(z); bits(e.real(), T(0), "complex-zero"); bits(e.imag(), T(0), "complex-zero"); vs_cover("end"); }
OB(fn_complex_one) LISTS(cone<double>, cone<float>)
// complex: scaling by a real, both components
template<class T, class U> static void cpx() { vs_flag("uf", 1); T re = in<T>("re"), im = in<T>("im"); U u = in<U>("u"); vs_assume_ne((double)u, 0); std::complex<T> z(re, im); using namespace nm::operators; auto p = nm::multiplies(z, u); bits(p.real(), re * (T)u, "complex-times-real"); bits(p.imag(), im * (T)u, "complex-times-real"); auto q = nm::fdiv(z, u); bits(q.real(), re / (T)u, "complex-over-real"); bits(q.imag(), im / (T)u, "complex-over-real"); auto d = nm::divides(z, u); bits(d.real(), re / (T)u, "complex-over-real"); bits(d.imag(), im / (T)u, "complex-over-real");
  auto s = nm::plus(z, z); bits(s.real(), re + re, "plus"); bits(s.imag(), im + im, "plus"); vs_cover("end"); }
OB(fn_complex) LISTS((cpx<double, double>), (cpx<double, int>), (cpx<double, unsigned>), (cpx<float, float>), (cpx<double, long>))
OB(fn_outer_product) { vs_flag("uf", 1); static const int e[] = {0, 1, 2, 5}; long n = e[vs_choose("rows", 4)], m = e[vs_choose("cols", 4)]; std::vector<double> a = draw<std::vector<double> >("a", n), b = draw<std::vector<double> >("b", m); auto r = nm::outer_product(a, b); vs_check_ieq((long)r.size1(), n, "outer-product"); vs_check_ieq((long)r.size2(), m, "outer-product"); for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) vs_check_bits(r(i, j), a[i] * b[j], "outer-product"); vs_cover("end"); }
template<int N> static void pw() { long n = dims<double>(); std::vector<double> a = draw<std::vector<double> >("a", n); auto r = nm::pow(a, boost::mpl::int_<N>()); vs_check_ieq((long)r.size(), n, "power"); for (long i = 0; i < n; ++i) { double p = 1; for (int k = 0; k < N; ++k) p *= a[i]; vs_check_eq(r[i], p, "power"); } std::valarray<double> v = draw<std::valarray<double> >("v", n); std::valarray<double> q = nm::pow(v, boost::mpl::int_<N>()); for (long i = 0; i < n; ++i) { double p = 1; for (int k = 0; k < N; ++k) p *= v[i]; vs_check_eq(q[i], p, "power"); } vs_cover("end"); }
OB(fn_power) LISTS(pw<1>, pw<2>, pw<3>, pw<4>, pw<5>, pw<6>, pw<7>)
