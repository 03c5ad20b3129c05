// C26, std::complex samples: sums and means act on real and imaginary part as the scalar accumulators would;
// the second moment is the mean of the complex squares.
#include "hvec.hpp"
typedef std::complex<double> Z;
// state transfer: every complex<double> member -> its real (0) or imaginary (1) part
struct cz_save { tape& t; int p; cz_save(tape& t, int p) : t(t), p(p) {} template<class T> cz_save& operator&(T& x) { go(x); return *this; }
  template<class T> auto go(T& x) -> std::enable_if_t<std::is_floating_point<T>::value> { t.d[t.nd++] = x; } template<class T> auto go(T& x) -> std::enable_if_t<std::is_integral<T>::value> { t.k[t.nk++] = (long)x; }
  void go(Z& z) { t.d[t.nd++] = p ? z.imag() : z.real(); } };
struct cz_havoc { template<class T> cz_havoc& operator&(T& x) { go(x); return *this; } template<class T> auto go(T& x) -> std::enable_if_t<std::is_floating_point<T>::value> { x = vs_ghost("s"); } template<class T> auto go(T&) -> std::enable_if_t<std::is_integral<T>::value> {} void go(Z& z) { double a = vs_ghost("re"), b = vs_ghost("im"); z = Z(a, b); } };
struct cz_hv { template<class A> void operator()(A& a) const { cz_havoc h; walk(a, h, 0); } };
template<class SS> struct cz_x { SS* s; int p; bool check; template<class A> void operator()(A& a) const { typedef typename A::feature_tag F; tape t; cz_save o(t, p); walk(a, o, 0); auto& b = find_accumulator<F>(*s); if (check) { cmp_ar c(t, "update-of-both-parts"); walk(b, c, 0); c.done(); } else { load_ar l(t); walk(b, l, 0); } } };
template<class W, class... T> static void cw() { vs_flag("uf", 1); const bool wt = !std::is_void<W>::value; typedef accumulator_set<Z, features<T...>, W> VS; typedef accumulator_set<double, features<T...>, W> SS; VS s; SS c[2]; cz_x<SS> x;
  for (x.p = 0; x.p < 2; ++x.p) { x.s = &c[x.p]; x.check = true; s.visit(x); }
  if (vs_choose("state", 2)) { s.visit(cz_hv()); cnt_all k; k.n = vs_int("cnt", 1, CNT_MAX); s.visit(k); for (x.p = 0; x.p < 2; ++x.p) { x.s = &c[x.p]; x.check = false; s.visit(x); } }
  double re = vs_real("re"), im = vs_real("im"), q = vs_real("w"); Z z(re, im); if constexpr (wt) s(z, weight = q); else s(z);
  for (x.p = 0; x.p < 2; ++x.p) { double r = x.p ? im : re; if constexpr (wt) c[x.p](r, weight = q); else c[x.p](r); x.s = &c[x.p]; x.check = true; s.visit(x); ((vs_check_bits(x.p ? extract_result<T>(s).imag() : extract_result<T>(s).real(), extract_result<T>(c[x.p]), "result-of-both-parts")), ...); }
  vs_cover("end"); }
OB(step_complex) LISTS((cw<void, tag::sum>), (cw<void, tag::mean>), (cw<void, tag::immediate_mean>))
OB(step_complex_weighted) LISTS((cw<double, tag::weighted_sum>), (cw<double, tag::weighted_mean>), (cw<double, tag::immediate_weighted_mean>))
// complex squares
struct cz_set { double re, im; int k; template<class T> cz_set& operator&(T& x) { go(x); return *this; } template<class T> auto go(T&) -> std::enable_if_t<std::is_arithmetic<T>::value> {} void go(Z& z) { z = Z(re, im); ++k; } };
struct cz_get { double re, im; int k; template<class T> cz_get& operator&(T& x) { go(x); return *this; } template<class T> auto go(T&) -> std::enable_if_t<std::is_arithmetic<T>::value> {} void go(Z& z) { re = z.real(); im = z.imag(); ++k; } };
OB(step_complex_square) { typedef accumulator_set<Z, features<tag::moment<2> > > S; S s; auto& a = find_accumulator<tag::moment<2> >(s); cz_set h = {vs_ghost("re"), vs_ghost("im"), 0}; walk(a, h, 0); vs_check_ieq(h.k, 1, "one-member"); cnt_all k; k.n = vs_int("cnt", 0, CNT_MAX); long n = k.n; s.visit(k); double u = vs_real("u"), v = vs_real("v"); s(Z(u, v)); cz_get g = {0, 0, 0}; walk(a, g, 0); vs_check_eq(g.re, h.re + (u * u - v * v), "square.real"); vs_check_eq(g.im, h.im + 2 * u * v, "square.imaginary"); Z r = extract_result<tag::moment<2> >(s); vs_check_eq(r.real() * (n + 1), g.re, "mean-of-squares"); vs_check_eq(r.imag() * (n + 1), g.im, "mean-of-squares"); vs_cover("end"); }
