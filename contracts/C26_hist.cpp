// C26 through the public interface: each component of a vector / valarray / complex statistic against the
// scalar accumulator fed with that component.
#include "hvec.hpp"
template<class C> static C zsample(long d) { return zeros<C>((std::size_t)d); }
// (one statistic at a time: results compared after every sample)
template<class T, class C, class W> static void one(int hi, bool empty = true) {
  typedef typename C::value_type v; const bool wt = !std::is_void<W>::value; typedef std::conditional_t<wt, W, double> Q; typedef typename as_feature<T>::type F; long d = vs_native() ? 1 + vs_choose("dim", 10) : 2, n = vs_len("n", 1, hi, 24);
  C z = zsample<C>(d); accumulator_set<C, stats<T>, W> a(sample = z); typedef typename boost::mpl::if_<boost::mpl::bool_<wt>, typename as_weighted_feature<T>::type, F>::type R; accumulator_set<v, stats<T>, W> c[11];
  if (empty) vs_check_ieq((long)extract_result<T>(a).size(), d, "empty-state-adopts-dimension");
  for (long i = 0; i < n; ++i) { C x = draw<C>("x", d); Q q = wt ? in<Q>("w") : Q(1); if (wt && !(q > 0)) q = Q(1);
    if constexpr (wt) a(x, weight = q); else a(x); vs_check_ieq((long)extract_result<T>(a).size(), d, "dimension");
    for (long k = 0; k < d; ++k) { if constexpr (wt) c[k]((v)x[k], weight = q); else c[k]((v)x[k]); auto r = extract_result<T>(a); double u = k < (long)r.size() ? (double)r[k] : 0; vs_check_eq(u, (double)extract_result<T>(c[k]), "component"); } }
  vs_cover("end"); }
typedef std::vector<double> V; typedef std::vector<int> VI; typedef std::valarray<double> A; typedef std::valarray<int> AI;
#define U(name, T, n, e) OB(hist_##name) LISTS([] { one<T, V, void>(n, e); }, [] { one<T, A, void>(n, e); }, [] { one<T, VI, void>(n, e); }, [] { one<T, AI, void>(n, e); })
U(sum, tag::sum, 2, true) U(mean, tag::mean, 2, false) U(immediate_mean, tag::mean(immediate), 2, true) U(min, tag::min, 2, true) U(max, tag::max, 2, true) U(moment2, tag::moment<2>, 2, false)
OB(hist_variance) LISTS([] { one<tag::variance, V, void>(2, false); }, [] { one<tag::variance, A, void>(2, false); }, [] { one<tag::variance, VI, void>(2, false); })
OB(hist_lazy_variance) LISTS([] { one<tag::lazy_variance, V, void>(2, false); }, [] { one<tag::lazy_variance, A, void>(2, false); })
OB(hist_sum_kahan) LISTS([] { one<tag::sum_kahan, V, void>(2); }, [] { one<tag::sum_kahan, A, void>(2); })
#define UW(name, T, n, e) OB(hist_w_##name) LISTS([] { one<T, V, double>(n, e); }, [] { one<T, A, double>(n, e); }, [] { one<T, VI, int>(n, e); }, [] { one<T, AI, int>(n, e); }, [] { one<T, VI, double>(n, e); })
UW(sum, tag::weighted_sum, 2, true) UW(mean, tag::weighted_mean, 2, false) UW(immediate_mean, tag::immediate_weighted_mean, 2, true)
// complex
template<class W> static void cz(int hi) { const bool wt = !std::is_void<W>::value; typedef std::complex<double> Z; accumulator_set<Z, stats<tag::sum, tag::mean>, W> a; accumulator_set<Z, stats<tag::mean(immediate)>, W> b; long n = vs_len("n", 1, hi, 24); double sr = 0, si = 0, sw = 0;
  for (long i = 0; i < n; ++i) { double re = vs_real("re"), im = vs_real("im"), q = 1; if (wt) { q = vs_real("w"); vs_assume(q > 0); } Z z(re, im); if constexpr (wt) { a(z, weight = q); b(z, weight = q); } else { a(z); b(z); } sr += re * q; si += im * q; sw += q;
    vs_check_eq(sum(a).real(), sr, "complex-sum"); vs_check_eq(sum(a).imag(), si, "complex-sum"); vs_check_eq(mean(a).real(), sr / sw, "complex-mean"); vs_check_eq(mean(a).imag(), si / sw, "complex-mean"); vs_check_eq(mean(b).real(), sr / sw, "complex-immediate-mean"); vs_check_eq(mean(b).imag(), si / sw, "complex-immediate-mean"); } vs_cover("end"); }
OB(hist_complex) { cz<void>(3); }
OB(hist_complex_weighted) { cz<double>(2); }
OB(hist_complex_one) { std::complex<double> z(vs_real("re"), vs_real("im")), o = boost::numeric::one<std::complex<double> >::value, p = z * o; vs_check_eq(p.real(), z.real(), "complex-times-one"); vs_check_eq(p.imag(), z.imag(), "complex-times-one"); vs_cover("end"); }
// many components, fixed samples
template<class T, class C> static void many(long d) {
  typedef typename C::value_type v; C z = zsample<C>(d); accumulator_set<C, stats<T> > a(sample = z); static accumulator_set<v, stats<T> > c[80]; for (int k = 0; k < 80; ++k) c[k] = accumulator_set<v, stats<T> >();
  for (int i = 0; i < 3; ++i) { C x = z; for (long k = 0; k < d; ++k) { x[k] = (v)(wide_sample((int)(k + 29 * i)) - 40); c[k](x[k]); } a(x); }
  auto r = extract_result<T>(a); vs_check_ieq((long)r.size(), d, "dimension"); for (long k = 0; k < d && k < (long)r.size(); ++k) vs_check_eq((double)r[k], (double)extract_result<T>(c[k]), "component"); vs_cover("end"); }
template<class T> static void many_() { static const long ds[] = {6, 7, 16, 17, 33, 70}; long d = ds[vs_choose("dim", 6)]; switch (vs_choose("type", 4)) { case 0: many<T, V>(d); break; case 1: many<T, A>(d); break; case 2: many<T, VI>(d); break; default: many<T, AI>(d); } }
OB(hist_many_sum) { many_<tag::sum>(); } OB(hist_many_mean) { many_<tag::mean>(); } OB(hist_many_immediate_mean) { many_<tag::immediate_mean>(); } OB(hist_many_min) { many_<tag::min>(); } OB(hist_many_max) { many_<tag::max>(); } OB(hist_many_moment2) { many_<tag::moment<2> >(); }
OB(hist_many_variance) { static const long ds[] = {6, 17, 70}; many<tag::variance, V>(ds[vs_choose("dim", 3)]); }
