// C21: every argument of a push, a construction or an extraction reaches every accumulator, whatever their number
// (0..14 named arguments after the first, the library's limit) and whether the first one is positional or named.
// native
#include "hutil.hpp"
#include <utility>
#include <cstring>
namespace kw {
#define K(n) BOOST_PARAMETER_KEYWORD(tag, k##n)
K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10) K(11) K(12) K(13) K(14)
#undef K
}
static const int NK = 15;
static const double NO = -77.;     // "not given"
struct got { double s, k[NK]; };
template<class Args> static void read(Args const& args, got& g) {
  g.s = args[sample | NO];
#define R(n) g.k[n] = args[kw::k##n | NO];
  R(0) R(1) R(2) R(3) R(4) R(5) R(6) R(7) R(8) R(9) R(10) R(11) R(12) R(13) R(14)
#undef R
}
struct arg_impl : accumulator_base {
  typedef got result_type; got made, pushed; long n;
  template<class Args> arg_impl(Args const& args) : n(0) { read(args, made); read(args, pushed); }
  template<class Args> void operator()(Args const& args) { read(args, pushed); ++n; }
  template<class Args> got result(Args const& args) const { got g; read(args, g); return g; }
};
namespace ft {
struct low : depends_on<> { typedef boost::mpl::always<arg_impl> impl; };
struct mid : depends_on<low> { typedef boost::mpl::always<arg_impl> impl; };
struct top : depends_on<mid> { typedef boost::mpl::always<arg_impl> impl; };
}
static extractor<ft::top> const x_top = {};
typedef accumulator_set<double, features<ft::top> > S;
static double v[NK], sv;
static void fresh() { sv = vs_real("s"); for (int i = 0; i < NK; ++i) v[i] = vs_real("k"); }
// keyword number i bound to v[i]
template<int I> struct kwn;
#define K(n) template<> struct kwn<n> { static auto arg() { return kw::k##n = (double const&)v[n]; } };
K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10) K(11) K(12) K(13) K(14)
#undef K
static void same(got const& g, bool s, int n, const char* w) { vs_check_bits(g.s, s ? sv : NO, w); for (int i = 0; i < NK; ++i) vs_check_bits(g.k[i], i < n ? v[i] : NO, w); }
struct each { bool s; int n; int what; long cnt; template<class A> void operator()(A& a) const { if (what == 0) same(a.made, s, n, "constructor-arguments-reach-every-accumulator"); else { same(a.pushed, s, n, "push-arguments-reach-every-accumulator"); vs_check_ieq(a.n, cnt, "updated-once"); } } };
static void look(S& t, bool s, int n, int what, long cnt) { each e; e.s = s; e.n = n; e.what = what; e.cnt = cnt; t.visit(e); }
// N named arguments after a positional sample
template<int... I> static void positional(std::integer_sequence<int, I...>) {
  const int n = sizeof...(I);
  { S t; long c0 = vs_int("pushes", 0, 1000000); find_accumulator<ft::low>(t).n = find_accumulator<ft::mid>(t).n = find_accumulator<ft::top>(t).n = c0; t(sv, kwn<I>::arg()...); look(t, true, n, 1, c0 + 1); }
  { S t(sv, kwn<I>::arg()...); look(t, true, n, 0, 0); }
  { S t; same(extract_result<ft::top>(t, sv, kwn<I>::arg()...), true, n, "extraction-arguments-reach-the-accumulator"); same(x_top(t, sv, kwn<I>::arg()...), true, n, "extraction-arguments-reach-the-accumulator"); }
}
// N named arguments, sample last, first or absent
template<int... I> static void named(std::integer_sequence<int, I...>) {
  const int n = sizeof...(I);
  { S t; t(kwn<I>::arg()...); look(t, false, n, 1, 1); if constexpr (n > 0) { S u((kwn<I>::arg())...); look(u, false, n, 0, 0); same(extract_result<ft::top>(t, kwn<I>::arg()...), false, n, "extraction-arguments-reach-the-accumulator"); same(x_top(t, kwn<I>::arg()...), false, n, "extraction-arguments-reach-the-accumulator"); } else { same(extract_result<ft::top>(t), false, 0, "extraction-arguments-reach-the-accumulator"); same(x_top(t), false, 0, "extraction-arguments-reach-the-accumulator"); } }
  if constexpr (n < NK) {
    { S t; t(sample = sv, kwn<I>::arg()...); look(t, true, n, 1, 1); S u(sample = sv, kwn<I>::arg()...); look(u, true, n, 0, 0); same(extract_result<ft::top>(t, sample = sv, kwn<I>::arg()...), true, n, "extraction-arguments-reach-the-accumulator"); }
    { S t; t(kwn<I>::arg()..., sample = sv); look(t, true, n, 1, 1); S u(kwn<I>::arg()..., sample = sv); look(u, true, n, 0, 0); same(x_top(t, kwn<I>::arg()..., sample = sv), true, n, "extraction-arguments-reach-the-accumulator"); }
  }
}
#define E(n) OB(step_args##n) { fresh(); positional(std::make_integer_sequence<int, n>()); named(std::make_integer_sequence<int, n>()); vs_cover("end"); }
E(0) E(1) E(2) E(3) E(4) E(5) E(6) E(7) E(8) E(9) E(10) E(11) E(12) E(13) E(14)
OB(step_args15) { fresh(); named(std::make_integer_sequence<int, 15>()); vs_cover("end"); }
