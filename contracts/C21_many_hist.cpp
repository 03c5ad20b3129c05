// C21: the longest feature list (20), the longest dependency list (20), a long dependency chain
// native
#include "hutil.hpp"
#include <set>
static long clock_;
struct pr_impl : accumulator_base { typedef long result_type; long n, at; double last; pr_impl(dont_care) : n(0), at(-1), last(0) {} template<class Args> void operator()(Args const& args) { ++n; at = clock_++; last = args[sample]; } long result(dont_care) const { return at; } };
template<int I> struct p : depends_on<> { typedef boost::mpl::always<pr_impl> impl; };
template<int I> struct ch : depends_on<ch<I - 1> > { typedef boost::mpl::always<pr_impl> impl; };
template<> struct ch<0> : depends_on<> { typedef boost::mpl::always<pr_impl> impl; };
struct all : depends_on<p<0>, p<1>, p<2>, p<3>, p<4>, p<5>, p<6>, p<7>, p<8>, p<9>, p<10>, p<11>, p<12>, p<13>, p<14>, p<15>, p<16>, p<17>, p<18>, p<19> > { typedef boost::mpl::always<pr_impl> impl; };
struct see { long* k; long n; double x; template<class A> void operator()(A& a) const { ++*k; vs_check_ieq(a.n, n, "fed-exactly-once"); vs_check_bits(a.last, x, "fed-the-sample"); } };
template<class S> static void feed(S& s, long members) { double x = vs_real("x"), y = vs_real("y"); s(x); s(y); long k = 0; see v; v.k = &k; v.n = 2; v.x = y; s.visit(v); vs_check_ieq(k, members, "each-feature-once"); }
OB(hist_twenty_features) {
  accumulator_set<double, features<p<7>, p<1>, p<2>, p<3>, p<4>, p<5>, p<6>, p<0>, p<8>, p<9>, p<19>, p<11>, p<12>, p<13>, p<14>, p<15>, p<16>, p<17>, p<18>, p<10> > > s; feed(s, 20);
  vs_check_ieq(find_accumulator<p<10> >(s).n, 2, "last-of-the-list"); vs_check_ieq(find_accumulator<p<0> >(s).n, 2, "inside-the-list"); vs_cover("end");
}
OB(hist_twenty_stats) {
  accumulator_set<double, stats<p<7>, p<1>, p<2>, p<3>, p<4>, p<5>, p<6>, p<0>, p<8>, p<9>, p<19>, p<11>, p<12>, p<13>, p<14>, p<15>, p<16>, p<17>, p<18>, p<10> > > s; feed(s, 20);
  vs_check_ieq(find_accumulator<p<10> >(s).n, 2, "last-of-the-list"); vs_cover("end");
}
template<int I, class S> static void before(S& s, long at) { vs_check(find_accumulator<p<I> >(s).at < at, "dependencies-first"); vs_check_ieq(find_accumulator<p<I> >(s).n, 2, "fed-exactly-once"); if constexpr (I > 0) before<I - 1>(s, at); }
OB(hist_twenty_dependencies) { accumulator_set<double, features<all> > s; feed(s, 21); before<19>(s, find_accumulator<all>(s).at); vs_cover("end"); }
template<int I, class S> static void chain(S& s) { if constexpr (I > 0) { vs_check(find_accumulator<ch<I - 1> >(s).at < find_accumulator<ch<I> >(s).at, "dependencies-first"); chain<I - 1>(s); } }
OB(hist_chain) { accumulator_set<double, features<ch<12> > > s; feed(s, 13); chain<12>(s); vs_cover("end"); }
OB(hist_chain_mixed) { accumulator_set<double, features<p<3>, ch<3>, ch<9>, p<1>, ch<6> > > s; feed(s, 12); chain<9>(s); vs_cover("end"); }
