// Instrumented accumulators with a dependency graph (C21, C23)
#ifndef HPROBE_HPP
#define HPROBE_HPP
#include "hutil.hpp"
static long vs_clock;
struct pbase : accumulator_base {      // per-probe record
  typedef long result_type; long n, at; double x, w, y;
  pbase() : n(0), at(0), x(0), w(0), y(0) {}
  template<class Args> long result(Args const&) const { return n; }
};
template<class T> struct deps_checked;
template<class Self> struct probe : pbase {
  template<class Args> probe(Args const&) {}
  template<class Args> void operator()(Args const& a) {
    ++n; at = ++vs_clock; x = a[sample]; w = a[weight | -7.]; y = a[covariate1 | -9.];
    deps_checked<Self>::run(a[accumulator], n);
  }
};
template<class T, class S> static void dep(S const& s, long n) { vs_check_ieq(find_accumulator<T>(s).n, n, "dependency-updated-first"); }
namespace ft { struct A; struct A2; struct B; struct B2; struct U; struct T; struct S; struct WU; struct WT; struct WS; }
namespace boost { namespace accumulators { template<> struct feature_of<ft::A2> : feature_of<ft::A> {}; template<> struct feature_of<ft::B2> : feature_of<ft::B> {};
#define WF(n) template<> struct as_weighted_feature<ft::n> { typedef ft::W##n type; }; template<> struct feature_of<ft::W##n> : feature_of<ft::n> {};
WF(U) WF(T) WF(S)
} }
namespace ft {
#define TAGD(name, base) struct name : base { typedef boost::mpl::always<probe<name> > impl; };
TAGD(A, depends_on<>)
TAGD(E, depends_on<>)
TAGD(B, depends_on<A>)
TAGD(C, depends_on<B>)
typedef depends_on<A, E> de; TAGD(D, de)
typedef depends_on<C, D> cd; TAGD(F, cd)
typedef depends_on<E, F> ef; TAGD(H, ef)
// a chain U <- T <- S whose weighted counterparts need the weight total Z
TAGD(U, depends_on<>)
TAGD(T, depends_on<U>)
TAGD(S, depends_on<T>)
TAGD(Z, depends_on<>)
TAGD(WU, depends_on<Z>)
TAGD(WT, depends_on<WU>)
TAGD(WS, depends_on<WT>)
TAGD(A2, depends_on<>)           // another implementation of A
TAGD(B2, depends_on<A>)
}
template<> struct deps_checked<ft::A> { template<class S> static void run(S const&, long) {} };
template<> struct deps_checked<ft::E> { template<class S> static void run(S const&, long) {} };
template<> struct deps_checked<ft::A2> { template<class S> static void run(S const&, long) {} };
template<> struct deps_checked<ft::B2> { template<class S> static void run(S const& s, long n) { dep<ft::A>(s, n); } };
template<> struct deps_checked<ft::B> { template<class S> static void run(S const& s, long n) { dep<ft::A>(s, n); } };
template<> struct deps_checked<ft::C> { template<class S> static void run(S const& s, long n) { dep<ft::B>(s, n); dep<ft::A>(s, n); } };
template<> struct deps_checked<ft::D> { template<class S> static void run(S const& s, long n) { dep<ft::A>(s, n); dep<ft::E>(s, n); } };
template<> struct deps_checked<ft::F> { template<class S> static void run(S const& s, long n) { dep<ft::C>(s, n); dep<ft::D>(s, n); dep<ft::B>(s, n); dep<ft::A>(s, n); dep<ft::E>(s, n); } };
template<> struct deps_checked<ft::H> { template<class S> static void run(S const& s, long n) { dep<ft::F>(s, n); dep<ft::C>(s, n); dep<ft::D>(s, n); dep<ft::B>(s, n); dep<ft::A>(s, n); dep<ft::E>(s, n); } };
template<> struct deps_checked<ft::Z> { template<class S> static void run(S const&, long) {} };
template<> struct deps_checked<ft::WU> { template<class S> static void run(S const& s, long n) { dep<ft::Z>(s, n); } };
template<> struct deps_checked<ft::WT> { template<class S> static void run(S const& s, long n) { dep<ft::Z>(s, n); dep<ft::U>(s, n); } };
template<> struct deps_checked<ft::WS> { template<class S> static void run(S const& s, long n) { dep<ft::Z>(s, n); dep<ft::U>(s, n); dep<ft::T>(s, n); } };
// closure bit sets
template<class T> struct clo; enum { bA = 1, bE = 2, bB = 4, bC = 8, bD = 16, bF = 32, bH = 64 };
template<> struct clo<ft::A> { enum { v = bA, own = bA }; }; template<> struct clo<ft::E> { enum { v = bE, own = bE }; };
template<> struct clo<ft::A2> { enum { v = bA, own = bA }; }; template<> struct clo<ft::B2> { enum { v = bA | bB, own = bB }; };
template<> struct clo<ft::B> { enum { v = bA | bB, own = bB }; }; template<> struct clo<ft::C> { enum { v = bA | bB | bC, own = bC }; };
template<> struct clo<ft::D> { enum { v = bA | bE | bD, own = bD }; }; template<> struct clo<ft::F> { enum { v = bA | bE | bB | bC | bD | bF, own = bF }; };
template<> struct clo<ft::H> { enum { v = 127, own = bH }; };
template<> struct clo<ft::Z> { enum { v = 1, own = 1 }; }; template<> struct clo<ft::WU> { enum { own = 2 }; }; template<> struct clo<ft::WT> { enum { own = 4 }; }; template<> struct clo<ft::WS> { enum { own = 8 }; };
template<> struct clo<ft::U> { enum { v = 3 }; }; template<> struct clo<ft::T> { enum { v = 7 }; }; template<> struct clo<ft::S> { enum { v = 15 }; };
typedef void (*fn_t)();
#define LISTS(...) { static const fn_t f[] = { __VA_ARGS__ }; int i = vs_choose("list", sizeof f / sizeof *f); f[i](); }
using namespace ft;
#endif
