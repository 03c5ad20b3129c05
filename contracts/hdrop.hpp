// Droppable probes (C23): instrumented accumulators over a dependency graph, some with cached results.
#ifndef HDROP_HPP
#define HDROP_HPP
#include "hutil.hpp"
namespace dt {
template<class Self> struct probe : accumulator_base { typedef double result_type; long n; double x;
  template<class Args> probe(Args const&) : n(0), x(0) {}
  template<class Args> void operator()(Args const& a) { ++n; x = a[sample]; }
  result_type result(dont_care) const { return x; } };
// result depends on what P depends on (through the set), like mean on sum and count
template<class Self> struct dprobe : accumulator_base { typedef double result_type; long n; double x;
  template<class Args> dprobe(Args const&) : n(0), x(0) {}
  template<class Args> void operator()(Args const& a) { ++n; x = a[sample]; }
  template<class Args> result_type result(Args const& a) const { return 2 * x + extract_result<typename Self::needs>(a[accumulator]); } };
// a result type that knows whether it was constructed
struct live { double v; const live* self; explicit live(double v) : v(v), self(this) {} live(live const& o) : v(o.v), self(this) { vs_check(o.self == &o, "only-constructed-results-copied"); } ~live() { vs_check(self == this, "only-constructed-results-destroyed"); self = 0; } };
template<class Self> struct lprobe : accumulator_base { typedef live result_type; double x; template<class Args> lprobe(Args const&) : x(0) {} template<class Args> void operator()(Args const& a) { x = a[sample]; } template<class Args> live result(Args const& a) const { return live(2 * x + extract_result<typename Self::needs>(a[accumulator])); } };
#define PT(name, impl_, base) struct name : base { typedef boost::mpl::always<impl_<name> > impl; };
PT(A, probe, depends_on<>)
PT(E, probe, depends_on<>)
PT(B, probe, depends_on<A>)
PT(C, probe, depends_on<B>)
typedef depends_on<A, E> de; PT(D, probe, de)
typedef depends_on<C, D> cd; PT(F, probe, cd)
struct M : depends_on<B> { typedef A needs; typedef boost::mpl::always<dprobe<M> > impl; };   // not cached
struct K : depends_on<A> { typedef A needs; typedef boost::mpl::always<dprobe<K> > impl; };   // cached when dropped
struct N : depends_on<A> { typedef A needs; typedef boost::mpl::always<lprobe<N> > impl; };   // cached, non-trivial result
struct A2; struct B2;
}
namespace boost { namespace accumulators {
template<> struct feature_of<dt::A2> : feature_of<dt::A> {}; template<> struct feature_of<dt::B2> : feature_of<dt::B> {};
template<> struct droppable_accumulator<dt::dprobe<dt::K> > : droppable_accumulator_base<with_cached_result<dt::dprobe<dt::K> > > {
  template<class Args> droppable_accumulator(Args const& a) : droppable_accumulator::base(a) {}
  droppable_accumulator(droppable_accumulator const& t) : droppable_accumulator::base(*static_cast<typename droppable_accumulator::base const*>(&t)) {} };
template<> struct droppable_accumulator<dt::lprobe<dt::N> > : droppable_accumulator_base<with_cached_result<dt::lprobe<dt::N> > > {
  template<class Args> droppable_accumulator(Args const& a) : droppable_accumulator::base(a) {}
  droppable_accumulator(droppable_accumulator const& t) : droppable_accumulator::base(*static_cast<typename droppable_accumulator::base const*>(&t)) {} };
} }
namespace dt { 
PT(A2, probe, depends_on<>)        // variants: same feature, other dependencies
PT(B2, probe, depends_on<E>)
enum { bA = 1, bE = 2, bB = 4, bC = 8, bD = 16, bF = 32, bM = 64, bK = 128 };
template<class T> struct clo;      // own bit and dependency closure
#define CL(t, o, c) template<> struct clo<t> { enum { own = o, v = c }; };
CL(A, bA, bA) CL(E, bE, bE) CL(B, bB, bA | bB) CL(C, bC, bA | bB | bC) CL(D, bD, bA | bE | bD) CL(F, bF, bA | bE | bB | bC | bD | bF) CL(M, bM, bM | bB | bA) CL(K, bK, bK | bA) CL(A2, bA, bA) CL(B2, bB, bB | bE)
template<class T> struct clo<droppable<T> > : clo<T> { enum { drop = 1 }; };
}
// at most 4 user features; drop the i-th
template<class S> struct dropper { S* s; };
template<class T> struct is_dropp { enum { v = 0 }; typedef T raw; }; template<class T> struct is_dropp<droppable<T> > { enum { v = 1 }; typedef T raw; };
template<class S, class... T> static void drop_nth(S& s, int k) { int i = 0; ((is_dropp<T>::v && i++ == k ? [&] { if constexpr (is_dropp<T>::v) s.template drop<typename is_dropp<T>::raw>(); }() : void()), ...); }
// what is active when the droppable user features in mask (bit i: i-th droppable) have been dropped
template<class... T> static int active(int mask) { int i = 0, r = 0; ((is_dropp<T>::v ? (mask >> i++ & 1 ? 0 : r |= dt::clo<T>::v) : r |= dt::clo<T>::v), ...); return r; }
template<class... T> static int ndrop() { return (0 + ... + (int)is_dropp<T>::v); }
template<class A> inline auto refs(A& a, int) -> decltype((long)a.ref_count_) { return a.ref_count_; }
template<class A> inline long refs(A&, long) { return 0; }
#endif
