// C21: accumulator_set with instrumented accumulators ("probes"), from an arbitrary state in which all
// probes have seen n samples: one push feeds each probe exactly once, with the pushed arguments, after
// every probe it (transitively) depends on; the set holds exactly the dependency closure, each once.
// Feature lists enumerated (the obligations hold for all samples and histories for each list): all single features and ordered pairs and all rotations of the full list
// and its reverse, over a 7-feature dependency graph with diamonds and a feature variant.
#include "hprobe.hpp"
struct havoc_v { long n; template<class P> void operator()(P& p) const { p.n = n; p.x = vs_real("old"); } };
struct post_v { long n, t0; int* seen; long* cnt; double x, w, y; template<class P> void operator()(P& p) const {
  vs_check_ieq(p.n, n, "fed-exactly-once"); vs_check_eq(p.x, x, "same-sample"); vs_check_eq(p.w, w, "same-weight"); vs_check_eq(p.y, y, "same-covariate"); vs_check(p.at > t0 && p.at <= vs_clock, "fed-in-this-push");
  int b = clo<typename P::feature_tag>::own; vs_check(!(*seen & b), "each-feature-once"); *seen |= b; ++*cnt; } };
template<bool Wt = false, class S> static void one(S& s, int want) {
  long n = vs_int("n", 0, CNT_MAX); havoc_v h; h.n = n; s.visit(h);
  double x = vs_real("x"); int kind = vs_choose("kind", 3), seen = 0; double w = -7, y = -9; long cnt = 0, t0 = vs_clock;
  if (kind == 0) s(x); else if (kind == 1) { y = vs_real("y"); s(x, covariate1 = y); } else { y = vs_real("y"); w = vs_real("w"); s(x, weight = w, covariate1 = y); }
  post_v p; p.n = n + 1; p.t0 = t0; p.seen = &seen; p.cnt = &cnt; p.x = x; p.w = w; p.y = y; s.visit(p);
  vs_check_ieq(seen, want, "closure-of-dependencies"); vs_check_ieq(vs_clock - t0, cnt, "no-extra-update");
}
template<class... T> static void lst() { accumulator_set<double, features<T...> > s; one(s, (0 | ... | (int)clo<T>::v)); vs_cover("end"); }
#define PAIRS(T) LISTS(lst<T>, lst<T, A>, lst<T, B>, lst<T, C>, lst<T, D>, lst<T, E>, lst<T, F>, lst<T, H>)
OB(step_pairs_A) PAIRS(A)
OB(step_pairs_B) PAIRS(B)
OB(step_pairs_C) PAIRS(C)
OB(step_pairs_D) PAIRS(D)
OB(step_pairs_E) PAIRS(E)
OB(step_pairs_F) PAIRS(F)
OB(step_pairs_H) PAIRS(H)
OB(step_rotations) LISTS(
  lst<A, B, C, D, E, F, H>, lst<B, C, D, E, F, H, A>, lst<C, D, E, F, H, A, B>, lst<D, E, F, H, A, B, C>, lst<E, F, H, A, B, C, D>, lst<F, H, A, B, C, D, E>, lst<H, A, B, C, D, E, F>,
  lst<H, F, E, D, C, B, A>, lst<F, E, D, C, B, A, H>, lst<E, D, C, B, A, H, F>, lst<D, C, B, A, H, F, E>, lst<C, B, A, H, F, E, D>, lst<B, A, H, F, E, D, C>, lst<A, H, F, E, D, C, B>,
  lst<C, E, B, D>, lst<D, B, E, C>, lst<E, C, D, A>, lst<B, E, A, D, C>)
// a feature variant (needing no more than the feature it stands for) replaces it wherever it is listed
OB(step_variants) LISTS(lst<A2>, lst<A2, B>, lst<B, A2>, lst<A2, C, D>, lst<D, A2, C>, lst<C, D, A2>, lst<H, A2>, lst<A2, H>, lst<E, C, A2>, lst<A2, A, B>, lst<B2, C>, lst<C, B2>, lst<H, B2>, lst<B2, A2, F>, lst<F, B2, A2>)
// features nested in a sequence
static void nest1() { accumulator_set<double, features<stats<C, D>, E> > s; one(s, bA | bB | bC | bD | bE); vs_cover("end"); }
static void nest2() { accumulator_set<double, stats<features<E>, stats<F, A> > > s; one(s, 63); vs_cover("end"); }
OB(step_nested) LISTS(nest1, nest2)
// weighted sets: every feature is replaced by its weighted counterpart, dependencies included
template<class... T> static void wlst() { accumulator_set<double, features<T...>, double> s; one<true>(s, (0 | ... | (int)clo<T>::v)); vs_cover("end"); }
OB(step_weighted) LISTS(wlst<U>, wlst<T>, wlst<S>, wlst<U, T, S>, wlst<S, T, U>, wlst<T, S>, wlst<S, U>, wlst<T, U, S>)
// known finding: a variant that needs more than the feature it stands for can be updated before what it needs
namespace ft { struct A3; } namespace boost { namespace accumulators { template<> struct feature_of<ft::A3> : feature_of<ft::A> {}; } }
namespace ft { TAGD(A3, depends_on<E>) }
template<> struct deps_checked<ft::A3> { template<class S> static void run(S const& s, long n) { dep<ft::E>(s, n); } };
template<> struct clo<ft::A3> { enum { v = bA | bE, own = bA }; };
OB(step_known_variant) LISTS((lst<B, A3>))
