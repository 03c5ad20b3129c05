// C23 with instrumented accumulators: for each listed feature list, after any sequence of drops (every
// order of every subset of the droppable features the user listed), from an arbitrary state of the
// accumulators: one sample updates exactly the accumulators that some not dropped feature needs (or that
// are not droppable), each once, and leaves every other one, and all reference counts, as they were.
// (Reference counts are the only control state; they change only in drop(), so the enumeration of drop
// orders is complete, with any number of samples and queries in between.)
#include "hdrop.hpp"
using namespace dt;
struct rec { long n; double x, r; long rc; };
struct fill { rec* o; int* k; template<class P> void operator()(P& p) const { p.n = vs_int("n", 0, CNT_MAX); p.x = vs_real("old"); rec& e = o[(*k)++]; e.n = p.n; e.x = p.x; e.rc = refs(p, 0); } };
struct after { rec* o; int* k; int act; double x; template<class P> void operator()(P& p) const { rec& e = o[(*k)++]; bool u = act & clo<typename P::feature_tag>::own;
  vs_check_ieq(p.n, u ? e.n + 1 : e.n, u ? "active-is-updated-once" : "dropped-is-not-updated"); vs_check_eq(p.x, u ? x : e.x, u ? "active-gets-the-sample" : "dropped-result-frozen"); vs_check_ieq(refs(p, 0), e.rc, "samples-keep-reference-counts"); } };
template<class T, class S> static double plain(S& s) { return extract_result<T>(s); }
template<class S, class... T> static void sample1(S& s, int mask, double* frozenK) {
  rec o[12]; int k = 0; fill f; f.o = o; f.k = &k; s.visit(f); double x = vs_real("x"); s(x); k = 0; after a; a.o = o; a.k = &k; a.act = active<T...>(mask); a.x = x; s.visit(a);
}
template<class S, class... T> static void drops(S& s, int& mask, int stop) { int n = ndrop<T...>(); for (int j = 0; j < n; ++j) { int c = vs_choose("drop", n + (stop ? 1 : 0)); if (c == n) return; if (mask >> c & 1) continue; drop_nth<S, T...>(s, c); mask |= 1 << c; sample1<S, T...>(s, mask, 0); } }
template<class W, class... T> static void lw() { typedef accumulator_set<double, features<T...>, W> S; S s; int mask = 0; sample1<S, T...>(s, mask, 0); drops<S, T...>(s, mask, 0); vs_cover("end"); }
template<class... T> static void ls() { lw<void, T...>(); }
// a copy made after any drops keeps them, and drops in either do not disturb the other
template<class... T> static void cp() { typedef accumulator_set<double, features<T...> > S; S s; int mask = 0, m2; drops<S, T...>(s, mask, 1); m2 = mask; S c(s); S d; d = s; sample1<S, T...>(c, m2, 0); sample1<S, T...>(d, m2, 0); drops<S, T...>(c, m2, 0); sample1<S, T...>(s, mask, 0); sample1<S, T...>(d, mask, 0); vs_cover("end"); }
typedef void (*fn_t)();
#define LISTS(...) { static const fn_t f[] = { __VA_ARGS__ }; int i = vs_choose("list", sizeof f / sizeof *f); f[i](); }
#define d_(T) droppable<T>
OB(step_single) LISTS(ls<d_(A)>, ls<d_(B)>, ls<d_(C)>, ls<d_(D)>, ls<d_(F)>, (ls<A, d_(B)>), (ls<B, d_(A)>), (ls<d_(C), B>), (ls<d_(D), E>), (ls<d_(F), D>), (ls<C, d_(D)>), (ls<d_(M)>))
OB(step_pairs) LISTS((ls<d_(A), d_(B)>), (ls<d_(B), d_(A)>), (ls<d_(C), d_(D)>), (ls<d_(D), d_(C)>), (ls<d_(F), d_(D)>), (ls<d_(C), d_(A)>), (ls<d_(C), d_(B)>), (ls<d_(F), d_(C)>), (ls<d_(E), d_(F)>), (ls<d_(M), d_(C)>), (ls<d_(M), d_(A)>))
OB(step_mixed) LISTS((ls<A, d_(B), d_(C)>), (ls<d_(C), E, d_(D)>), (ls<d_(F), d_(B), E>), (ls<B, d_(C), d_(D)>), (ls<d_(F), C>), (ls<D, d_(C), d_(B)>), (ls<d_(A), B, d_(D)>))
OB(step_triples) LISTS((ls<d_(A), d_(B), d_(C)>), (ls<d_(C), d_(D), d_(F)>), (ls<d_(D), d_(E), d_(A)>), (ls<d_(B), d_(D), d_(E)>), (ls<d_(F), d_(A), d_(C)>))
OB(step_four) LISTS((ls<d_(A), d_(E), d_(C), d_(D)>), (ls<d_(F), d_(D), d_(C), d_(B)>))
OB(step_variants) LISTS(ls<d_(A2)>, (ls<d_(A2), d_(C)>), ls<d_(B2)>, (ls<d_(B2), d_(A)>), (ls<d_(A), d_(B2), d_(E)>), (ls<d_(B2), d_(E)>), (ls<d_(B2), A>))
OB(step_weighted) LISTS((lw<double, d_(A), d_(B)>), (lw<double, d_(C), d_(D), E>))
OB(step_copies) LISTS((cp<d_(A), d_(B)>), (cp<d_(C), d_(D)>), (cp<d_(F), C>), (cp<d_(D), d_(E), d_(B)>))
// the cached result of K stays what it was when K was really dropped, although what it is computed from goes on
template<class... T> static void ck() {
  typedef accumulator_set<double, features<T...> > S; S s; int mask = 0; rec o[12]; int k = 0; fill f; f.o = o; f.k = &k; s.visit(f); double x = vs_real("x"); s(x);
  double before = plain<K>(s); vs_check_eq(before, 2 * x + plain<A>(s), "result-before-drop"); s.template drop<K>(); vs_check_eq(plain<K>(s), before, "result-at-drop");
  double y = vs_real("y"); s(y); vs_check_eq(plain<K>(s), before, "dropped-result-frozen"); S c(s); s(x); vs_check_eq(plain<K>(s), before, "dropped-result-frozen"); vs_check_eq(plain<K>(c), before, "copy-keeps-frozen-result"); c(y); vs_check_eq(plain<K>(c), before, "copy-keeps-frozen-result");
  vs_cover("end");
}
template<class... T> static void cc() { typedef accumulator_set<double, features<T...> > S; S s; rec o[12]; int k = 0; fill f; f.o = o; f.k = &k; s.visit(f); S c(s); double x = vs_real("x"), y = vs_real("y"); c(x); vs_check_eq(plain<K>(c), 3 * x, "copy-before-drop-is-live"); c.template drop<K>(); c(y); vs_check_eq(plain<K>(c), 3 * x, "dropped-result-frozen"); s(y); vs_check_eq(plain<K>(s), 3 * y, "original-still-live"); vs_cover("end"); }
OB(step_cached) LISTS(ck<d_(K)>, (ck<A, d_(K)>), (ck<d_(K), d_(A)>), (ck<d_(C), d_(K)>), (ck<d_(K), d_(M), E>))
OB(step_cached_copy) LISTS(cc<d_(K)>, (cc<A, d_(K)>), (cc<d_(C), d_(K), E>))
// a listed feature that other active features need goes on until they are dropped too (order of drops irrelevant)
OB(step_needed) { accumulator_set<double, features<droppable<A>, droppable<C>, droppable<D> > > s; typedef decltype(s) S; double x = vs_real("x"), y = vs_real("y"), z = vs_real("z"), u = vs_real("u");
  s(x); s.drop<A>(); s(y); vs_check_eq(plain<A>(s), y, "still-needed"); if (vs_choose("first", 2)) { s.drop<C>(); s(z); vs_check_eq(plain<A>(s), z, "still-needed"); vs_check_eq(plain<C>(s), y, "dropped-result-frozen"); vs_check_eq(plain<B>(s), y, "dropped-result-frozen"); s.drop<D>(); }
  else { s.drop<D>(); s(z); vs_check_eq(plain<A>(s), z, "still-needed"); vs_check_eq(plain<D>(s), y, "dropped-result-frozen"); vs_check_eq(plain<E>(s), y, "dropped-result-frozen"); s.drop<C>(); }
  s(u); vs_check_eq(plain<A>(s), z, "dropped-result-frozen"); vs_cover("end"); }
// with a non-trivial result type: a result is copied and destroyed only if there is one
template<class... T> static void nt() { typedef accumulator_set<double, features<T...> > S; { S s; double x = vs_real("x"), y = vs_real("y"); s(x); S c(s); vs_check_eq(extract_result<N>(s).v, 3 * x, "result-before-drop"); int k = vs_choose("drop", 2); if (k) { s.template drop<N>(); S d(s); s(y); vs_check_eq(extract_result<N>(s).v, 3 * x, "dropped-result-frozen"); d(y); vs_check_eq(extract_result<N>(d).v, 3 * x, "copy-keeps-frozen-result"); } c(y); vs_check_eq(extract_result<N>(c).v, 3 * y, "copy-before-drop-is-live"); } vs_cover("end"); }
OB(step_cached_object) LISTS(nt<d_(N)>, (nt<A, d_(N)>), (nt<d_(N), d_(A)>), (nt<E, d_(C), d_(N)>), (nt<d_(N), E, d_(F)>))
