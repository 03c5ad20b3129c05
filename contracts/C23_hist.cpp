// C23 through the public interface: samples, queries, drops in any order and copies interleaved.
#include "hdrop.hpp"
using namespace dt;
typedef void (*fn_t)();
#define LISTS(...) { static const fn_t f[] = { __VA_ARGS__ }; int i = vs_choose("list", sizeof f / sizeof *f); f[i](); }
#define d_(T) droppable<T>
struct ghost { double x[9]; long n[9]; };
struct look { ghost* g; template<class P> void operator()(P& p) const { int b = clo<typename P::feature_tag>::own, i = 0; while (b >> (i + 1)) ++i; vs_check_ieq(p.n, g->n[i], "updated-exactly-while-active"); vs_check_eq(p.x, g->x[i], "result-frozen-or-following"); } };
template<class S, class... T> static void run(S& s, ghost& g, int& mask, long n, bool dr) {
  int nd = ndrop<T...>(); look l; l.g = &g;
  for (long i = 0; i < n; ++i) {
    if (dr) { int c = vs_choose("drop", nd + 2); if (c < nd && !(mask >> c & 1)) { drop_nth<S, T...>(s, c); mask |= 1 << c; s.visit(l); } }
    double x = vs_real("x"); s(x); int a = active<T...>(mask); for (int k = 0; k < 9; ++k) if (a >> k & 1) { g.x[k] = x; ++g.n[k]; } s.visit(l);
  }
}
template<class... T> static void ls() { typedef accumulator_set<double, features<T...> > S; S s; ghost g = {}; int mask = 0; long n = vs_len("n", 3, 3, 8), at = vs_native() ? vs_choose("copy-at", (int)n + 1) : 1;
  run<S, T...>(s, g, mask, at, true); S c(s); ghost h = g; int m2 = mask; run<S, T...>(s, g, mask, n - at, true); look l; l.g = &h; c.visit(l); run<S, T...>(c, h, m2, vs_native() ? 3 : 1, true); l.g = &g; s.visit(l); vs_cover("end"); }
OB(hist_a) LISTS(ls<d_(A)>, (ls<d_(A), d_(B)>), (ls<d_(C), d_(D)>), (ls<d_(D), d_(C)>), (ls<d_(F), d_(C)>), (ls<A, d_(B), d_(C)>), (ls<d_(F), d_(D), E>), (ls<d_(B), d_(D), d_(E)>), (ls<d_(A), d_(B2), d_(E)>), (ls<d_(B2), d_(A)>))
// real features against plain sums
struct rg { double s, mn, mx; long c; };
OB(hist_real) {
  typedef accumulator_set<double, features<droppable<tag::mean>, droppable<tag::sum>, droppable<tag::min>, tag::max, droppable<tag::count> > > S; S s; rg g = {0, 0, 0, 0}; bool dm = false, dsu = false, dmi = false, dc = false; double fm = 0; long n = vs_len("n", 3, 3, 10);
  for (long i = 0; i < n; ++i) {
    double x = vs_real("x"); s(x); if (!dsu || !dm) g.s += x; if (!dc || !dm) ++g.c; g.mn = i == 0 || (!dmi && x < g.mn) ? x : g.mn; g.mx = i == 0 || x > g.mx ? x : g.mx;
    vs_check_eq(sum(s), g.s, "sum"); vs_check_ieq((long)count(s), g.c, "count"); vs_check_eq(mean(s), g.s / g.c, "mean"); vs_check_eq((min)(s), g.mn, "min"); vs_check_eq((max)(s), g.mx, "max");
    int k = vs_choose("drop", 6); if (k == 0 && !dm) { s.drop<tag::mean>(); dm = true; } if (k == 1 && !dsu) { s.drop<tag::sum>(); dsu = true; } if (k == 2 && !dmi) { s.drop<tag::min>(); dmi = true; } if (k == 3 && !dc) { s.drop<tag::count>(); dc = true; }
    vs_check_eq(sum(s), g.s, "drop-keeps-results"); vs_check_ieq((long)count(s), g.c, "drop-keeps-results"); vs_check_eq(mean(s), g.s / g.c, "drop-keeps-results"); (void)fm;
  }
  vs_cover("end");
}
OB(hist_immediate) { typedef accumulator_set<double, features<droppable<tag::mean(immediate)>, droppable<tag::sum>, droppable<tag::variance> > > S; S s; double t = 0, u = 0; long n = vs_len("n", 3, 3, 10), c = 0, d = 0; bool dm = false, ds = false, dv = false;
  for (long i = 0; i < n; ++i) { double x = vs_real("x"); s(x); if (!ds) t += x; if (!dm || !dv) { u += x; ++c; } vs_check_eq(sum(s), t, "sum"); vs_check_eq(mean(s), u / c, "mean"); vs_check_ieq((long)count(s), c, "count"); double v = variance(s);
    int k = vs_choose("drop", 5); if (k == 0 && !dm) { s.drop<tag::mean>(); dm = true; } if (k == 1 && !ds) { s.drop<tag::sum>(); ds = true; } if (k == 2 && !dv) { s.drop<tag::variance>(); dv = true; } vs_check_eq(variance(s), v, "drop-keeps-results"); (void)d; }
  vs_cover("end"); }
OB(hist_weighted) { typedef accumulator_set<double, features<droppable<tag::mean>, droppable<tag::count>, droppable<tag::sum_of_weights> >, double> S; S s; double t = 0, sw = 0, tm = 0; long n = vs_len("n", 3, 3, 10), c = 0; bool dm = false, dc = false, dw = false;
  for (long i = 0; i < n; ++i) { double x = vs_real("x"), w = w_in("w"); s(x, weight = w); if (!dm) t += x * w; if (!dm || !dw) sw += w; if (!dc) ++c; vs_check_eq(weighted_mean(s), t / sw, "mean"); vs_check_eq(sum_of_weights(s), sw, "weights"); vs_check_ieq((long)count(s), c, "count"); (void)tm;
    int k = vs_choose("drop", 5); if (k == 0 && !dm) { s.drop<tag::mean>(); dm = true; } if (k == 1 && !dc) { s.drop<tag::count>(); dc = true; } if (k == 2 && !dw) { s.drop<tag::sum_of_weights>(); dw = true; } }
  vs_cover("end"); }
OB(hist_cached) { typedef accumulator_set<double, features<tag::count, droppable<K>, droppable<A> > > S; S s; bool dk = false; double fr = 0, last = 0; long n = vs_len("n", 3, 3, 8);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"); s(x); last = x; vs_check_eq(extract_result<K>(s), dk ? fr : 3 * last, "cached-result"); int k = vs_choose("drop", 3); if (k == 0 && !dk) { fr = extract_result<K>(s); s.drop<K>(); dk = true; vs_check_eq(extract_result<K>(s), fr, "cached-result"); } S c(s); vs_check_eq(extract_result<K>(c), dk ? fr : 3 * last, "cached-result-copied"); }
  vs_cover("end"); }
OB(hist_cached_object) { typedef accumulator_set<double, features<tag::count, droppable<A>, droppable<N>, E> > S; S s; bool dk = false; double fr = 0, last = 0; long n = vs_len("n", 3, 3, 8);
  for (long i = 0; i < n; ++i) { double x = vs_real("x"); s(x); last = x; vs_check_eq(extract_result<N>(s).v, dk ? fr : 3 * last, "cached-result"); int k = vs_choose("drop", 3); if (k == 0 && !dk) { fr = extract_result<N>(s).v; s.drop<N>(); dk = true; } S c(s); vs_check_eq(extract_result<N>(c).v, dk ? fr : 3 * last, "cached-result-copied"); }
  vs_cover("end"); }
