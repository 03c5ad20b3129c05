// C22 through the public interface: a is queried at arbitrary times, b never before the end; copies taken at an
// arbitrary time, one follows the same samples, one is fed others.  (included by C22_?_hist.cpp)
#include "hcfg.hpp"
template<class G> static void same(typename G::A& a, typename G::A& b, const char* what) { double p[64], q[64]; int n = G::q(a, p), m = G::q(b, q); vs_check_ieq(n, m, what); for (int i = 0; i < n && i < m; ++i) vs_check_bits(p[i], q[i], what); }
template<class G, bool UF = true> static void hist(int hi) {
  typedef typename G::A A; if (UF) vs_flag("uf", 1); else vs_flag("nlskip", 1); A *a = G::make(), *b = G::make(), *c = 0, *d = 0, *e = 0; long n = vs_len("n", hi, hi, 24), at = vs_native() ? vs_choose("copy-at", (int)n + 1) : hi - 1; static double past[4096];
  int style = vs_native() ? vs_choose("assign", 2) : 1; bool cq = false;
  for (long i = 0; i <= n; ++i) {
    if (i == at) { c = new A(*a); if (style) { d = G::make(); if (n > 2) { smp u = {3, 1, 4}; G::push(*d, u); } *d = *a; } else d = new A(*a); e = new A(*a); }
    if (i == n) break;
    smp s = draw_smp(); past[i] = s.x; if (!G::ties) for (long j = 0; j < i; ++j) vs_assume_ne(past[j], s.x);
    if (!G::ties && vs_native()) s.x = past[i] = s.x + 0.0137 * (double)((i * 37) % 101);
    G::push(*a, s); G::push(*b, s); if (c) { G::push(*c, s); smp u = {s.x + 1.5 + 0.01 * i, s.w + 1, s.y - 2}; if (i % 2) u.x -= 7; G::push(*e, u); }
    if (i + 1 >= G::min_q && (vs_native() ? vs_choose("ask", 3) != 0 : true)) { double p[64], q[64]; int k = G::q(*a, p), m = G::q(*a, q); vs_check_ieq(k, m, "repeated-query"); for (int j = 0; j < k && j < m; ++j) vs_check_bits(p[j], q[j], "repeated-query"); if (c && vs_native() && vs_choose("askc", 2)) G::q(*c, p); }
  }
  if (n < G::min_q) return;
  same<G>(*a, *b, "queries-and-copies-do-not-disturb"); if (c) same<G>(*c, *b, "copy-follows"); 
  if (d && at >= G::min_q) { A* f = G::make(); (void)f; double p[64]; G::q(*d, p); }
  vs_cover("end");
}
// the copy keeps the results of the moment it was taken, whatever happens to the original
template<class G, bool UF = true> static void frozen(int hi) {
  typedef typename G::A A; if (UF) vs_flag("uf", 1); else vs_flag("nlskip", 1); A* a = G::make(); A* z = G::make(); long n = vs_len("n", hi, hi, 16), more = vs_native() ? 1 + vs_choose("more", 8) : 1;
  static double past[4096];
  for (long i = 0; i < n; ++i) { smp s = draw_smp(); past[i] = s.x; if (!G::ties) { for (long j = 0; j < i; ++j) vs_assume_ne(past[j], s.x); } G::push(*a, s); G::push(*z, s); if (vs_native() && i + 1 >= G::min_q && vs_choose("ask", 2)) { double p[64]; G::q(*a, p); } }
  if (n < G::min_q) return;
  A c(*a); A* d = G::make(); *d = *a; for (long i = 0; i < more; ++i) { smp s = draw_smp(); G::push(*a, s); if (vs_native() && vs_choose("ask", 2)) { double p[64]; G::q(*a, p); } }
  same<G>(c, *z, "copy-keeps-its-results"); same<G>(*d, *z, "assigned-keeps-its-results"); vs_cover("end");
}
#define CT(name, n, ...) OB(hist_##name) { hist<__VA_ARGS__>(n); }
#define CF(name, n, ...) OB(hist_frozen_##name) { frozen<__VA_ARGS__>(n); }
