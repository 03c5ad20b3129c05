#include "hser.hpp"
template<class G> static void same(typename G::A& a, typename G::A& b, const char* what) { double p[64], q[64]; int n = G::q(a, p), m = G::q(b, q); vs_check_ieq(n, m, what); for (int i = 0; i < n && i < m; ++i) vs_check_bits(p[i], q[i], what); }
template<class G> static void some(typename G::A& a, int n) { for (int i = 0; i < n; ++i) { smp u = {2.5 + 3. * ((5 * i) % 7), 1.5 + i, 4. - i}; G::push(a, u); } }
template<class G> static void round_trip() {
  typedef typename G::A A; vs_flag("uf", 1); static const int ns[] = {0, 1, 3, 9}; int n = ns[vs_choose("samples-so-far", 4)]; A* a = G::make(); some<G>(*a, n); if (n >= G::min_q && n >= 3 && vs_choose("queried", 2)) { double o[64]; G::q(*a, o); }
  if (n) { vs_deep_havoc(a, sizeof(A), "s"); if (n > 8) { cnt_all c; c.n = vs_int("cnt", 9, CNT_MAX); a->visit(c); } }
  A* b = G::make(); int used = vs_choose("target-used", 3); if (used) some<G>(*b, used == 1 ? 2 : 8); A ref(*a);
  log_t l; { sav o(l); a->serialize(o, 0u); } { lod i(l); b->serialize(i, 0u); i.done(); }
  vs_check(vs_deep_same(&ref, a, sizeof(A)), "saving-leaves-the-set-alone");
  if (!vs_deep_same(a, b, sizeof(A))) { if (n >= G::min_q) same<G>(*a, *b, "restored-results"); smp u = draw_smp(); G::push(*a, u); G::push(*b, u); if (n + 1 >= G::min_q) same<G>(*a, *b, "results-after-a-later-sample"); vs_check(vs_deep_same(a, b, sizeof(A)), "restored-state"); }
  else vs_check(true, "restored-state");
  vs_cover("end");
}
#define S(name, ...) OB(step_##name) { round_trip<__VA_ARGS__>(); }
