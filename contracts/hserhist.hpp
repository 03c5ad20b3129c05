// C25 through the public interface: save at an arbitrary moment of an arbitrary history, load into another set built with
// the same parameters, continue both.  Natively with Boost's own text and binary archives.
#include "hser.hpp"
#ifdef VS_NATIVE
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <sstream>
template<class O, class I, class A> static bool trip(A& a, A& b, bool text) { std::stringstream s; { O o(s); a.serialize(o, 0u); } std::string t = s.str(); if (text && (t.find("nan") != std::string::npos || t.find("inf") != std::string::npos)) return false;
  try { I i(s); b.serialize(i, 0u); } catch (std::exception const&) { vs_check(false, "archive-can-be-read-back"); } return true; }
#endif
template<class G> static void same(typename G::A& a, typename G::A& b, const char* what) { double p[64], q[64]; int n = G::q(a, p), m = G::q(b, q); vs_check_ieq(n, m, what); for (int i = 0; i < n && i < m; ++i) vs_check_bits(p[i], q[i], what); }
template<class G, bool UF = true> static void hist(int hi, bool later = true) {
  typedef typename G::A A; if (UF) vs_flag("uf", 1); else vs_flag("nlskip", 1); A* a = G::make(); A* b = G::make(); long n = vs_len("n", hi, hi, 24), at = vs_native() ? vs_choose("save-at", (int)n + 1) : later ? hi - 1 : hi; static double past[4096]; bool loaded = false;
  if (vs_native() && vs_choose("target-used", 2)) { int k = 1 + vs_choose("used", 6); for (int i = 0; i < k; ++i) { smp u = {2.5 + 3. * ((5 * i) % 7), 1.5 + i, 4. - i}; G::push(*b, u); } }
  for (long i = 0; i <= n; ++i) {
    if (i == at) {
#ifdef VS_NATIVE
      if (vs_choose("archive", 2)) loaded = trip<boost::archive::text_oarchive, boost::archive::text_iarchive>(*a, *b, true); else loaded = trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(*a, *b, false);
#else
      log_t l; { sav o(l); a->serialize(o, 0u); } { lod r(l); b->serialize(r, 0u); r.done(); } loaded = true;
#endif
      if (!loaded) return; if (i >= G::min_q) same<G>(*a, *b, "restored-results"); }
    if (i == n) break;
    smp s = draw_smp(); if (!G::ties && vs_native()) s.x = s.x + 0.0137 * (double)((i * 37) % 101); past[i] = s.x; if (!G::ties) for (long j = 0; j < i; ++j) vs_assume_ne(past[j], s.x);
    G::push(*a, s); if (loaded) { G::push(*b, s); if (i + 1 >= G::min_q) same<G>(*a, *b, "results-after-later-samples"); } else if (vs_native() && i + 1 >= G::min_q && vs_choose("ask", 2)) { double p[64]; G::q(*a, p); }
  }
  vs_cover("end");
}
#define CT(name, n, ...) OB(hist_##name) { hist<__VA_ARGS__>(n); }
