// Generic state access for contracts over whole accumulator sets: archives that walk the members an
// accumulator lists in its own serialize().  Used to havoc, copy and compare accumulator states.
#ifndef HSTATE_HPP
#define HSTATE_HPP
#include "hutil.hpp"
#include <type_traits>
#include <boost/tuple/tuple.hpp>
#define BUFN 4096
struct tape { double d[BUFN]; long k[BUFN]; int nd, nk; tape() : nd(0), nk(0) {} };
template<class D> struct ar_base {
  typedef int is_walker;
  template<class T> D& operator&(T& t) { self().go(t); return self(); }
  template<class T> D& operator&(T const& t) { self().go(const_cast<T&>(t)); return self(); }
  D& self() { return static_cast<D&>(*this); }
  template<class T, std::size_t N> void go(T (&a)[N]) { for (std::size_t i = 0; i < N; ++i) self().go(a[i]); }
  template<class T> auto go(T& t) -> std::enable_if_t<std::is_class<T>::value && !std::is_convertible<T, double>::value, decltype(t.serialize(self(), 0u), void())> { t.serialize(self(), 0u); }
  template<class T> auto go(T& t) -> std::enable_if_t<std::is_arithmetic<T>::value> { if (std::is_floating_point<T>::value) { double d = (double)t; self().f(d); t = (T)d; } else { long k = (long)t; self().k(k, std::is_same<T, bool>::value); t = (T)k; } }
  template<class T> auto go(T& t) -> decltype(t.size(), t.begin(), void()) { self().seq(t); }
  template<class A, class B, class C> void go(boost::tuple<A, B, C>& p) { self().go(p.template get<0>()); self().go(p.template get<1>()); self().go(p.template get<2>()); }
  template<class A, class B> void go(std::pair<A, B>& p) { self().go(p.first); self().go(p.second); }
};
struct havoc_ar : ar_base<havoc_ar> { using ar_base<havoc_ar>::go;
  void f(double& d) { d = vs_ghost("s"); } void k(long& k, bool b) { if (b) k = 1; }   // sizes are configuration; flags become "dirty"
  template<class T> void seq(T& t) { for (auto& e : t) go(e); } };
struct save_ar : ar_base<save_ar> { using ar_base<save_ar>::go; tape& t; save_ar(tape& t) : t(t) {}
  void f(double& d) { t.d[t.nd++] = d; } void k(long& k, bool) { t.k[t.nk++] = k; }
  template<class T> void seq(T& q) { t.k[t.nk++] = (long)q.size(); for (auto& e : q) go(e); } };
struct load_ar : ar_base<load_ar> { using ar_base<load_ar>::go; tape& t; int id, ik; load_ar(tape& t) : t(t), id(0), ik(0) {}
  void f(double& d) { vs_check(id < t.nd, "state-shape"); d = t.d[id++]; } void k(long& k, bool) { vs_check(ik < t.nk, "state-shape"); k = t.k[ik++]; }
  template<class T> void seq(T& q) { long n = t.k[ik++]; q.resize(n); for (auto& e : q) go(e); } };
struct cmp_ar : ar_base<cmp_ar> { using ar_base<cmp_ar>::go; tape& t; int id, ik; const char* what; cmp_ar(tape& t, const char* w) : t(t), id(0), ik(0), what(w) {}
  void f(double& d) { vs_check(id < t.nd, what); vs_check_bits(d, t.d[id++], what); } void k(long& k, bool) { vs_check(ik < t.nk, what); vs_check_ieq(k, t.k[ik++], what); }
  template<class T> void seq(T& q) { vs_check_ieq((long)q.size(), t.k[ik++], what); for (auto& e : q) go(e); }
  void done() { vs_check(id == t.nd && ik == t.nk, what); } };
template<class A, class Ar> auto walk(A& a, Ar& ar, int) -> decltype(a.serialize(ar, 0u), void()) { a.serialize(ar, 0u); }
template<class A, class Ar> void walk(A&, Ar&, long) {}
// visitors over a set
struct havoc_all { template<class A> void operator()(A& a) const { havoc_ar h; walk(a, h, 0); } };
template<class S> struct copy_from { S* s; template<class A> void operator()(A& a) const { tape t; save_ar o(t); walk(find_accumulator<typename A::feature_tag>(*s), o, 0); load_ar i(t); walk(a, i, 0); } };
template<class S> struct same_as { S* s; const char* what; template<class A> void operator()(A& a) const { tape t; save_ar o(t); walk(find_accumulator<typename A::feature_tag>(*s), o, 0); cmp_ar c(t, what); walk(a, c, 0); c.done(); } };
template<class S1, class S2> void copy_state(S1& from, S2& to) { copy_from<S1> c; c.s = &from; to.visit(c); }
template<class S1, class S2> void check_same_state(S1& ref, S2& s, const char* what) { same_as<S1> c; c.s = &ref; c.what = what; s.visit(c); }
// every floating-point member arbitrary, every count arbitrary (>= lo), caches dirty
template<class A> inline auto set_cnt(A& a, long n, int) -> decltype(a.cnt, void()) { a.cnt = n; }
template<class A> inline void set_cnt(A&, long, long) {}
struct cnt_all { long n; template<class A> void operator()(A& a) const { set_cnt(a, n, 0); } };
template<class S> void havoc_state(S& s, long lo = 1) { s.visit(havoc_all()); cnt_all c; c.n = vs_int("cnt", lo, CNT_MAX); s.visit(c); }
#endif
