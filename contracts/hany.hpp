// Every cache size: std::vector and the heap algorithms as contracts (see C10_any.cpp), the tail headers bound to them.
#ifndef HANY_HPP
#define HANY_HPP
#include "vspec.hpp"
#include <vector>
#include <functional>
#include <algorithm>
#include <boost/range.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics_fwd.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/iterator/reverse_iterator.hpp>
#include <boost/iterator/permutation_iterator.hpp>
namespace vsa {
// ghost state of the one tail under contract
static double sg;                 // +1: left tail (small first), -1: right tail
static long m0, c0; static double v;
static inline double key(double x) { return sg * x; }
template<class A, class T> struct iter {
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
  A const* a; std::ptrdiff_t i; iter() : a(0), i(0) {} iter(A const* a_, std::ptrdiff_t i_) : a(a_), i(i_) {}
  reference operator*() const { return a->at_((std::size_t)i); } pointer operator->() const { return &**this; } reference operator[](std::ptrdiff_t k) const { return *(*this + k); }
  iter& operator++() { ++i; return *this; } iter& operator--() { --i; return *this; } iter operator++(int) { iter t(*this); ++i; return t; } iter operator--(int) { iter t(*this); --i; return t; }
  iter& operator+=(std::ptrdiff_t k) { i += k; return *this; } iter& operator-=(std::ptrdiff_t k) { i -= k; return *this; } iter operator+(std::ptrdiff_t k) const { return iter(a, i + k); } iter operator-(std::ptrdiff_t k) const { return iter(a, i - k); }
  std::ptrdiff_t operator-(iter const& o) const { return i - o.i; } bool operator==(iter const& o) const { return i == o.i; } bool operator!=(iter const& o) const { return i != o.i; }
  bool operator<(iter const& o) const { return i < o.i; } bool operator>(iter const& o) const { return i > o.i; } bool operator<=(iter const& o) const { return i <= o.i; } bool operator>=(iter const& o) const { return i >= o.i; }
};
}
namespace std {
enum { vs_ne = 24 };
// values: a symbolic array
template<class T> struct vs_arr {
  typedef vsa::iter<vs_arr, T> const_iterator; typedef const_iterator iterator; typedef T value_type; typedef size_t size_type;
  long n; T fill; bool lazy, samp; mutable int e; mutable size_t ix[vs_ne]; mutable T init[vs_ne], cur[vs_ne];
  vs_arr(size_t n_, T const& f) : n((long)n_), fill(f), lazy(false), samp(false), e(0) {}
  T& at_(size_t i) const {
    vs_check((long)i >= 0 && (long)i < n, "vector.in-range");
    for (int j = 0; j < e; ++j) if (ix[j] == i) return cur[j];
    ix[e] = i; T x = lazy ? (T)vs_ghost("element") : fill; init[e] = cur[e] = x;
    // invariant of the state before the step: no cached sample is worse than the front (entry 0)
    if (lazy && samp && e > 0 && (long)i < vsa::m0) vs_assume_le(vsa::key(x), vsa::key(init[0]));
    return cur[e++];
  }
  T& operator[](size_t i) { return at_(i); } T const& operator[](size_t i) const { return at_(i); }
  size_t size() const { return (size_t)n; } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, n); }
};
static vs_arr<double>* vs_samples;
// number of cached samples before v
static long vs_count(long live) { long c = vsa::c0; vs_arr<double>& s = *vs_samples; for (int j = 0; j < s.e; ++j) { if ((long)s.ix[j] < live && vsa::key(s.cur[j]) < vsa::key(vsa::v)) ++c; if ((long)s.ix[j] < vsa::m0 && vsa::key(s.init[j]) < vsa::key(vsa::v)) --c; } return c; }
// positions: a permutation of 0..n-1
template<> struct vs_arr<size_t> {
  typedef vsa::iter<vs_arr, size_t> iterator; typedef iterator const_iterator; typedef size_t value_type; typedef size_t size_type;
  long n; mutable int e; mutable size_t pos[vs_ne], val[vs_ne]; mutable bool heap, but_last; mutable int sorted;   // sorted: 1 best first, 2 worst first
  vs_arr() : n(0), e(0), heap(true), but_last(true), sorted(2) {}
  double k_(size_t i) const { return vsa::key(vs_samples->at_(i)); }
  size_t const& at_(size_t p) const {
    vs_check((long)p >= 0 && (long)p < n, "vector.in-range");
    for (int j = 0; j < e; ++j) if (pos[j] == p) return val[j];
    long i = vs_int("index", 0, 2000000000); vs_assume(i < n); for (int j = 0; j < e; ++j) vs_assume(val[j] != (size_t)i);
    for (int j = 0; j < e; ++j) if (sorted) { if ((sorted == 1) == (p < pos[j])) vs_assume_le(k_((size_t)i), k_(val[j])); else vs_assume_le(k_(val[j]), k_((size_t)i)); }
    pos[e] = p; val[e] = (size_t)i; return val[e++];
  }
  void set(size_t p, size_t i) const { pos[e] = p; val[e] = i; ++e; }
  void reserve(size_t) {} bool empty() const { return n == 0; }
  void push_back(size_t i) { vs_check_ieq((long)i, n, "positions-are-a-permutation"); set((size_t)n, i); but_last = heap; heap = false; sorted = 0; ++n; if (n == 1) { but_last = true; } }
  size_t size() const { return (size_t)n; } size_t const& operator[](size_t p) const { return at_(p); } size_t const& front() const { return at_(0); } size_t const& back() const { return at_((size_t)n - 1); }
  iterator begin() const { return iterator(this, 0); } iterator end() const { return iterator(this, n); }
};
typedef vsa::iter<vs_arr<size_t>, size_t> vs_it;
static void vs_whole(vs_it b, vs_it e) { vs_check(b.a == e.a && b.i == 0 && e.i == b.a->n, "heap-algorithm-on-the-whole-range"); }
// algorithms that look at elements one by one have no contract here: code that uses them is left to the bounded step
template<class... X> bool is_heap(vs_it, vs_it, X...) = delete; template<class... X> vs_it is_heap_until(vs_it, vs_it, X...) = delete; template<class... X> bool is_sorted(vs_it, vs_it, X...) = delete;
template<class... X> vs_it max_element(vs_it, vs_it, X...) = delete; template<class... X> vs_it min_element(vs_it, vs_it, X...) = delete;
// std::pop_heap: the worst goes last, the rest is a heap whose front is the worst of the rest
template<class C> void pop_heap(vs_it b, vs_it e, C cmp) {
  vs_whole(b, e); vs_arr<size_t> const& a = *b.a; vs_check(a.heap, "pop_heap.requires-heap"); vs_check(a.n > 0, "pop_heap.requires-nonempty"); (void)cmp;
  size_t w = a.at_(0); long c = vs_count(a.n); a.e = 0; a.set((size_t)a.n - 1, w);
  if (a.n > 1) { long j = vs_int("front", 0, 2000000000); vs_assume(j < a.n); vs_assume((size_t)j != w); double g = a.k_((size_t)j); vs_assume_le(g, a.k_(w));
    if (a.k_(w) < vsa::key(vsa::v)) --c; if (g < vsa::key(vsa::v)) vs_assume(c == a.n - 1); else vs_assume(c < a.n - 1); a.set(0, (size_t)j); }
  a.heap = a.n <= 1; a.but_last = true; a.sorted = 0;
}
// std::push_heap: the worse of the front of the old heap and the new element is the front
template<class C> void push_heap(vs_it b, vs_it e, C cmp) {
  vs_whole(b, e); vs_arr<size_t> const& a = *b.a; vs_check(a.but_last, "push_heap.requires-heap"); vs_check(a.n > 0, "push_heap.requires-nonempty");
  size_t f = a.at_(0), l = a.at_((size_t)a.n - 1); bool up = a.n > 1 && cmp(f, l); if (a.n > 1 && !up && !cmp(l, f) && vs_choose("tie", 2)) up = true;
  a.e = 0; a.set(0, up ? l : f); if (a.n == 2) a.set(1, up ? f : l); a.heap = true; a.but_last = true; a.sorted = 0;
}
// std::sort_heap: best first, by the order of the heap
template<class C> void sort_heap(vs_it b, vs_it e, C cmp) {
  vs_whole(b, e); vs_arr<size_t> const& a = *b.a; vs_check(a.heap, "sort_heap.requires-heap"); (void)cmp; if (a.n == 0) return;
  size_t w = a.at_(0); a.e = 0; a.sorted = 0; size_t l = w; if (a.n > 1 && vs_choose("tie", 2)) { long j = vs_int("last", 0, 2000000000); vs_assume(j < a.n); vs_assume_eq(a.k_((size_t)j), a.k_(w)); l = (size_t)j; }
  a.set((size_t)a.n - 1, l); a.sorted = 1; a.heap = a.n <= 1; a.but_last = a.n <= 1;
}
inline void reverse(vs_it b, vs_it e) { vs_whole(b, e); vs_arr<size_t> const& a = *b.a; for (int j = 0; j < a.e; ++j) a.pos[j] = (size_t)(a.n - 1) - a.pos[j]; a.sorted = a.sorted ? 3 - a.sorted : 0; a.heap = a.but_last = a.sorted == 2 || a.n <= 1; }
}
#define vector vs_arr
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#undef vector
using namespace boost::accumulators;
template<class Tag, class Set> auto& st(Set& s) { return find_accumulator<Tag>(s); }
#endif
