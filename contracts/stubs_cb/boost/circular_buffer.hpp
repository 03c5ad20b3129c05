// Assumed contract of boost::circular_buffer (a dependency, not part of the repository), used
// by the "any window size" obligations: the buffer is an abstract sequence of sz elements,
// 0 <= sz <= cap, of which the two oldest are named and the rest are arbitrary.  push_back
// appends, dropping the oldest element when sz == cap.  The same obligations are proved on the
// real circular_buffer for concrete window sizes in C08_step.cpp / C09_step.cpp.
#ifndef BOOST_CIRCULAR_BUFFER_HPP
#define BOOST_CIRCULAR_BUFFER_HPP
#include <cstddef>
#include <iterator>
#include "../../vspec.hpp"
namespace boost {
template<class T, class A = std::allocator<T> > struct circular_buffer {
  typedef T value_type; typedef std::size_t size_type; typedef std::size_t capacity_type; typedef T* pointer; typedef T const* const_pointer;
  typedef std::pair<const_pointer, size_type> const_array_range;
  struct const_iterator {
    typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type;
    typedef T const* pointer; typedef T const& reference;
    circular_buffer const* b; std::ptrdiff_t i;
    const_iterator() : b(0), i(0) {}
    const_iterator(circular_buffer const* b_, std::ptrdiff_t i_) : b(b_), i(i_) {}
    reference operator*() const {
      vs_check(0 <= i && (size_type)i < b->sz, "circular_buffer.deref.in-range");
      if (i == 0) return b->e0;
      if (i == 1) return b->e1;
      if ((size_type)i + 1 == b->sz) return b->back_;
      b->other = (T)vs_real("circular_buffer.other"); return b->other;
    }
    pointer operator->() const { return &**this; }
    reference operator[](std::ptrdiff_t k) const { return *(*this + k); }
    const_iterator& operator++() { ++i; return *this; } const_iterator& operator--() { --i; return *this; }
    const_iterator operator++(int) { const_iterator t(*this); ++i; return t; } const_iterator operator--(int) { const_iterator t(*this); --i; return t; }
    const_iterator& operator+=(std::ptrdiff_t k) { i += k; return *this; } const_iterator& operator-=(std::ptrdiff_t k) { i -= k; return *this; }
    const_iterator operator+(std::ptrdiff_t k) const { return const_iterator(b, i + k); } const_iterator operator-(std::ptrdiff_t k) const { return const_iterator(b, i - k); }
    std::ptrdiff_t operator-(const_iterator const& o) const { return i - o.i; }
    bool operator==(const_iterator const& o) const { return i == o.i; } bool operator!=(const_iterator const& o) const { return i != o.i; }
    bool operator<(const_iterator const& o) const { return i < o.i; } bool operator>(const_iterator const& o) const { return i > o.i; }
    bool operator<=(const_iterator const& o) const { return i <= o.i; } bool operator>=(const_iterator const& o) const { return i >= o.i; }
  };
  typedef const_iterator iterator; typedef T const& const_reference;
  size_type sz, cap; T e0, e1, back_; mutable T other;      // ghost: the two oldest elements and the newest
  T third;                                                   // ghost: what e1 becomes after a drop
  explicit circular_buffer(size_type c = 0) : sz(0), cap(c), e0(), e1(), back_(), other(), third() {}
  circular_buffer(circular_buffer const& o) : sz(o.sz), cap(o.sz < o.cap ? o.cap : o.cap), e0(o.e0), e1(o.e1), back_(o.back_), other(), third(o.third) {}
  circular_buffer& operator=(circular_buffer const& o) { sz = o.sz; cap = o.cap; e0 = o.e0; e1 = o.e1; back_ = o.back_; third = o.third; return *this; }
  void set_capacity(size_type c) { vs_check(c >= sz, "circular_buffer.set_capacity.keeps-contents"); cap = c; }
  void rset_capacity(size_type c) { set_capacity(c); }
  void push_back(T const& x) {
    if (cap == 0) return;
    if (sz == cap) {
      if (cap == 1) e0 = x;
      else if (cap == 2) { e0 = e1; e1 = x; }
      else { e0 = e1; e1 = third; third = (T)vs_real("circular_buffer.third"); }
    } else {
      if (sz == 0) e0 = x; else if (sz == 1) e1 = x; else if (sz == 2) third = x;
      ++sz;
    }
    back_ = x;
  }
  bool full() const { return sz == cap; }
  bool empty() const { return sz == 0; }
  size_type size() const { return sz; }
  size_type capacity() const { return cap; }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, (std::ptrdiff_t)sz); }
  const_reference front() const { return *begin(); }
  const_reference back() const { return back_; }
  const_reference operator[](size_type i) const { return *(begin() + (std::ptrdiff_t)i); }
  void clear() { sz = 0; }
};
}
#endif
