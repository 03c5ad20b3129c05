// Contract language of the verifier.  A contract is a C++ function ob_*() over the
// real headers: it havocs the inputs (and, in inductive obligations, the accumulator
// state), states the precondition with vs_assume*, runs the real code and states the
// postcondition with vs_check*.  Under the verifier every vs_* call is interpreted
// symbolically; vnative.cpp implements the same calls for native replay.
#ifndef VSPEC_HPP
#define VSPEC_HPP
#define BOOST_NO_EXCEPTIONS 1
#define BOOST_ENABLE_ASSERT_HANDLER 1
#include <exception>
#include <boost/config.hpp>
#include <cstddef>
#include <cmath>
extern "C" {
  double vs_real(const char* name);                    // an arbitrary finite real input
  double vs_ghost(const char* name);                   // arbitrary real ghost (inductive state)
  long   vs_int(const char* name, long lo, long hi);   // an arbitrary integer in [lo,hi]
  int    vs_choose(const char* name, int n);           // case split 0..n-1
  long   vs_len(const char* name, int lo, int hi, int nathi); // history length: all of lo..hi (natively up to nathi)
  int    vs_native();                                  // 0 under the verifier
  void   vs_flag(const char* name, int v);
  void   vs_assume(bool);
  void   vs_assume_le(double, double);
  void   vs_assume_lt(double, double);
  void   vs_assume_eq(double, double);
  void   vs_assume_ne(double, double);
  void   vs_check(bool, const char* obligation);
  void   vs_check_eq(double, double, const char* obligation);
  void   vs_check_bits(double, double, const char* obligation);  // bit-for-bit
  void   vs_check_le(double, double, const char* obligation);
  void   vs_check_lt(double, double, const char* obligation);
  void   vs_check_ieq(long, long, const char* obligation);
  void   vs_deep_havoc(void*, long, const char* name);           // every floating-point word of an object graph becomes arbitrary
  bool   vs_deep_same(const void*, const void*, long);           // structural equality of two object graphs
  bool   vs_isnan(double);
  bool   vs_isfinite(double);
  void   vs_cover(const char* point);
  void   vs_allow_throw();
  [[noreturn]] void vs_throw();
  [[noreturn]] void vs_assert_fail(const char* expr);
}
namespace boost {
  struct source_location;
  inline void assertion_failed(char const* e, char const*, char const*, long) { vs_assert_fail(e); }
  inline void assertion_failed_msg(char const* e, char const*, char const*, char const*, long) { vs_assert_fail(e); }
  BOOST_NORETURN inline void throw_exception(std::exception const&);
  BOOST_NORETURN inline void throw_exception(std::exception const&, boost::source_location const&);
}
namespace boost {
  inline void throw_exception(std::exception const&) { vs_throw(); }
  inline void throw_exception(std::exception const&, boost::source_location const&) { vs_throw(); }
}
#ifdef VS_NATIVE
extern "C" { struct vs_entry { const char* name; void (*fn)(); vs_entry* next; }; extern vs_entry* vs_entries; }
#define OB(name) extern "C" void ob_##name(); \
  static vs_entry vs_e_##name = {"ob_" #name, &ob_##name, 0}; \
  static int vs_r_##name = (vs_e_##name.next = vs_entries, vs_entries = &vs_e_##name, 0); \
  extern "C" void ob_##name()
#else
#define OB(name) extern "C" void ob_##name()
#endif
#endif
