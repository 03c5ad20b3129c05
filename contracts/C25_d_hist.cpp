// flags: -fexceptions
// libs: -lboost_serialization
// known finding: that a feature has been dropped is not part of the saved state
#include "hserhist.hpp"
OB(hist_dropped) { typedef accumulator_set<double, features<droppable<tag::sum> > > A; A a, b; double x = vs_real("x"), y = vs_real("y"); a(x); a.drop<tag::sum>(); bool loaded = false;
#ifdef VS_NATIVE
  loaded = trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(a, b, false);
#else
  log_t l; { sav o(l); a.serialize(o, 0u); } { lod r(l); b.serialize(r, 0u); r.done(); } loaded = true;
#endif
  a(y); b(y); vs_check_eq(sum(b), sum(a), "dropped-feature-stays-dropped"); vs_cover("end"); }
