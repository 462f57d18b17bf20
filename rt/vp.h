// Interface between harnesses and the symbolic executor (or, with -DVP_NATIVE, the concrete replayer).
#pragma once
#include <cstdint>
#include <cmath>
extern "C" {
long   vp_int(const char* name, long lo, long hi);          // symbolic integer in [lo,hi]
long   vp_choose(const char* name, long lo, long hi);       // case split: one path per value (used for sizes/shapes)
double vp_real(const char* name, double lo, double hi);     // symbolic real number
double vp_realint(const char* name, double lo, double hi);  // symbolic real restricted to integers
double vp_fp64(const char* name);                           // symbolic IEEE-754 double (any bit pattern class)
float  vp_fp32(const char* name);
void   vp_assume(bool c);
void   vp_assert(bool c, const char* what);
void   vp_assert_eq(double a, double b, const char* what);  // equality up to 1e-9 (engine) / relative 1e-7 (replay)
void   vp_assert_le(double a, double b, const char* what);
void   vp_cover(const char* name);                          // must be reached by some feasible path
void   vp_note(const char* text);
}
#define VP_ENTRY(name) extern "C" void vp_main_##name()
// no short-circuit forks in oracles
static inline bool vp_and(bool a, bool b){ return (bool)((int)a & (int)b); }
static inline bool vp_or(bool a, bool b){ return (bool)((int)a | (int)b); }
static inline bool vp_not(bool a){ return (bool)((int)a ^ 1); }
static inline bool vp_implies(bool a, bool b){ return vp_or(vp_not(a),b); }
