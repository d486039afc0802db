// Harness primitives.  The same harness source is (1) compiled to LLVM IR and executed symbolically and
// (2) compiled natively (g++-9, the compiler of the real build) to replay models against the real code.
#pragma once
#include <stdexcept>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstddef>
extern "C" {
/// An arbitrary integer in [lo, hi] (a symbolic variable).
long vf_int(const char* name, long lo, long hi);
/// Restrict the inputs considered.
void vf_assume(bool c);
/// The property: must hold for every value of the symbolic inputs on every path.
void vf_assert(bool c, const char* label);
/// Reachability witness.
void vf_reach(const char* label);
/// Case split: returns x, forking over each of its feasible values.
long vf_split(long x);
/// Number of live heap blocks.
long vf_heap_live(void);
/// Makes subsequently malloc'ed blocks start at (multiple of 4096) + skew bytes.
void vf_heap_skew(long skew);
/// Records an observable value (compared between the symbolic run and the native replay).
void vf_observe(const char* label, long v);
void vf_observe_d(const char* label, double v);
/// Same floating-point value (NaN equals NaN).
bool vf_same_d(double a, double b);
bool vf_same_f(float a, float b);
/// 1 in the symbolic run, 0 natively.
int vf_symbolic(void);
}
#define VF_CASE(name) extern "C" __attribute__((noinline)) void vf_main_##name()
/// A case-split integer: concrete on each path.
static inline long vf_pick(const char* name, long lo, long hi) { return vf_split(vf_int(name, lo, hi)); }
/// An arbitrary double m * 2^-frac with m in [lo, hi].
/// One of the sizes in a list: small ones, and larger ones around powers of two (where blocked or unrolled loops change regime).
static inline long vf_size(const char* name, long small, bool large = true) {
  static const long sizes[] = {5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 129};
  const long k = vf_pick(name, 0, small + (large ? 11 : 0));
  return k <= small ? k : sizes[k - small - 1];
}
static inline double vf_dyadic(const char* name, long lo, long hi, int frac = 0) { return double(vf_int(name, lo, hi)) / double(1L << frac); }
template <typename F> static inline bool vf_throws(F&& f) { try { f(); } catch (...) { return true; } return false; }
template <typename TExc, typename F> static inline bool vf_throws_as(F&& f) { try { f(); } catch (const TExc&) { return true; } return false; }
