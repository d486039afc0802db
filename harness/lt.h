// Helpers shared by the harnesses (raster-level).
#pragma once
#include "vf.h"
#include <LitlRaster/Raster.h>
#include <vector>
using namespace Litl;

/// A position whose coordinates are case-split.
template <Index N>
static inline Position<N> pickPos(const char* name, Index dim, long lo, long hi) {
  Position<N> p(dim);
  for (Index i = 0; i < dim; ++i) p[i] = vf_pick(name, lo, hi);
  return p;
}
/// A position with symbolic coordinates.
template <Index N>
static inline Position<N> symPos(const char* name, Index dim, long lo, long hi) {
  Position<N> p(dim);
  for (Index i = 0; i < dim; ++i) p[i] = vf_int(name, lo, hi);
  return p;
}
/// Reference index computation, independent of the library: sum of coordinates times strides.
template <typename P, typename S>
static inline long refIndex(const S& shape, const P& pos, Index dim) {
  long stride = 1, out = 0;
  for (Index i = 0; i < dim; ++i) { out += pos[i] * stride; stride *= shape[i]; }
  return out;
}
template <typename S>
static inline long refSize(const S& shape, Index dim) {
  long out = 1;
  for (Index i = 0; i < dim; ++i) out *= shape[i];
  return out;
}
/// Fill with arbitrary values.
template <typename C>
static inline void symFill(C& c, const char* name, long lo = -1000000, long hi = 1000000) {
  for (std::size_t i = 0; i < c.size(); ++i) *(c.data() + i) = static_cast<typename C::value_type>(vf_int(name, lo, hi));
}
/// A large size.
static inline long pickLarge(const char* name, long max = 70000) {
  static const long sizes[] = {255, 256, 257, 1000, 1024, 4097, 70000};
  long n = 0;
  while (n < 7 && sizes[n] <= max) ++n;
  return sizes[vf_pick(name, 0, n - 1)];
}
/// Fill with fixed values within [1, 113], but an arbitrary one at the beginning, middle or end (returns its index).
template <typename C>
static inline long largeFill(C& c, const char* name, long lo, long hi) {
  using T = typename C::value_type;
  const long n = long(c.size()), at[] = {0, n / 2 + 1, n - 1};
  for (long i = 0; i < n; ++i) *(c.data() + i) = T((i * 37 + i / 113) % 113 + 1);
  const long k = at[vf_pick("at", 0, 2)];
  *(c.data() + k) = T(vf_int(name, lo, hi));
  return k;
}
