#include <cstring>
#include "lt.h"
#include <LitlTransforms/Interpolation.h>
// NOTE: shapes up to 4 along each axis (up to 4097x3 in a dedicated case), dimensions 1 to 5 and variable, positions within [-20, 20] for each coordinate (well beyond twice the lengths; [-10^18, 10^18] for constants and nearest neighbors, and a few far periods up to 2^60), any element values; constants of the element type, of any value (types of 8 to 64 bits, integral or real)

template <Index N, typename TRaster, typename F>
static void check(const TRaster& r, const Position<N>& shape, Index dim, F&& f) {
  const auto p = symPos<N>("p", dim, -20, 20);
  f(r, shape, p, dim);
  vf_reach("end");
}
template <Index N>
static Raster<int, N> make(Index dim, Index max, Position<N>& shape) {
  shape = pickPos<N>("shape", dim, 1, max);
  Raster<int, N> r(shape);
  symFill(r, "e");
  return r;
}
template <Index N>
static void constantCase(Index dim, Index max) {
  Position<N> shape(dim);
  auto r = make<N>(dim, max, shape);
  const int c = vf_int("c", -1000000, 1000000);
  const auto p = symPos<N>("p", dim, -20, 20);
  bool in = true;
  for (Index i = 0; i < dim; ++i) in = in && p[i] >= 0 && p[i] < shape[i];
  const auto x = extrapolate(r, c);
  const int v = x[p];
  if (in) vf_assert(v == r.data()[refIndex(shape, p, dim)], "inside: the element");
  else vf_assert(v == c, "outside: the constant");
  vf_assert(x.shape() == shape && x.domain() == r.domain() && &x.raster() == &r && &rasterize(x) == &r, "decorated raster");
  vf_reach("end");
}
VF_CASE(constant1) { constantCase<1>(1, 4); }
VF_CASE(constant2) { constantCase<2>(2, 3); }
VF_CASE(constant3) { constantCase<3>(3, 2); }
VF_CASE(constantv) { constantCase<-1>(2, 3); }

template <Index N>
static void nearestCase(Index dim, Index max) {
  Position<N> shape(dim);
  auto r = make<N>(dim, max, shape);
  const auto p = symPos<N>("p", dim, -20, 20);
  Position<N> q(dim);
  for (Index i = 0; i < dim; ++i) q[i] = p[i] < 0 ? 0 : p[i] >= shape[i] ? shape[i] - 1 : p[i];
  const auto x = extrapolate<NearestNeighbor>(r);
  vf_assert(x[p] == r.data()[refIndex(shape, q, dim)], "the element at the nearest inside position");
  const auto x2 = extrapolate(r);
  vf_assert(x2[p] == x[p], "default method");
  vf_reach("end");
}
VF_CASE(nearest1) { nearestCase<1>(1, 4); }
VF_CASE(nearest2) { nearestCase<2>(2, 3); }
VF_CASE(nearest3) { nearestCase<3>(3, 2); }
VF_CASE(nearestv) { nearestCase<-1>(2, 3); }

template <Index N>
static void periodicCase(Index dim, Index max) {
  Position<N> shape(dim);
  auto r = make<N>(dim, max, shape);
  const auto p = symPos<N>("p", dim, -20, 20);
  Position<N> q(dim);
  for (Index i = 0; i < dim; ++i) q[i] = (p[i] + 60 * shape[i]) % shape[i];
  const auto x = extrapolate<Periodic>(r);
  vf_assert(x[p] == r.data()[refIndex(shape, q, dim)], "the element at the position modulo the shape");
  vf_reach("end");
}
VF_CASE(periodic1) { periodicCase<1>(1, 4); }
VF_CASE(periodic2) { periodicCase<2>(2, 3); }
VF_CASE(periodic3) { periodicCase<3>(3, 2); }
VF_CASE(periodicv) { periodicCase<-1>(2, 3); }

// the extrapolator follows the raster; other element types and holders
VF_CASE(follows) {
  std::vector<double> d(4);
  for (auto& e : d) e = vf_dyadic("e", -1000, 1000, 2);
  PtrRaster<double, 2> r({2, 2}, d.data());
  const auto x = extrapolate(r, 0.25);
  const auto p = symPos<2>("p", 2, -3, 4);
  const auto n = extrapolate<NearestNeighbor>(r);
  d[3] = vf_dyadic("new", -1000, 1000, 2);
  vf_assert((n[{5, 7}] == d[3]), "elements are read when accessed");
  const bool in = p[0] >= 0 && p[0] < 2 && p[1] >= 0 && p[1] < 2;
  vf_assert(x[p] == (in ? d[p[0] + 2 * p[1]] : 0.25), "constant");
  vf_reach("end");
}
// clamping
template <Index N>
static void clampCase(Index dim) {
  const auto p = symPos<N>("p", dim, -1000000000, 1000000000);
  const auto s = symPos<N>("s", dim, 1, 1000000000);
  const auto c = clamp(p, s);
  for (Index i = 0; i < dim; ++i) {
    vf_assert(c[i] >= 0 && c[i] < s[i], "inside");
    vf_assert(p[i] < 0 ? c[i] == 0 : p[i] >= s[i] ? c[i] == s[i] - 1 : c[i] == p[i], "nearest");
  }
  vf_assert((Index)c.size() == dim, "dimension");
  vf_reach("end");
}
VF_CASE(clamp3) { clampCase<3>(3); }
VF_CASE(clampv) { clampCase<-1>(2); }
// far positions: constants and nearest neighbors anywhere, periods up to 2^61
static const long FAR = 1000000000000000000l;
template <Index N>
static void farCase(Index dim, Index max) {
  Position<N> shape(dim);
  auto r = make<N>(dim, max, shape);
  const auto p = symPos<N>("p", dim, -FAR, FAR);
  Position<N> q(dim);
  bool in = true;
  for (Index i = 0; i < dim; ++i) {
    in = in & (p[i] >= 0) & (p[i] < shape[i]);
    q[i] = p[i] < 0 ? 0 : p[i] >= shape[i] ? shape[i] - 1 : p[i];
  }
  const auto x = extrapolate(r, 2000000);
  const auto n = extrapolate<NearestNeighbor>(r);
  if (in) vf_assert(x[p] == r.data()[refIndex(shape, p, dim)], "inside: the element");
  else vf_assert(x[p] == 2000000, "outside: the constant");
  vf_assert(n[p] == r.data()[refIndex(shape, q, dim)], "the element at the nearest inside position");
  vf_reach("end");
}
VF_CASE(far1) { farCase<1>(1, 4); }
VF_CASE(far2) { farCase<2>(2, 2); }
VF_CASE(far4) { farCase<4>(4, 2); }
VF_CASE(farv) { farCase<-1>(vf_pick("dim", 1, 3), 2); }
template <Index N>
static void farPeriodicCase(Index dim, Index max) {
  static const long periods[] = {0, 1, -1, 30000, -40000, 2147483648l, -2147483648l, 4294967296l, -4294967297l, 1l << 40, -(1l << 60)};
  Position<N> shape(dim);
  auto r = make<N>(dim, max, shape);
  Position<N> p(dim), q(dim);
  for (Index i = 0; i < dim; ++i) {
    q[i] = vf_pick("q", 0, shape[i] - 1);
    p[i] = q[i] + shape[i] * periods[vf_pick("k", 0, i < 1 ? 10 : 8)];
  }
  const auto x = extrapolate<Periodic>(r);
  vf_assert(x[p] == r.data()[refIndex(shape, q, dim)], "the element at the position modulo the shape");
  vf_reach("end");
}
VF_CASE(farPeriodic1) { farPeriodicCase<1>(1, 7); }
VF_CASE(farPeriodic2) { farPeriodicCase<2>(2, 3); }
VF_CASE(farPeriodicv) { farPeriodicCase<-1>(vf_pick("dim", 1, 2), 2); }
VF_CASE(constant4) { constantCase<4>(4, 2); }
VF_CASE(nearest4) { nearestCase<4>(4, 2); }
VF_CASE(periodic4) { periodicCase<4>(4, 2); }
VF_CASE(constant1_long) { constantCase<1>(1, 12); }
VF_CASE(nearest1_long) { nearestCase<1>(1, 12); }
VF_CASE(periodic1_long) { periodicCase<1>(1, 9); }
// large rasters
VF_CASE(large) {
  const long w = pickLarge("w", 4097), h = vf_pick("h", 1, 3);
  Raster<int> r({w, h});
  for (long i = 0; i < w * h; ++i) r[i] = int(i);
  const long xs[] = {-70000, -w - 1, -w, -1, 0, w - 1, w, 2 * w - 1, 70000}, x = xs[vf_pick("x", 0, 8)], y = vf_pick("y", -2, 4);
  const long cx = x < 0 ? 0 : x >= w ? w - 1 : x, cy = y < 0 ? 0 : y >= h ? h - 1 : y;
  const long px = ((x % w) + w) % w, py = ((y % h) + h) % h;
  const int c = vf_int("c", -1000000, 1000000);
  const Position<2> p {x, y};
  vf_assert(extrapolate<NearestNeighbor>(r)[p] == cx + cy * w, "nearest neighbor");
  vf_assert(extrapolate<Periodic>(r)[p] == px + py * w, "period");
  const auto k = extrapolate(r, c);
  vf_assert(k[p] == (x == cx && y == cy ? int(x + y * w) : c), "constant");
  vf_reach("end");
}
VF_CASE(constant5) { constantCase<5>(5, 2); }
VF_CASE(nearest5) { nearestCase<5>(5, 2); }
VF_CASE(periodic5) { periodicCase<5>(5, 2); }
VF_CASE(nearestv5) { nearestCase<-1>(vf_pick("dim", 4, 5), 2); }
VF_CASE(periodicv5) { periodicCase<-1>(vf_pick("dim", 4, 5), 2); }
// constants and elements of any type and value
template <typename T>
static T anyBits(const char* n) {
  const long v = vf_int(n, std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  T t;
  std::memcpy((void*)&t, (const void*)&v, sizeof(T));
  return t;
}
template <typename T>
static bool sameBits(T a, T b) {
  long x = 0, y = 0;
  std::memcpy((void*)&x, (const void*)&a, sizeof(T));
  std::memcpy((void*)&y, (const void*)&b, sizeof(T));
  return x == y;
}
template <typename T, Index N>
static void typedCase() {
  Position<N> shape(2);
  shape[0] = 3;
  shape[1] = 2;
  Raster<T, N> r(shape);
  for (auto& e : r) e = anyBits<T>("e");
  const T c = anyBits<T>("c");
  Position<N> p(2);
  p[0] = vf_pick("x", -1, 3);
  p[1] = vf_pick("y", -1, 2);
  const long x = p[0] < 0 ? 0 : p[0] > 2 ? 2 : p[0], y = p[1] < 0 ? 0 : p[1] > 1 ? 1 : p[1];
  const T expected = x == p[0] && y == p[1] ? r.data()[x + 3 * y] : c;
  vf_assert(sameBits<T>(extrapolate(r, c)[p], expected), "constant");
  vf_assert(sameBits<T>(extrapolate<OutOfBoundsConstant<T>>(r, c)[p], expected), "constant");
  vf_assert(sameBits<T>(extrapolate<NearestNeighbor>(r)[p], r.data()[x + 3 * y]), "nearest");
  vf_assert(sameBits<T>(extrapolate<Periodic>(r)[p], r.data()[(p[0] + 3) % 3 + 3 * ((p[1] + 2) % 2)]), "periodic");
  vf_reach("end");
}
VF_CASE(typed_long) { typedCase<long, 2>(); }
VF_CASE(typed_ulong) { typedCase<unsigned long, -1>(); }
VF_CASE(typed_double) { typedCase<double, 2>(); }
VF_CASE(typed_float) { typedCase<float, -1>(); }
VF_CASE(typed_uint) { typedCase<unsigned int, 2>(); }
VF_CASE(typed_short) { typedCase<short, 2>(); }
VF_CASE(typed_uchar) { typedCase<unsigned char, 2>(); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_constant) { constantCase<1>(1, 2); constantCase<1>(1, 3); constantCase<2>(2, 2); constantCase<2>(2, 1); }
VF_CASE(again_nearest) { nearestCase<1>(1, 2); nearestCase<1>(1, 3); nearestCase<2>(2, 2); nearestCase<2>(2, 2); }
VF_CASE(again_periodic) { periodicCase<1>(1, 2); periodicCase<1>(1, 3); periodicCase<2>(2, 2); periodicCase<2>(2, 2); }
VF_CASE(again_variable) { constantCase<-1>(1, 2); constantCase<-1>(2, 2); nearestCase<-1>(2, 2); nearestCase<-1>(1, 2); }
