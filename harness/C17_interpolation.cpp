#include <cstring>
#include "lt.h"
#include <LitlTransforms/Interpolation.h>
// NOTE: positions multiple of 1/4 (decimal ones within 1e-9, with fixed elements up to 4000), 1/64 and 63/64 past a pixel center along lines and planes, 1/1024 down to 1/2^40 for the linear method (so that all values are exact), integral parts within [-3, 7] beyond the domain when extrapolated, and any position whose stencil lies in the domain when not; positions beyond the range of int and up to 2^40 in dedicated cases (also away from the axes' origin, for nearest-neighbor and periodic extrapolation); shapes up to 5 along each axis in dimension 1, 4 in dimension 2, 5 in dimension 3 and 3 in dimension 4 (4 for the cubic method); any integer elements within [-1000, 1000] (the whole range of the type up to 32 bits, and [-10^10, 10^10] beyond, in dedicated cases), complex elements (linear method: the cubic one does not compile); single precision for a representative case

// reference values, from an integral-position accessor
template <typename F>
static double linear1(F&& at, long f, double d) { return (1 - d) * at(f) + d * at(f + 1); }
template <typename F>
static double cubic1(F&& at, long f, double d) { // Catmull-Rom: interpolates values, with centered differences as slopes
  const double w0 = -.5 * d + d * d - .5 * d * d * d, w1 = 1 - 2.5 * d * d + 1.5 * d * d * d, w2 = .5 * d + 2 * d * d - 1.5 * d * d * d,
               w3 = -.5 * d * d + .5 * d * d * d;
  return w0 * at(f - 1) + w1 * at(f) + w2 * at(f + 1) + w3 * at(f + 2);
}
struct P1 {
  long f;
  double d;
  double x() const { return f + d; }
};
static P1 pos(long lo, long hi) { // integral and fractional parts
  const long q = vf_pick("q", 0, 3);
  if (lo < 0 && vf_pick("negative", 0, 1)) {
    const long n = vf_int("f", lo, -1);
    return {n, q / 4.};
  }
  const long f = vf_int("f", lo < 0 ? 0 : lo, hi);
  return {f, q / 4.};
}

template <typename T>
static void fill(T* d, long n) { for (long i = 0; i < n; ++i) d[i] = vf_int("e", -1000, 1000); }

// 1D
VF_CASE(linear1) {
  const long n = vf_pick("n", 2, 5);
  Raster<int, 1> r({n});
  fill(r.data(), n);
  const auto p = pos(0, 3);
  vf_assume(p.f + 1 < n);
  const auto i = interpolate<Linear>(r);
  vf_assert(i({p.x()}) == linear1([&](long k) { return r.data()[k]; }, p.f, p.d), "linear interpolation along a line");
  vf_reach("end");
}
VF_CASE(cubic1) {
  const long n = vf_pick("n", 4, 6);
  Raster<int, 1> r({n});
  fill(r.data(), n);
  const auto p = pos(1, 3);
  vf_assume(p.f + 2 < n);
  const auto i = interpolate<Cubic>(r);
  vf_assert(i({p.x()}) == cubic1([&](long k) { return r.data()[k]; }, p.f, p.d), "cubic interpolation along a line");
  vf_reach("end");
}
VF_CASE(linear1_float) {
  Raster<float, 1> r({3});
  fill(r.data(), 3);
  const auto p = pos(0, 1);
  const auto i = interpolate<Linear>(r);
  const float v = i({p.x()});
  vf_assert(v == (float)linear1([&](long k) { return r.data()[k]; }, p.f, p.d), "single precision");
  vf_reach("end");
}
// 2D
VF_CASE(linear2) {
  const long w = vf_pick("w", 2, 4), h = vf_pick("h", 2, 3);
  Raster<int, 2> r({w, h});
  fill(r.data(), w * h);
  const auto x = pos(0, 2);
  const auto y = pos(0, 1);
  vf_assume(x.f + 1 < w && y.f + 1 < h);
  const auto i = interpolate<Linear>(r);
  const double ref = linear1([&](long l) { return linear1([&](long k) { return r.data()[k + l * w]; }, x.f, x.d); }, y.f, y.d);
  vf_assert((i({x.x(), y.x()}) == ref), "bilinear interpolation");
  vf_assert((i[{x.f, y.f}] == r.data()[x.f + y.f * w]), "integral positions");
  vf_assert(i.shape() == r.shape() && i.domain() == r.domain() && &i.raster() == &r, "decorated raster");
  vf_reach("end");
}
VF_CASE(linear3) {
  Raster<int, 3> r({2, 3, 2});
  fill(r.data(), 12);
  const double x = vf_pick("x", 0, 3) / 4., z = vf_pick("z", 0, 3) / 4.;
  const auto y = pos(0, 1);
  const auto i = interpolate<Linear>(r);
  const double ref = linear1([&](long m) { return linear1([&](long l) { return linear1([&](long k) { return r.data()[k + l * 2 + m * 6]; }, 0, x); }, y.f, y.d); }, 0, z);
  vf_assert((i({x, y.x(), z}) == ref), "trilinear interpolation");
  vf_reach("end");
}
VF_CASE(cubic2) {
  Raster<int, 2> r({5, 4});
  fill(r.data(), 20);
  const auto x = pos(1, 2);
  const double y = vf_pick("y", 0, 3) / 4.;
  const auto i = interpolate<Cubic>(r);
  const double ref = cubic1([&](long l) { return cubic1([&](long k) { return r.data()[k + l * 5]; }, x.f, x.d); }, 1, y);
  vf_assert((i({x.x(), 1 + y}) == ref), "bicubic interpolation");
  vf_reach("end");
}
VF_CASE(cubic3_thorough) {
  Raster<int, 3> r({4, 4, 4});
  fill(r.data(), 64);
  const double x = 1 + vf_pick("x", 0, 3) / 4., y = 1 + vf_pick("y", 0, 3) / 4., z = 1 + vf_pick("z", 0, 3) / 4.;
  const auto i = interpolate<Cubic>(r);
  const double ref = cubic1([&](long m) { return cubic1([&](long l) { return cubic1([&](long k) { return r.data()[k + l * 4 + m * 16]; }, 1, x - 1); }, 1, y - 1); }, 1, z - 1);
  vf_assert((i({x, y, z}) == ref), "tricubic interpolation");
  vf_reach("end");
}
// nearest neighbor: within half a step
template <Index N>
static void nearestCase(Index dim) {
  Position<N> shape(dim);
  for (auto& e : shape) e = 3;
  Raster<int, N> r(shape);
  fill(r.data(), r.size());
  const auto e = extrapolate(r, -7777);
  Vector<double, N> x(dim);
  Position<N> q(dim);
  for (Index i = 0; i < dim; ++i) {
    const long m = vf_int("x", -16, 24); // quarters
    x[i] = m / 4.;
    q[i] = vf_int("q", -5, 7);
    vf_assume(4 * q[i] - 2 <= m && m < 4 * q[i] + 2); // ties are rounded up
  }
  const auto i = interpolate<NearestNeighbor>(e);
  const double v = i(x);
  vf_assert(v == e[q], "the element at the nearest integral position");
  bool in = true;
  for (Index k = 0; k < dim; ++k) in = in && q[k] >= 0 && q[k] < 3;
  vf_assert(v == (in ? r.data()[refIndex(shape, q, dim)] : -7777), "extrapolated out of the domain");
  vf_reach("end");
}
VF_CASE(nearest1) { nearestCase<1>(1); }
VF_CASE(nearest2) { nearestCase<2>(2); }
VF_CASE(nearestv) { nearestCase<-1>(2); }

// interpolated extrapolators: any position
template <bool Split = false, typename TX, typename F>
static void extraCase(const TX& x, F&& at) {
  auto px = pos(-3, 4);
  auto py = Split ? pos(-2, 2) : pos(-3, 4);
  if (Split) { px.f = vf_split(px.f); py.f = vf_split(py.f); }
  const auto l = interpolate<Linear>(x);
  const double ref = linear1([&](long m) { return linear1([&](long k) { return at(k, m); }, px.f, px.d); }, py.f, py.d);
  vf_assert((l({px.x(), py.x()}) == ref), "linear interpolation of extrapolated values");
  vf_assert(&l.raster() == &x.raster() && l.domain() == x.domain(), "decorated raster");
  vf_reach("end");
}
static long cl(long i, long n) { return i < 0 ? 0 : i >= n ? n - 1 : i; }
VF_CASE(extra_constant) {
  Raster<int, 2> r({3, 2});
  fill(r.data(), 6);
  const int c = vf_int("c", -1000, 1000);
  extraCase(extrapolate(r, c), [&](long i, long j) -> double { return i >= 0 && i < 3 && j >= 0 && j < 2 ? r.data()[i + 3 * j] : c; });
}
VF_CASE(extra_nearest) {
  Raster<int, 2> r({3, 2});
  fill(r.data(), 6);
  extraCase(extrapolate<NearestNeighbor>(r), [&](long i, long j) -> double { return r.data()[cl(i, 3) + 3 * cl(j, 2)]; });
}
VF_CASE(extra_periodic) {
  Raster<int, 2> r({3, 2});
  fill(r.data(), 6);
  extraCase<true>(extrapolate<Periodic>(r), [&](long i, long j) -> double { return r.data()[(i + 30) % 3 + 3 * ((j + 20) % 2)]; });
}
VF_CASE(extra_cubic) {
  Raster<int, 1> r({3});
  fill(r.data(), 3);
  const auto x = extrapolate<NearestNeighbor>(r);
  const auto p = pos(-4, 6);
  const auto i = interpolate<Cubic>(x);
  vf_assert(i({p.x()}) == cubic1([&](long k) { return r.data()[cl(k, 3)]; }, p.f, p.d), "cubic interpolation of extrapolated values");
  vf_reach("end");
}
// floor, as used to find the stencil
VF_CASE(floors) {
  const long m = vf_int("m", -4000000, 4000000);
  const double x = m / 4.;
  const long f = floor<long>(x);
  vf_assert(f <= x && x < f + 1, "floor");
  const float y = vf_int("y", -4000, 4000) / 4.f;
  const int g = floor<int>(y);
  vf_assert(g <= y && y < g + 1, "floor of single precision");
  vf_reach("end");
}

// close to the pixel centers
static const double nearby[] = {1. / 1024, 1. / 64, 1. / 16, 7. / 16, 9. / 16, 15. / 16, 63. / 64, 1023. / 1024};
VF_CASE(linear_close) {
  Raster<int, 2> r({4, 3});
  fill(r.data(), 12);
  const long fx = vf_pick("fx", 0, 2);
  const long fy = vf_pick("fy", 0, 1);
  const double dx = nearby[vf_pick("dx", 0, 7)];
  const double dy = nearby[vf_pick("dy", 0, 7)];
  const auto i = interpolate<Linear>(r);
  const double ref = linear1([&](long l) { return linear1([&](long k) { return r.data()[k + l * 4]; }, fx, dx); }, fy, dy);
  vf_assert((i({fx + dx, fy + dy}) == ref), "bilinear interpolation");
  vf_assert((i({fx + dx, double(fy)}) == linear1([&](long k) { return r.data()[k + fy * 4]; }, fx, dx)), "along a row");
  vf_assert((i({double(fx), fy + dy}) == linear1([&](long l) { return r.data()[fx + l * 4]; }, fy, dy)), "along a column");
  vf_reach("end");
}
VF_CASE(cubic_close) {
  Raster<int, 1> r({6});
  fill(r.data(), 6);
  const long f = vf_pick("f", 1, 3);
  const double d = nearby[vf_pick("d", 1, 6)];
  const auto i = interpolate<Cubic>(r);
  vf_assert(i({f + d}) == cubic1([&](long k) { return r.data()[k]; }, f, d), "cubic interpolation");
  vf_reach("end");
}
VF_CASE(nearest_close) {
  Raster<int, 2> r({4, 3});
  fill(r.data(), 12);
  const auto e = extrapolate(r, -7777);
  const long fx = vf_pick("fx", -2, 4);
  const long fy = vf_pick("fy", -1, 2);
  const double dx = nearby[vf_pick("dx", 0, 7)];
  const double dy = nearby[vf_pick("dy", 0, 7)];
  const long x = fx + (dx > .5), y = fy + (dy > .5);
  const auto i = interpolate<NearestNeighbor>(e);
  vf_assert((i({fx + dx, fy + dy}) == (x >= 0 && x < 4 && y >= 0 && y < 3 ? r.data()[x + y * 4] : -7777)), "nearest neighbor");
  vf_reach("end");
}
// bicubic interpolation around the whole domain
template <typename TX, typename F>
static void extraCubic2(const TX& x, F&& at) {
  const long fx = vf_pick("fx", -3, 4);
  const long fy = vf_pick("fy", -3, 4);
  const double dx = vf_pick("dx", 0, 1) / 2.;
  const double dy = vf_pick("dy", 0, 1) / 4.;
  const auto l = interpolate<Cubic>(x);
  const double ref = cubic1([&](long m) { return cubic1([&](long k) { return at(k, m); }, fx, dx); }, fy, dy);
  vf_assert((l({fx + dx, fy + dy}) == ref), "bicubic interpolation of extrapolated values");
  vf_reach("end");
}
VF_CASE(extra_cubic_constant) {
  Raster<int, 2> r({4, 3});
  fill(r.data(), 12);
  const int c = vf_int("c", -1000, 1000);
  extraCubic2(extrapolate(r, c), [&](long i, long j) -> double { return i >= 0 && i < 4 && j >= 0 && j < 3 ? r.data()[i + 4 * j] : c; });
}
VF_CASE(extra_cubic_nearest) {
  Raster<int, 2> r({3, 4});
  fill(r.data(), 12);
  extraCubic2(extrapolate<NearestNeighbor>(r), [&](long i, long j) -> double { return r.data()[cl(i, 3) + 3 * cl(j, 4)]; });
}
VF_CASE(extra_cubic_periodic) {
  Raster<int, 2> r({4, 3});
  fill(r.data(), 12);
  extraCubic2(extrapolate<Periodic>(r), [&](long i, long j) -> double { return r.data()[(i + 40) % 4 + 4 * ((j + 30) % 3)]; });
}
VF_CASE(extra_linear3) {
  Raster<int, 3> r({2, 3, 2});
  fill(r.data(), 12);
  const auto x = extrapolate<Periodic>(r);
  const long a = vf_pick("a", -3, 3);
  const long b = vf_pick("b", -3, 3);
  const long c = vf_pick("c", -3, 3);
  const double d = vf_pick("d", 0, 1) / 2.;
  const auto l = interpolate<Linear>(x);
  const double ref = linear1([&](long m) { return linear1([&](long j) { return linear1([&](long k) { return r.data()[(k + 20) % 2 + 2 * ((j + 30) % 3) + 6 * ((m + 20) % 2)]; }, a, d); }, b, .25); }, c, d);
  vf_assert((l({a + d, b + .25, c + d}) == ref), "trilinear interpolation of extrapolated values");
  vf_reach("end");
}
// long lines: the stencil depends on the position only
VF_CASE(long_line) {
  const long n = 40;
  Raster<int, 2> r({n, 2});
  fill(r.data(), 2 * n);
  const long f = vf_pick("f", 1, n - 3);
  const auto i = interpolate<Linear>(r);
  vf_assert((i({f + .75, .5}) == .5 * linear1([&](long k) { return r.data()[k]; }, f, .75) + .5 * linear1([&](long k) { return r.data()[k + n]; }, f, .75)), "bilinear interpolation");
  const auto x = extrapolate<NearestNeighbor>(r);
  const auto j = interpolate<Cubic>(x);
  vf_assert((j({f + .25, 0.}) == cubic1([&](long k) { return r.data()[k]; }, f, .25)), "bicubic interpolation");
  vf_reach("end");
}
// nearest neighbor of any real position, whatever its bits
VF_CASE(nearestAnyReal) {
  Raster<int, 1> r({5});
  for (long i = 0; i < 5; ++i) r.data()[i] = int(i) - 2;
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto i = interpolate<NearestNeighbor>(e);
  const long bits = vf_int("bits", 0, 0x4270000000000000l); // any real up to 2^40
  double x;
  std::memcpy(&x, &bits, sizeof(x));
  const bool negative = vf_pick("negative", 0, 1);
  if (negative) x = -x;
  // expected element: n - 2 for the nearest n to x among 0 to 4 (either one halfway)
  const double v = i(Vector<double, 1>{x}) + 2;
  const double x2 = 2 * x; // exact
  vf_assert(v >= 0 && v <= 4, "an element");
  vf_assert(x2 <= 2 * v + 1 || v == 4, "no element is nearer, above");
  vf_assert(x2 >= 2 * v - 1 || v == 0, "no element is nearer, below");
  vf_reach("end");
}
// far out of the domain, and of the range of int
static const long g_far[] = {-1099511627776l, -4294967296l, -2147483649l, -70000, 70000, 2147483646l, 4294967295l, 1099511627776l};
template <typename F>
static void farAt(F&& f) {
  const long base = g_far[vf_pick("base", 0, 7)] + vf_pick("shift", -2, 2);
  f(base);
}
static long md(long i, long n) { return ((i % n) + n) % n; }
VF_CASE(far_constant) {
  Raster<int, 2> r({3, 2});
  fill(r.data(), 6);
  const int c = vf_int("c", -1000, 1000);
  const auto x = extrapolate(r, c);
  farAt([&](long b) {
    const long y = vf_pick("y", -2, 2);
    vf_assert((interpolate<Linear>(x)({b + .5, y + .25}) == c), "constant out of the domain");
    vf_assert((interpolate<Cubic>(x)({y + .5, b + .25}) == c), "constant out of the domain");
    vf_assert((interpolate<NearestNeighbor>(x)({b + .25, double(y)}) == c), "constant out of the domain");
  });
  vf_reach("end");
}
VF_CASE(far_nearest) {
  Raster<int, 2> r({3, 2});
  fill(r.data(), 6);
  const auto x = extrapolate<NearestNeighbor>(r);
  farAt([&](long b) {
    auto at = [&](long i, long j) -> double { return r.data()[cl(i, 3) + 3 * cl(j, 2)]; };
    const double ref = linear1([&](long j) { return linear1([&](long i) { return at(i, j); }, b, .5); }, 0, .25);
    vf_assert((interpolate<Linear>(x)({b + .5, .25}) == ref), "bilinear");
    vf_assert((interpolate<Linear>(x)({.25, b + .75}) == linear1([&](long i) { return at(i, b); }, 0, .25)), "bilinear");
    vf_assert((interpolate<Cubic>(x)({b + .5, 1.}) == at(b, 1)), "bicubic");
    vf_assert((interpolate<NearestNeighbor>(x)({b + .75, 0.25}) == at(b, 0)), "nearest");
  });
  vf_reach("end");
}
VF_CASE(far_periodic) {
  Raster<int, 2> r({3, 2});
  fill(r.data(), 6);
  const auto x = extrapolate<Periodic>(r);
  farAt([&](long b) {
    auto at = [&](long i, long j) -> double { return r.data()[md(i, 3) + 3 * md(j, 2)]; };
    const double ref = linear1([&](long j) { return linear1([&](long i) { return at(i, j); }, b, .5); }, -1, .25);
    vf_assert((interpolate<Linear>(x)({b + .5, -.75}) == ref), "bilinear");
    const double ref2 = linear1([&](long j) { return linear1([&](long i) { return at(i, j); }, 1, .5); }, b, .25);
    vf_assert((interpolate<Linear>(x)({1.5, b + .25}) == ref2), "bilinear");
    vf_assert((interpolate<Cubic>(x)({b + .25, 1.}) == cubic1([&](long i) { return at(i, 1); }, b, .25)), "bicubic");
    vf_assert((interpolate<NearestNeighbor>(x)({b + .75, 0.25}) == at(b + 1, 0)), "nearest");
  });
  vf_reach("end");
}
// more axes
VF_CASE(linear4) {
  Raster<int, 4> r({2, 2, 3, 2});
  fill(r.data(), 24);
  const double a = vf_pick("a", 0, 1) / 2., b = vf_pick("b", 0, 2) / 4., c = vf_pick("c", 0, 7) / 4., d = vf_pick("d", 0, 3) / 4.;
  const long f = c >= 1;
  const auto i = interpolate<Linear>(r);
  const double ref = linear1([&](long l) { return linear1([&](long k) { return linear1([&](long j) { return linear1([&](long i) { return r.data()[i + 2 * j + 4 * k + 12 * l]; }, 0, a); }, 0, b); }, f, c - f); }, 0, d);
  vf_assert((i({a, b, c, d}) == ref), "quadrilinear interpolation");
  vf_reach("end");
}
VF_CASE(extra_linear4) {
  Raster<int, 4> r({2, 1, 3, 2});
  fill(r.data(), 12);
  const auto x = extrapolate<NearestNeighbor>(r);
  const long a = vf_pick("a", -2, 2);
  const long b = vf_pick("b", -1, 1);
  const long c = vf_pick("c", -2, 3);
  const long d = vf_pick("d", -2, 2);
  const auto i = interpolate<Linear>(x);
  const double ref = linear1([&](long l) { return linear1([&](long k) { return linear1([&](long j) { return linear1([&](long i) { return r.data()[cl(i, 2) + 2 * cl(j, 1) + 2 * cl(k, 3) + 6 * cl(l, 2)]; }, a, .5); }, b, .25); }, c, .5); }, d, .75);
  vf_assert((i({a + .5, b + .25, c + .5, d + .75}) == ref), "quadrilinear interpolation");
  vf_reach("end");
}
VF_CASE(nearest3) { nearestCase<3>(3); }
VF_CASE(nearest4) {
  Raster<int, 4> r({2, 3, 2, 2});
  fill(r.data(), 24);
  const auto e = extrapolate(r, -7777);
  Vector<double, 4> x;
  Position<4> q;
  for (Index i = 0; i < 4; ++i) {
    q[i] = vf_pick("q", -1, 3);
    x[i] = q[i] + (i % 2 ? .25 : -.5);
  }
  bool in = true;
  for (Index k = 0; k < 4; ++k) in = in && q[k] >= 0 && q[k] < r.shape()[k];
  vf_assert((interpolate<NearestNeighbor>(e)(x) == (in ? r.data()[refIndex(r.shape(), q, 4)] : -7777)), "nearest neighbor");
  vf_reach("end");
}
VF_CASE(cubic3) {
  Raster<int, 3> r({4, 5, 4});
  fill(r.data(), 80);
  const double x = vf_pick("x", 0, 1) / 2., y = vf_pick("y", 1, 7) / 4., z = vf_pick("z", 0, 3) / 4.;
  const long f = y >= 1;
  const auto i = interpolate<Cubic>(r);
  const double ref = cubic1([&](long m) { return cubic1([&](long l) { return cubic1([&](long k) { return r.data()[k + l * 4 + m * 20]; }, 1, x); }, 1 + f, y - f); }, 1, z);
  vf_assert((i({1 + x, 1 + y, 1 + z}) == ref), "tricubic interpolation");
  vf_reach("end");
}
VF_CASE(extra_cubic3) {
  Raster<int, 3> r({2, 3, 2});
  fill(r.data(), 12);
  const auto x = extrapolate<NearestNeighbor>(r);
  const long a = vf_pick("a", -2, 3);
  const long b = vf_pick("b", -2, 3);
  const long c = vf_pick("c", -2, 3);
  const auto i = interpolate<Cubic>(x);
  const double ref = cubic1([&](long m) { return cubic1([&](long j) { return cubic1([&](long k) { return r.data()[cl(k, 2) + 2 * cl(j, 3) + 6 * cl(m, 2)]; }, a, .5); }, b, .5); }, c, .25);
  vf_assert((i({a + .5, b + .5, c + .25}) == ref), "tricubic interpolation");
  vf_reach("end");
}
// values of any element types
template <typename T>
static void typed(long lo, long hi) {
  Raster<T, 2> r({2, 2});
  for (long i = 0; i < 4; ++i) r.data()[i] = T(vf_int("e", lo, hi));
  const double x = vf_pick("x", 0, 3) / 4., y = vf_pick("y", 0, 3) / 4.;
  const auto e = extrapolate<NearestNeighbor>(r);
  const auto l = interpolate<Linear>(e);
  const double ref = linear1([&](long j) { return linear1([&](long i) { return double(r.data()[cl(i, 2) + 2 * cl(j, 2)]); }, 0, x); }, 0, y);
  vf_assert((l({x, y}) == ref), "values are neither rounded nor truncated");
  const auto c = interpolate<Cubic>(e);
  const double cref = cubic1([&](long j) { return cubic1([&](long i) { return double(r.data()[cl(i, 2) + 2 * cl(j, 2)]); }, 0, x); }, 0, y);
  vf_assert((c({x, y}) == cref), "values are neither rounded nor truncated");
  vf_assert((interpolate<NearestNeighbor>(e)({x, y}) == double(r.data()[(x >= .5) + 2 * (y >= .5)])), "nearest");
  vf_reach("end");
}
VF_CASE(typed_char) { typed<signed char>(-128, 127); }
VF_CASE(typed_uchar) { typed<unsigned char>(0, 255); }
VF_CASE(typed_uint) { typed<unsigned int>(0, 4294967295l); }
VF_CASE(typed_int) { typed<int>(-2147483648l, 2147483647l); }
VF_CASE(typed_ushort) { typed<unsigned short>(0, 65535); }
VF_CASE(typed_long) { typed<long>(-10000000000l, 10000000000l); }
VF_CASE(typed_double) { typed<double>(-10000000000l, 10000000000l); }
VF_CASE(complexes) {
  using C = std::complex<double>;
  Raster<C, 1> r({4});
  double a[4], b[4];
  for (long i = 0; i < 4; ++i) { a[i] = vf_int("re", -1000, 1000); b[i] = vf_int("im", -1000, 1000); r.data()[i] = C(a[i], b[i]); }
  const double d = vf_pick("d", 0, 3) / 4.;
  const C l = interpolate<Linear>(r)({1 + d});
  auto re = [&](long i) { return a[i]; };
  auto im = [&](long i) { return b[i]; };
  vf_assert(l.real() == linear1(re, 1, d) && l.imag() == linear1(im, 1, d), "linear interpolation of complexes");
  vf_reach("end");
}
// fourth dimension
VF_CASE(cubic4) {
  Raster<int, 4> r({4, 4, 4, 4});
  fill(r.data(), 256);
  double d[4];
  for (int i = 0; i < 4; ++i) d[i] = i == 0 ? .25 : i == 3 ? .5 : vf_pick("d", 0, 1) * .5;
  const auto i = interpolate<Cubic>(r);
  const double ref = cubic1([&](long n) { return cubic1([&](long m) { return cubic1([&](long l) { return cubic1([&](long k) {
    return r.data()[k + l * 4 + m * 16 + n * 64];
  }, 1, d[0]); }, 1, d[1]); }, 1, d[2]); }, 1, d[3]);
  vf_assert((i({1 + d[0], 1 + d[1], 1 + d[2], 1 + d[3]}) == ref), "interpolation along each axis");
  vf_reach("end");
}
VF_CASE(cubic4_one) { // one arbitrary element among 256
  Raster<int, 4> r({4, 4, 4, 4});
  for (long k = 0; k < 256; ++k) r.data()[k] = (k * 37 + 5) % 19 - 9;
  const long at = vf_pick("at", 0, 3) * 85; // along the diagonal
  r.data()[at] = vf_int("e", -1000, 1000);
  double d[4];
  for (int i = 0; i < 4; ++i) d[i] = vf_pick("d", 0, 3) * .25;
  const auto i = interpolate<Cubic>(r);
  const double ref = cubic1([&](long n) { return cubic1([&](long m) { return cubic1([&](long l) { return cubic1([&](long k) {
    return r.data()[k + l * 4 + m * 16 + n * 64];
  }, 1, d[0]); }, 1, d[1]); }, 1, d[2]); }, 1, d[3]);
  vf_assert((i({1 + d[0], 1 + d[1], 1 + d[2], 1 + d[3]}) == ref), "interpolation along each axis");
  vf_reach("end");
}
VF_CASE(cubic4_extrapolated) {
  Raster<int, 4> r({2, 1, 2, 3});
  fill(r.data(), 12);
  const auto e = extrapolate<NearestNeighbor>(r);
  double d[4];
  long f[4];
  for (int i = 0; i < 4; ++i) {
    d[i] = i == 2 ? .5 : .25 * (i + 1); // 1 along the last axis: the next one
    f[i] = i % 2 ? vf_pick("f", -1, 1) : -1 + vf_pick("f", 0, 1) * 2;
  }
  const auto i = interpolate<Cubic>(e);
  const double next = cubic1([&](long n) { return cubic1([&](long m) { return cubic1([&](long l) { return cubic1([&](long k) {
    const long a = k < 0 ? 0 : k > 1 ? 1 : k, b = m < 0 ? 0 : m > 1 ? 1 : m, c = n < 0 ? 0 : n > 2 ? 2 : n;
    return r.data()[a + b * 2 + c * 4];
  }, f[0], d[0]); }, f[1], d[1]); }, f[2], d[2]); }, f[3] + 1, 0);
  vf_assert((i({f[0] + d[0], f[1] + d[1], f[2] + d[2], f[3] + d[3]}) == next), "interpolation of extrapolated values along each axis");
  vf_reach("end");
}
// tiny offsets from an integral coordinate
static double tiny() {
  static const double all[] = {1. / 1024, 1. / 1048576, 1. / 1073741824, 1. / 1099511627776.};
  const double d = all[vf_pick("tiny", 0, 3)];
  return vf_pick("below", 0, 1) ? 1 - d : d;
}
VF_CASE(tiny1) {
  Raster<int, 1> r({3});
  fill(r.data(), 3);
  const auto i = interpolate<Linear>(r);
  const long f = vf_pick("f", 0, 1);
  const double d = tiny();
  vf_assert(i({f + d}) == linear1([&](long k) { return r.data()[k]; }, f, d), "linear interpolation along a line");
  vf_reach("end");
}
template <Index N>
static void tinyCase() {
  Position<N> shape;
  shape.fill(2);
  Raster<int, N> r(shape);
  fill(r.data(), r.size());
  const auto e = extrapolate(r, 77);
  const long axis = vf_pick("axis", 0, N - 1);
  const bool out = vf_pick("extrapolated", 0, 1);
  const double d = tiny();
  Vector<double, N> x;
  x.fill(0);
  x[axis] = (out ? 1 : 0) + d; // 1 + d: between the element and the constant
  long stride = 1;
  for (long k = 0; k < axis; ++k) stride *= 2;
  const double a = r.data()[0], b = r.data()[stride];
  const double v = out ? interpolate<Linear>(e)(x) : interpolate<Linear>(r)(x);
  vf_assert(v == (out ? (1 - d) * b + d * 77 : (1 - d) * a + d * b), "linear interpolation along an axis");
  vf_reach("end");
}
VF_CASE(tiny2) { tinyCase<2>(); }
VF_CASE(tiny3) { tinyCase<3>(); }
VF_CASE(tiny4) { tinyCase<4>(); }
// far positions along lines and in spaces
template <typename TMethod, typename F>
static void farLine(F&& index) {
  Raster<int, 1> r({5});
  fill(r.data(), 5);
  const auto x = extrapolate<TMethod>(r);
  farAt([&](long b) {
    auto at = [&](long i) -> double { return r.data()[index(i, 5)]; };
    const double d = vf_pick("d", 0, 3) / 4.;
    vf_assert((interpolate<NearestNeighbor>(x)(Vector<double, 1> {b + d}) == at(d < .5 ? b : b + 1)), "nearest");
    vf_assert((interpolate<Linear>(x)({b + d}) == linear1(at, b, d)), "linear");
    vf_assert((interpolate<Cubic>(x)({b + d}) == cubic1(at, b, d)), "cubic");
  });
  vf_reach("end");
}
VF_CASE(far_line_nearest) { farLine<NearestNeighbor>(cl); }
VF_CASE(far_line_periodic) { farLine<Periodic>(md); }
template <typename TMethod, typename F>
static void farSpace(F&& index) {
  Raster<int, 3> r({3, 2, 2});
  fill(r.data(), 12);
  const auto x = extrapolate<TMethod>(r);
  farAt([&](long b) {
    const long axis = vf_pick("axis", 0, 2);
    auto at = [&](long i, long j, long k) -> double { return r.data()[index(i, 3) + 3 * (index(j, 2) + 2 * index(k, 2))]; };
    double p[3] = {.75, -.25, 1.25};
    long n[3] = {1, 0, 1};
    p[axis] = b + .75;
    n[axis] = b + 1;
    const Vector<double, 3> q {p[0], p[1], p[2]};
    vf_assert((interpolate<NearestNeighbor>(x)(q) == at(n[0], n[1], n[2])), "nearest");
    const long f[3] = {axis == 0 ? b : 0, axis == 1 ? b : -1, axis == 2 ? b : 1};
    const double v = linear1([&](long k) { return linear1([&](long j) { return linear1([&](long i) { return at(i, j, k); }, f[0], .75); }, f[1], .75); }, f[2], axis == 2 ? .75 : .25);
    vf_assert((interpolate<Linear>(x)(q) == v), "trilinear");
  });
  vf_reach("end");
}
VF_CASE(far_space_nearest) { farSpace<NearestNeighbor>(cl); }
VF_CASE(far_space_periodic) { farSpace<Periodic>(md); }
// positions which are not dyadic numbers, in double precision
static double mix(bool cubic, double d, double pp, double p, double n, double nn) {
  return cubic ? p + .5 * d * (n - pp + d * (2 * pp - 5 * p + 4 * n - nn + d * (3 * (p - n) + nn - pp))) : p + d * (n - p);
}
template <typename TMethod, Index N>
static void decimals(bool cubic) {
  const double fs[] = {.1, .3, 1 / 3., .7, .999};
  Position<N> shape(N);
  shape.fill(5);
  Raster<double, N> r(shape);
  for (std::size_t i = 0; i < r.size(); ++i) r.data()[i] = double((i * 37 + 11) % 23) / 7 + (i % 5) * 1e3;
  Vector<double, N> p(N);
  double d[3] = {0, 0, 0};
  for (Index i = 0; i < N; ++i) {
    d[i] = fs[vf_pick("f", 0, 4)];
    p[i] = 1 + vf_pick("i", 0, 1) + d[i];
  }
  auto at = [&](long i, long j, long k) { return r.data()[i + (N > 1 ? 5 * j : 0) + (N > 2 ? 25 * k : 0)]; };
  const long o[3] = {long(p[0]), N > 1 ? long(p[N > 1]) : 0, N > 2 ? long(p[N > 2 ? 2 : 0]) : 0};
  double planes[4];
  for (long k = 0; k < (N > 2 ? 4 : 1); ++k) {
    double lines[4];
    for (long j = 0; j < (N > 1 ? 4 : 1); ++j) {
      double e[4];
      for (long i = 0; i < 4; ++i) e[i] = at(o[0] + i - 1, o[1] + j - 1, o[2] + k - 1);
      lines[j] = mix(cubic, p[0] - o[0], e[0], e[1], e[2], e[3]);
    }
    planes[k] = N > 1 ? mix(cubic, p[N > 1] - o[1], lines[0], lines[1], lines[2], lines[3]) : lines[0];
  }
  const double expected = N > 2 ? mix(cubic, p[N > 2 ? 2 : 0] - o[2], planes[0], planes[1], planes[2], planes[3]) : planes[0];
  const double x = interpolate<TMethod>(r)(p) - expected;
  vf_assert(x < 1e-9 && -x < 1e-9, "double precision");
  vf_reach("end");
}
VF_CASE(decimals_linear1) { decimals<Linear, 1>(false); }
VF_CASE(decimals_linear2) { decimals<Linear, 2>(false); }
VF_CASE(decimals_linear3) { decimals<Linear, 3>(false); }
VF_CASE(decimals_cubic1) { decimals<Cubic, 1>(true); }
VF_CASE(decimals_cubic2) { decimals<Cubic, 2>(true); }
VF_CASE(decimals_cubic3) { decimals<Cubic, 3>(true); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_nearest) { nearestCase<1>(1); nearestCase<1>(1); }
VF_CASE(again_tiny) { tinyCase<2>(); tinyCase<2>(); }
VF_CASE(again_decimals) { decimals<Cubic, 1>(true); decimals<Cubic, 1>(true); }
