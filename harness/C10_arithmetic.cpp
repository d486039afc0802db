#include "lt.h"
#include <cmath>
#include <complex>
#include <LitlContainer/Sequence.h>
// NOTE: sequences of 0 to 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64 or 129 elements (and 255 to 70000, one of them arbitrary) and rasters up to 2x2 (variable dimension up to 3) (operators are applied element by element, whatever the shape); elements arbitrary within [-10^6, 10^6] (full range for unsigned char); divisors non-null; pointer-based containers only in place (their copies are views)

template <typename T>
static T any(const char* name) { return T(vf_int(name, -1000, 1000)); }
template <>
unsigned char any<unsigned char>(const char* name) { return (unsigned char)vf_int(name, 0, 255); }
static bool signedZeros = false; // told apart in the cases whose values are concrete on each path
// NaN is itself
template <typename T>
static bool same(T a, T b) { return a == b; }
template <>
bool same<double>(double a, double b) { return vf_same_d(a, b) && (!signedZeros || a != 0 || std::signbit(a) == std::signbit(b)); }
template <typename C>
static void fillAny(C& c, const char* name, bool nonNull = false) {
  for (std::size_t i = 0; i < c.size(); ++i) {
    c[i] = any<typename C::value_type>(name);
    if (nonNull) vf_assume(c[i] != 0);
  }
}

#define CHECK(expr, ref, label) { const auto res = expr; vf_assert(res.size() == n, label " (size)"); for (std::size_t i = 0; i < n; ++i) { const T u = a[i], v = b[i]; (void)u; (void)v; vf_assert(same<T>(res[i], T(ref)), label); } }
#define INPLACE(op, ref, label) { C c(a); C& r = (op); vf_assert(&r == &c, label " (returns itself)"); vf_assert(c.size() == n, label " (size)"); for (std::size_t i = 0; i < n; ++i) { const T u = a[i], v = b[i]; (void)u; (void)v; vf_assert(same<T>(c[i], T(ref)), label); } }

// additive operators
template <typename C>
static void additive(const C& a, const C& b, typename C::value_type k) {
  typedef typename C::value_type T;
  const std::size_t n = a.size();
  CHECK(a + b, u + v, "V + U")
  CHECK(a - b, u - v, "V - U")
  CHECK(a + k, u + k, "V + a")
  CHECK(k + a, k + u, "a + V")
  CHECK(a - k, u - k, "V - a")
  CHECK(k - a, k - u, "a - V")
  CHECK(-a, -u, "-V")
  CHECK(+a, u, "+V")
  INPLACE(c += b, u + v, "V += U")
  INPLACE(c -= b, u - v, "V -= U")
  INPLACE(c += k, u + k, "V += a")
  INPLACE(c -= k, u - k, "V -= a")
  INPLACE(++c, u + 1, "++V")
  INPLACE(--c, u - 1, "--V")
  INPLACE(c += c, u + u, "V += V")
  INPLACE(c -= c, 0, "V -= V")
  {
    C c(a);
    const C old = c++;
    vf_assert(old == a, "V++ returns the previous values");
    for (std::size_t i = 0; i < n; ++i) vf_assert(c[i] == T(a[i] + 1), "V++");
    const C old2 = c--;
    for (std::size_t i = 0; i < n; ++i) vf_assert(old2[i] == T(a[i] + 1), "V-- returns the previous values");
    vf_assert(c == a, "V--");
  }
}
// the scalar may be an element of the container
template <typename C>
static void aliasing(const C& a) {
  typedef typename C::value_type T;
  const std::size_t n = a.size();
  if (n == 0) return;
  const C& b = a;
  const std::size_t j = vf_pick("j", 0, n - 1);
  const T k = a[j];
  INPLACE(c += c[j], u + k, "V += V[j]")
  INPLACE(c -= c[j], u - k, "V -= V[j]")
  INPLACE(c *= c[j], u * k, "V *= V[j]")
}
template <typename C>
static void multiplicative(const C& a, typename C::value_type k) {
  typedef typename C::value_type T;
  const std::size_t n = a.size();
  const C& b = a;
  CHECK(a * k, u * k, "V * a")
  CHECK(k * a, k * u, "a * V")
  INPLACE(c *= k, u * k, "V *= a")
}
template <typename C>
static void dividing(const C& a, typename C::value_type k) {
  typedef typename C::value_type T;
  const std::size_t n = a.size();
  const C& b = a;
  vf_assume(k != 0);
  CHECK(a / k, u / k, "V / a")
  INPLACE(c /= k, u / k, "V /= a")
}
template <typename C>
static void modulo(const C& a, const C& b, typename C::value_type k) {
  typedef typename C::value_type T;
  const std::size_t n = a.size();
  vf_assume(k != 0);
  CHECK(a % k, u % k, "V % a")
  INPLACE(c %= k, u % k, "V %= a")
  CHECK(a % b, u % v, "V % U")
  INPLACE(c %= b, u % v, "V %= U")
}
template <typename C>
static void vectorMul(const C& a, const C& b) {
  typedef typename C::value_type T;
  const std::size_t n = a.size();
  CHECK(a * b, u * v, "V * U")
  INPLACE(c *= b, u * v, "V *= U")
}
template <typename C>
static void vectorDiv(const C& a, const C& b) {
  typedef typename C::value_type T;
  const std::size_t n = a.size();
  CHECK(a / b, u / v, "V / U")
  INPLACE(c /= b, u / v, "V /= U")
}

template <typename T>
static void seqCase(int what) {
  const std::size_t n = vf_size("n", 3, what != 1);
  Sequence<T> a(n), b(n);
  fillAny(a, "a");
  fillAny(b, "b", what >= 3);
  const T k = any<T>("k");
  if (what == 0) additive(a, b, k);
  if (what == 1) aliasing(a);
  if (what == 2) { multiplicative(a, k); vectorMul(a, b); }
  if (what == 3) { dividing(a, k); vectorDiv(a, b); }
  vf_reach("end");
}
VF_CASE(additiveInt) { seqCase<int>(0); }
VF_CASE(additiveLong) { seqCase<long>(0); }
VF_CASE(additiveUchar) { seqCase<unsigned char>(0); }
VF_CASE(additiveShort) { seqCase<short>(0); }
VF_CASE(additiveChar) { seqCase<signed char>(0); }
VF_CASE(additiveFloat) { seqCase<float>(0); }
VF_CASE(additiveUlong) { seqCase<unsigned long>(0); }
VF_CASE(additiveDouble) { seqCase<double>(0); }
VF_CASE(aliasInt) { seqCase<int>(1); }
VF_CASE(aliasDouble) { seqCase<double>(1); }
VF_CASE(mulInt) { seqCase<int>(2); }
VF_CASE(mulUchar) { seqCase<unsigned char>(2); }
VF_CASE(mulDouble) { seqCase<double>(2); }
VF_CASE(divInt) { seqCase<int>(3); }
VF_CASE(divUchar) { seqCase<unsigned char>(3); }
VF_CASE(divDouble) { seqCase<double>(3); }
template <typename T>
static void modCase() {
  const std::size_t n = vf_size("n", 3);
  Sequence<T> a(n), b(n);
  fillAny(a, "a");
  fillAny(b, "b", true);
  modulo(a, b, any<T>("k"));
  vf_reach("end");
}
VF_CASE(modInt) { modCase<int>(); }
VF_CASE(modUchar) { modCase<unsigned char>(); }
VF_CASE(modLong) { modCase<long>(); }

// rasters keep their shape
template <Index N>
static void rasters(const Position<N>& s) {
  VecRaster<int, N> a(s), b(s);
  fillAny(a, "a");
  fillAny(b, "b", true);
  const int k = any<int>("k");
  additive(a, b, k);
  aliasing(a);
  multiplicative(a, k);
  vectorMul(a, b);
  vf_assert((a + b).shape() == s && (a * k).shape() == s && (-a).shape() == s, "shape");
  vf_reach("end");
}
VF_CASE(raster1) { rasters<1>(pickPos<1>("s", 1, 1, 3)); }
VF_CASE(raster2) { rasters<2>(pickPos<2>("s", 2, 1, 2)); }
VF_CASE(rasterV) { rasters<-1>(pickPos<-1>("s", vf_pick("dim", 1, 3), 1, 2)); }
VF_CASE(divRaster) {
  const Position<2> s = pickPos<2>("s", 2, 1, 2);
  VecRaster<int, 2> a(s), b(s);
  fillAny(a, "a");
  fillAny(b, "b", true);
  const int k = any<int>("k");
  dividing(a, k);
  vectorDiv(a, b);
  modulo(a, b, k);
  vf_reach("end");
}
VF_CASE(alignedRaster) {
  const Position<2> s {2, 2};
  AlignedRaster<int, 2> a(s), b(s);
  fillAny(a, "a");
  fillAny(b, "b", true);
  const int k = any<int>("k");
  additive(a, b, k);
  multiplicative(a, k);
  vf_reach("end");
}
// special values
VF_CASE(special) {
  signedZeros = true;
  const double vals[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -0.0, 0.0, 1.5};
  Sequence<double> a(2), b(2);
  a[0] = vals[vf_pick("a", 0, 5)];
  a[1] = vals[vf_pick("a", 0, 5)];
  b[0] = vals[vf_pick("b", 0, 5)];
  b[1] = 2.;
  const double k = vals[vf_pick("k", 0, 5)];
  typedef double T;
  typedef Sequence<double> C;
  const std::size_t n = 2;
  CHECK(a + b, u + v, "V + U")
  CHECK(a - b, u - v, "V - U")
  CHECK(k - a, k - u, "a - V")
  CHECK(a + k, u + k, "V + a")
  CHECK(a - k, u - k, "V - a")
  CHECK(-a, -u, "-V")
  CHECK(+a, u, "+V")
  INPLACE(c += k, u + k, "V += a")
  INPLACE(c -= k, u - k, "V -= a")
  INPLACE(c -= b, u - v, "V -= U")
  INPLACE(c += c, u + u, "V += V")
  multiplicative(a, k);
  vectorMul(a, b);
  if (k != 0) dividing(a, k);
  vectorDiv(a, b);
  VecRaster<double, 1> ra({2});
  ra[0] = a[0];
  ra[1] = a[1];
  const auto opposite = -ra, diff = k - ra;
  for (int i = 0; i < 2; ++i) vf_assert(same<double>(opposite[i], -a[i]) && same<double>(diff[i], k - a[i]), "raster operators");
  const Vector<double, 2> va {a[0], a[1]};
  const auto vo = -va, vd = va - k;
  for (int i = 0; i < 2; ++i) vf_assert(same<double>(vo[i], -a[i]) && same<double>(vd[i], a[i] - k), "vector operators");
  vf_reach("end");
}
// in place on somebody else's memory
VF_CASE(pointer) {
  int data[4], ref[4];
  for (int i = 0; i < 4; ++i) data[i] = ref[i] = vf_int("x", -1000, 1000);
  const int k = vf_int("k", -1000, 1000);
  PtrRaster<int, 2> r({2, 2}, data);
  VecRaster<int, 2> b({2, 2});
  fillAny(b, "b");
  r += k;
  for (int i = 0; i < 4; ++i) vf_assert(data[i] == ref[i] + k, "scalar, in place");
  PtrRaster<int, 2> o({2, 2}, b.data());
  r -= o;
  for (int i = 0; i < 4; ++i) vf_assert(data[i] == ref[i] + k - b[i], "vector, in place");
  vf_reach("end");
}
// normalization by a property of the container itself
VF_CASE(normalize) {
  VecRaster<double, 1> r({3});
  for (auto& e : r) e = 0.25 * vf_int("x", 1, 1000);
  const VecRaster<double, 1> in(r);
  const double m = in.max();
  r /= r.max();
  for (int i = 0; i < 3; ++i) vf_assert(same<double>(r[i], in[i] / m), "R /= R.max()");
  VecRaster<double, 1> s(in);
  s -= s.min();
  for (int i = 0; i < 3; ++i) vf_assert(s[i] == in[i] - in.min(), "R -= R.min()");
  vf_reach("end");
}
// elements of any magnitude which do not overflow (unsigned ones wrap around)
template <typename T>
static T wide(const char* name, long lo, long hi) { return T(vf_int(name, lo, hi)); }
template <typename T>
static void far(long lo, long hi) {
  const std::size_t n = vf_size("n", 2);
  Sequence<T> a(n), b(n);
  for (auto& e : a) e = wide<T>("a", lo, hi);
  for (auto& e : b) e = wide<T>("b", lo, hi);
  const T k = wide<T>("k", lo, hi);
  additive(a, b, k);
  vf_reach("end");
}
VF_CASE(farInt) { far<int>(-1000000000, 1000000000); }
VF_CASE(farLong) { far<long>(-4000000000000000000l, 4000000000000000000l); }
VF_CASE(farUint) { far<unsigned>(0, 4294967295l); }
VF_CASE(farUlong) { far<unsigned long>(std::numeric_limits<long>::min(), std::numeric_limits<long>::max()); }
VF_CASE(farShort) { far<short>(-32768, 32767); }
VF_CASE(farUshort) { far<unsigned short>(0, 65535); }
VF_CASE(farChar) { far<signed char>(-128, 127); }
VF_CASE(farDouble) { far<double>(-1000000000000000l, 1000000000000000l); }
// products and quotients of any magnitude, by a few scalars
VF_CASE(farScaled) {
  static const long scalars[] = {1, 2, -3, 1000, -65536, 65537, 1l << 31, -(1l << 33)};
  const std::size_t n = vf_size("n", 1);
  Sequence<long> a(n);
  for (auto& e : a) e = vf_int("a", -1000000000l, 1000000000l);
  const long k = scalars[vf_pick("k", 0, 7)];
  multiplicative(a, k);
  Sequence<long> b(n);
  b.fill(k);
  vectorMul(a, b);
  vf_reach("end");
}
VF_CASE(farDivided) {
  static const long scalars[] = {1, -1, 2, -4, 1024, -65536, 1l << 31, -(1l << 33)};
  const std::size_t n = vf_size("n", 1, false);
  Sequence<long> a(n);
  for (auto& e : a) e = vf_int("a", -1000000000000000000l, 1000000000000000000l);
  const long k = scalars[vf_pick("k", 0, 7)];
  Sequence<long> b(n);
  b.fill(k);
  dividing(a, k);
  vectorDiv(a, b);
  modulo(a, b, k);
  vf_reach("end");
}
// complex elements
VF_CASE(complexes) {
  using C = std::complex<double>;
  const std::size_t n = vf_size("n", 2);
  Sequence<C> a(n), b(n);
  auto one = [](const char* name) { const double r = vf_dyadic(name, -1000, 1000, 2); return C(r, vf_dyadic(name, -1000, 1000, 2)); };
  for (auto& e : a) e = one("a");
  for (auto& e : b) e = one("b");
  const C k = one("k");
  const auto sum = a + b, dif = a - b, plus = a + k, plus2 = k + a, minus = a - k, minus2 = k - a, neg = -a, twice = a * C(2), twice2 = C(2) * a, half = a / C(2);
  for (std::size_t i = 0; i < n; ++i) {
    vf_assert(sum[i] == a[i] + b[i] && dif[i] == a[i] - b[i] && plus[i] == a[i] + k && plus2[i] == a[i] + k && minus[i] == a[i] - k && minus2[i] == k - a[i] && neg[i] == -a[i], "additive operators");
    vf_assert(twice[i] == a[i] + a[i] && twice2[i] == twice[i] && half[i] * C(2) == a[i], "multiplicative operators");
  }
  Sequence<C> c(a);
  c += b;
  vf_assert(c == sum, "V += U");
  c -= b;
  c += k;
  vf_assert(c == plus, "V += a");
  vf_reach("end");
}
VF_CASE(raster4) { rasters<4>(pickPos<4>("s", 4, 1, 2)); }
// large containers
template <typename T>
static void large() {
  Sequence<T> a(pickLarge("n"));
  const long n = a.size(), at = largeFill(a, "a", -1000, 1000);
  Sequence<T> b(n);
  for (long i = 0; i < n; ++i) b[i] = T(i % 19 + 1);
  const T k = 3;
  const auto add = a + b, sub = a - b, mul = a * b, ak = a + k, mk = k * a;
  auto in = a;
  in += b;
  in -= k;
  in *= k;
  bool same = true; // but at the arbitrary element
  for (long i = 0; i < n; ++i) {
    const T x = a[i], y = b[i];
    const bool ok = add[i] == T(x + y) && sub[i] == T(x - y) && mul[i] == T(x * y) && ak[i] == T(x + k) && mk[i] == T(k * x) && in[i] == T((x + y - k) * k);
    if (i == at) vf_assert(ok, "arbitrary element");
    else same = same && ok;
  }
  vf_assert(same && long(add.size()) == n, "other elements");
  const auto div = b / k;
  same = true;
  for (long i = 0; i < n; ++i) same = same && div[i] == T(b[i] / k);
  vf_assert(same, "division");
  vf_reach("end");
}
VF_CASE(largeInt) { large<int>(); }
VF_CASE(largeDouble) { large<double>(); }
VF_CASE(largeRaster) {
  Raster<long> a({300, pickLarge("h", 300)});
  const long at = largeFill(a, "a", -1000000, 1000000), n = a.size();
  const auto b = a * 2l, c = b - a;
  vf_assert(b.shape() == a.shape() && c == a, "twice minus once");
  vf_assert(b[at] == 2 * a[at] && b[n - 1] == 2 * a[n - 1], "twice");
  vf_reach("end");
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_seq) { seqCase<int>(0); seqCase<int>(0); }
VF_CASE(again_far) { far<int>(-1000000000, 1000000000); far<int>(-1000000000, 1000000000); }
