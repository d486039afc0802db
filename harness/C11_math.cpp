#include <cstring>
#include "lt.h"
#include <LitlContainer/Sequence.h>
// NOTE: sequences of 0 to 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64 or 129 elements, 255 to 70000 of which one is arbitrary (max and min: 0 to 3 elements, and one arbitrary element anywhere among 17) and 2x2 rasters, and complex rasters of up to 3x2 elements, of parts multiple of 1/4 (1/8 in single precision) within [-500, 500] ([-125, 125]); element types double, float, int and long (for the functions of two operands, also of different types). Rounding, min, max and abs are computed exactly; transcendental functions are uninterpreted (the property is which function is applied to which elements), so that libm itself is outside the bounds. tgamma/lgamma and other functions with a possible side effect on errno included

template <typename T>
static bool same(T a, T b) { return a == b; }
template <>
bool same<double>(double a, double b) { return vf_same_d(a, b); }
template <>
bool same<float>(float a, float b) { return vf_same_f(a, b); }
template <typename T>
static T any(const char* n) { return T(vf_int(n, -1000, 1000)); }
template <>
double any<double>(const char* n) { return vf_dyadic(n, -2000, 2000, 2); }
template <>
float any<float>(const char* n) { return float(vf_int(n, -1000, 1000)) / 8; }

template <typename T>
static Sequence<T> in(const char* name, bool large = true) {
  Sequence<T> s(vf_size("n", 3, large));
  for (auto& e : s) e = any<T>(name);
  return s;
}

#define UNARY(f) { Sequence<T> c(a); Sequence<T>& r = c.f(); vf_assert(&r == &c && c.size() == a.size(), #f " in place returns itself"); \
  const Sequence<T> d = f(a); vf_assert(d.size() == a.size(), #f " size"); \
  for (std::size_t i = 0; i < a.size(); ++i) { const T e = T(std::f(a[i])); vf_assert(same<T>(c[i], e), #f " in place"); vf_assert(same<T>(d[i], e), #f " of a new instance"); } }
#define BINARY(f) { Sequence<T> c(a); const Sequence<T>& r = c.f(b); vf_assert(&r == &c && c.size() == a.size(), #f " in place returns itself"); \
  const Sequence<T> d = Litl::f(a, b); Sequence<T> m(a); m.f(k); const Sequence<T> n = Litl::f(a, k); vf_assert(d.size() == a.size() && n.size() == a.size(), #f " size"); \
  for (std::size_t i = 0; i < a.size(); ++i) { const T e = T(std::f(a[i], b[i])), g = T(std::f(a[i], k)); \
  vf_assert(same<T>(c[i], e), #f " with a container, in place"); vf_assert(same<T>(d[i], e), #f " with a container, of a new instance"); \
  vf_assert(same<T>(m[i], g), #f " with a scalar, in place"); vf_assert(same<T>(n[i], g), #f " with a scalar, of a new instance"); } }

template <typename T>
static void rounding() {
  const auto a = in<T>("a");
  UNARY(abs) UNARY(ceil) UNARY(floor) UNARY(trunc) UNARY(round)
  for (std::size_t i = 0; i < a.size(); ++i) vf_assert(abs(a)[i] == (a[i] < 0 ? -a[i] : a[i]), "absolute value");
  vf_reach("end");
}
VF_CASE(roundingDouble) { rounding<double>(); }
VF_CASE(roundingFloat) { rounding<float>(); }
VF_CASE(roundingInt) { rounding<int>(); }
template <typename T>
static void trigo() {
  const auto a = in<T>("a");
  UNARY(cos) UNARY(sin) UNARY(tan) UNARY(acos) UNARY(asin) UNARY(atan) UNARY(cosh) UNARY(sinh) UNARY(tanh) UNARY(acosh) UNARY(asinh) UNARY(atanh)
  vf_reach("end");
}
VF_CASE(trigoDouble) { trigo<double>(); }
VF_CASE(trigoFloat) { trigo<float>(); }
template <typename T>
static void expo() {
  const auto a = in<T>("a");
  UNARY(exp) UNARY(exp2) UNARY(expm1) UNARY(log) UNARY(log2) UNARY(log10) UNARY(logb) UNARY(ilogb) UNARY(log1p) UNARY(sqrt) UNARY(cbrt) UNARY(erf) UNARY(erfc) UNARY(tgamma) UNARY(lgamma)
  vf_reach("end");
}
VF_CASE(expoDouble) { expo<double>(); }
VF_CASE(expoFloat) { expo<float>(); }
template <typename T>
static void extrema(bool wide = false) {
  auto a = wide ? Sequence<T>(17) : in<T>("a", false);
  Sequence<T> b(a.size());
  if (wide) { // mostly constant
    for (long i = 0; i < 17; ++i) { a[i] = T((i * 7) % 5 - 2); b[i] = T((i * 3) % 7 - 3); }
    const long j = vf_pick("j", 0, 16);
    a[j] = any<T>("a");
    b[j] = any<T>("b");
  } else {
    for (auto& e : b) e = any<T>("b");
  }
  const T k = any<T>("k");
  BINARY(max) BINARY(min)
  for (std::size_t i = 0; i < a.size(); ++i) {
    const T m = Litl::max(a, b)[i], n = Litl::min(a, k)[i];
    vf_assert(m >= a[i] && m >= b[i] && (m == a[i] || m == b[i]), "max");
    vf_assert(n <= a[i] && n <= k && (n == a[i] || n == k), "min");
  }
  vf_reach("end");
}
VF_CASE(extremaDouble) { extrema<double>(); }
VF_CASE(extremaWideDouble) { extrema<double>(true); }
VF_CASE(extremaWideInt) { extrema<int>(true); }
VF_CASE(extremaInt) { extrema<int>(); }
template <typename T>
static void binary() {
  const auto a = in<T>("a");
  Sequence<T> b(a.size());
  for (auto& e : b) e = any<T>("b");
  const T k = any<T>("k");
  BINARY(fdim) BINARY(fmod) BINARY(atan2) BINARY(pow) BINARY(hypot)
  vf_reach("end");
}
VF_CASE(binaryDouble) { binary<double>(); }
VF_CASE(binaryFloat) { binary<float>(); }
// rasters: new instances keep the shape and leave the input unchanged; functions can be chained; the other operand may be the raster itself
VF_CASE(rasters) {
  VecRaster<double, 2> a({2, 2});
  for (auto& e : a) e = any<double>("a");
  const VecRaster<double, 2> in(a);
  const auto s = sqrt(a), p = pow(a, 2.), q = hypot(a, a);
  vf_assert(a == in && s.shape() == a.shape() && p.shape() == a.shape() && q.shape() == a.shape(), "new instance");
  a.abs().sqrt().floor();
  for (std::size_t i = 0; i < 4; ++i) {
    vf_assert(vf_same_d(a[i], std::floor(std::sqrt(std::abs(in[i])))), "chained functions");
    vf_assert(vf_same_d(s[i], std::sqrt(in[i])) && vf_same_d(q[i], std::hypot(in[i], in[i])) && vf_same_d(p[i], std::pow(in[i], 2.)), "values");
  }
  vf_reach("end");
}
VF_CASE(piConstant) {
  vf_assert(pi<double>() == 3.141592653589793, "pi");
  vf_assert(pi<float>() == 3.14159274f, "pi, single precision");
  vf_assert(pi<double>() == 3.141592653589793, "pi, again");
  vf_reach("end");
}
// any real elements
static double anyReal(const char* n) {
  const long b = vf_int(n, std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  double v;
  std::memcpy(&v, &b, 8);
  return v;
}
static float anyRealf(const char* n) {
  const unsigned b = unsigned(vf_int(n, 0, 4294967295l));
  float v;
  std::memcpy(&v, &b, 4);
  return v;
}
VF_CASE(roundingAny) {
  typedef double T;
  Sequence<T> a(2);
  for (auto& e : a) e = anyReal("a");
  UNARY(abs) UNARY(ceil) UNARY(floor) UNARY(trunc) UNARY(round)
  vf_reach("end");
}
VF_CASE(roundingAnyFloat) {
  typedef float T;
  Sequence<T> a(2);
  for (auto& e : a) e = anyRealf("a");
  UNARY(abs) UNARY(ceil) UNARY(floor) UNARY(trunc) UNARY(round)
  vf_reach("end");
}
VF_CASE(roundingAnyInt) {
  typedef int T;
  Sequence<T> a(2);
  for (auto& e : a) e = int(vf_int("a", -2147483647l, 2147483647l));
  UNARY(abs) UNARY(ceil) UNARY(floor) UNARY(trunc) UNARY(round)
  vf_reach("end");
}
VF_CASE(extremaAny) {
  typedef double T;
  Sequence<T> a(1), b(1);
  a[0] = anyReal("a");
  b[0] = anyReal("b");
  const T k = anyReal("k");
  BINARY(max) BINARY(min) BINARY(fdim) BINARY(fmod) BINARY(atan2) BINARY(pow) BINARY(hypot)
  vf_reach("end");
}
VF_CASE(extremaLong) {
  typedef long T;
  const long M = std::numeric_limits<long>::max();
  Sequence<T> a(2), b(2);
  for (auto& e : a) e = vf_int("a", -M, M);
  for (auto& e : b) e = vf_int("b", -M, M);
  const T k = vf_int("k", -M, M);
  BINARY(max) BINARY(min)
  vf_reach("end");
}
VF_CASE(functionsAny) {
  typedef double T;
  Sequence<T> a(1);
  a[0] = anyReal("a");
  UNARY(cos) UNARY(sin) UNARY(tan) UNARY(acos) UNARY(asin) UNARY(atan) UNARY(cosh) UNARY(sinh) UNARY(tanh) UNARY(acosh) UNARY(asinh) UNARY(atanh)
  UNARY(exp) UNARY(exp2) UNARY(expm1) UNARY(log) UNARY(log2) UNARY(log10) UNARY(logb) UNARY(log1p) UNARY(sqrt) UNARY(cbrt) UNARY(erf) UNARY(erfc) UNARY(tgamma) UNARY(lgamma)
  vf_reach("end");
}
// complex rasters: real-valued functions
template <typename T, typename F>
static void complexParts(F&& value) {
  const long w = vf_pick("width", 0, 3), h = vf_pick("height", 1, 2);
  Raster<std::complex<T>> a({w, h});
  for (auto& e : a) {
    const T re = value("re");
    const T im = value("im");
    e = {re, im};
  }
  const Raster<std::complex<T>> in(a);
  const Raster<T> re = real(a), im = imag(a), m = abs(a), p = arg(a), n = norm(a);
  vf_assert(a == in && re.shape() == in.shape() && im.shape() == in.shape() && m.shape() == in.shape() && p.shape() == in.shape() && n.shape() == in.shape(), "new instances with the same shape");
  for (std::size_t i = 0; i < in.size(); ++i) {
    const T x = in[i].real(), y = in[i].imag();
    vf_assert(re[i] == x && im[i] == y, "real and imaginary parts");
    vf_assert(n[i] == x * x + y * y, "squared modulus");
    vf_assert(same<T>(m[i], std::hypot(x, y)), "modulus");
    vf_assert(same<T>(p[i], std::atan2(y, x)), "argument");
  }
  vf_reach("end");
}
VF_CASE(complexDouble) { complexParts<double>([](const char* n) { return any<double>(n); }); }
VF_CASE(complexFloat) { complexParts<float>([](const char* n) { return any<float>(n); }); }
// signs of the zeros
VF_CASE(signed_zeros) {
  const double vals[] = {-0., 0., -.25, .25, -.5, -.75, 1.5};
  Sequence<double> a(3);
  for (auto& e : a) e = vals[vf_pick("a", 0, 6)];
  const auto check = [&](const Sequence<double>& out, double (*f)(double)) {
    for (std::size_t i = 0; i < 3; ++i) {
      const double e = f(a[i]);
      vf_assert(out[i] == e && std::signbit(out[i]) == std::signbit(e), "value and sign");
    }
  };
  check(abs(a), [](double x) { return std::abs(x); });
  check(ceil(a), [](double x) { return std::ceil(x); });
  check(floor(a), [](double x) { return std::floor(x); });
  check(trunc(a), [](double x) { return std::trunc(x); });
  check(round(a), [](double x) { return std::round(x); });
  auto in = a;
  check(in.abs(), [](double x) { return std::abs(x); });
  in = a;
  check(in.ceil(), [](double x) { return std::ceil(x); });
  in = a;
  check(in.round(), [](double x) { return std::round(x); });
  vf_reach("end");
}
// large containers
VF_CASE(largeContainers) {
  Sequence<double> a(pickLarge("n"));
  const long n = a.size(), at = largeFill(a, "a", -1000, 1000);
  auto b = a;
  b.abs().max(5.);
  const auto c = floor(a), d = sqrt(abs(a)), e = Litl::min(a, c);
  bool same = true;
  for (long i = 0; i < n; ++i) {
    if (i != at) same = same && b[i] == (a[i] < 5 ? 5 : a[i]) && c[i] == a[i] && vf_same_d(d[i], std::sqrt(a[i])) && e[i] == a[i];
    else vf_assert(b[i] == std::max(std::abs(a[i]), 5.) && c[i] == a[i] && vf_same_d(d[i], std::sqrt(std::abs(a[i]))) && e[i] == a[i], "arbitrary element");
  }
  vf_assert(same, "other elements");
  vf_reach("end");
}
// operands of other types than the elements': computed as by the standard functions, then converted
template <typename T, typename U>
static void mixed() {
  Sequence<T> a(2);
  Sequence<U> b(2);
  for (auto& e : a) e = any<T>("a");
  for (auto& e : b) e = any<U>("b");
  const U k = any<U>("k");
  BINARY(fdim) BINARY(fmod) BINARY(atan2) BINARY(pow) BINARY(hypot)
  vf_reach("end");
}
VF_CASE(mixedIntDouble) { mixed<int, double>(); }
VF_CASE(mixedIntFloat) { mixed<int, float>(); }
VF_CASE(mixedLongInt) { mixed<long, int>(); }
VF_CASE(mixedFloatDouble) { mixed<float, double>(); }
VF_CASE(mixedFloatInt) { mixed<float, int>(); }
VF_CASE(mixedDoubleFloat) { mixed<double, float>(); }
VF_CASE(mixedDoubleInt) { mixed<double, int>(); }
VF_CASE(binaryInt) { mixed<int, int>(); }
VF_CASE(trigoInt) { trigo<int>(); }
VF_CASE(expoInt) { // but exp2, which the compiler replaces with another function
  typedef int T;
  const auto a = in<T>("a");
  UNARY(exp) UNARY(expm1) UNARY(log) UNARY(log2) UNARY(log10) UNARY(logb) UNARY(ilogb) UNARY(log1p) UNARY(sqrt) UNARY(cbrt) UNARY(erf) UNARY(erfc) UNARY(tgamma) UNARY(lgamma)
  vf_reach("end");
}
VF_CASE(trigoLong) { trigo<long>(); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_extrema) { extrema<double>(); extrema<double>(); }
VF_CASE(again_mixed) { mixed<int, double>(); mixed<int, double>(); }
VF_CASE(again_binary) { binary<double>(); binary<double>(); }
