#include "vf.h"
#include <complex>
#include <cstring>
#include <limits>
#include <tuple>
#include <array>
#include <map>
#include <deque>
#include <list>
#include <string>
#include <LitlTypes/TypeUtils.h>
#include <LitlTypes/SeqUtils.h>
#include <LitlTypes/Segment.h>
using namespace Litl;
// NOTE: any values of integral types, with bounds of the same type, a wider one or a narrower one; any float or double value but NaN to clamp, any value of magnitude less than 2^24 (float) or 2^52 (double) and in the range of the integer type to floor; sequences of 0 to 4 and 20 (up to 70000 with an arbitrary one) elements of magnitude up to 10^6; tuples of up to 8 types; limits of all supported types

template <typename T, typename U>
static void clampCase(long lo, long hi, long ulo, long uhi) {
  const T in = T(vf_int("in", lo, hi));
  const U a = U(vf_int("min", ulo, uhi));
  const U b = U(vf_int("max", ulo, uhi));
  vf_assume(a <= b);
  vf_assume(std::is_floating_point<T>::value || (a <= U(std::numeric_limits<T>::max()) && b >= U(std::numeric_limits<T>::lowest()))); // bounds may not be representable, but there is an output
  const T out = Litl::clamp(in, a, b);
  vf_assert(out >= a && out <= b, "between the bounds");
  vf_assert(!(in >= a && in <= b) || out == in, "inside values are not changed");
  vf_assert(!(in < a) || out == a, "lower bound");
  vf_assert(!(in > b) || out == b, "upper bound");
  vf_reach("end");
}
VF_CASE(clamp_int) { clampCase<int, int>(-1000000000, 1000000000, -1000000000, 1000000000); }
VF_CASE(clamp_long) { clampCase<long, int>(-4000000000l, 4000000000l, -1000000000, 1000000000); }
VF_CASE(clamp_char) { clampCase<signed char, signed char>(-128, 127, -128, 127); }
VF_CASE(clamp_uchar) { clampCase<unsigned char, unsigned char>(0, 255, 0, 255); }
VF_CASE(clamp_short) { clampCase<short, int>(-32768, 32767, -32768, 32767); }
VF_CASE(clamp_mixed) { clampCase<signed char, int>(-128, 127, -1000, 1000); }
VF_CASE(clamp_wide) { clampCase<short, long>(-32768, 32767, -5000000000l, 5000000000l); }
VF_CASE(clamp_real) {
  const short in = vf_int("in", -32768, 32767);
  const double a = vf_dyadic("min", -800000, 800000, 3), b = vf_dyadic("max", -800000, 800000, 3);
  vf_assume(a <= b && a <= 32767 && b >= -32768);
  const short out = Litl::clamp(in, a, b);
  vf_assert(!(in >= a && in <= b) || out == in, "inside values are not changed");
  vf_assert(!(in < a) || out == short(a), "lower bound");
  vf_assert(!(in > b) || out == short(b), "upper bound");
  vf_reach("end");
}
VF_CASE(limits_quad) {
  using L = Limits<long double>;
  vf_assert(L::zero() == 0.L && L::one() == 1.L && L::max() == std::numeric_limits<long double>::max() && L::min() == -L::max(), "limits");
  vf_assert(L::inf() == std::numeric_limits<long double>::infinity(), "infinity");
  vf_assert(L::halfMax() == L::max() / 2 && L::halfMin() == -L::halfMax(), "half limits");
  vf_reach("end");
}
VF_CASE(clamp_double) {
  const double in = vf_dyadic("in", -8000000, 8000000, 3), a = vf_dyadic("min", -8000000, 8000000, 3), b = vf_dyadic("max", -8000000, 8000000, 3);
  vf_assume(a <= b);
  const double out = Litl::clamp(in, a, b);
  vf_assert(out == (in < a ? a : in > b ? b : in), "nearest value between the bounds");
  const float fin = in, fout = Litl::clamp(fin, float(a), float(b));
  vf_assert(double(fout) == out, "single precision");
  vf_reach("end");
}
template <typename TInt, typename TFloat>
static void floorCase(long max) {
  const long m = vf_int("m", std::is_unsigned<TInt>::value ? 0 : -max, max);
  const TFloat x = TFloat(m) / 8;
  const long out = Litl::floor<TInt>(x);
  vf_assert(out * 8 <= m && m < out * 8 + 8, "largest integer which is not greater");
  vf_reach("end");
}
VF_CASE(floor_index_double) { floorCase<Index, double>(8000000); }
VF_CASE(floor_index_float) { floorCase<Index, float>(1000000); }
VF_CASE(floor_int_double) { floorCase<int, double>(8000000); }
VF_CASE(floor_short_float) { floorCase<short, float>(32767 * 8); }
VF_CASE(floor_uint_double) { floorCase<unsigned int, double>(8000000); }

template <typename T>
static void limitsOf(long one, double half, double maxd) {
  using L = Limits<T>;
  vf_assert(L::zero() == T(0) && L::one() == T(one), "zero and one");
  vf_assert(L::min() == std::numeric_limits<T>::lowest() && L::max() == std::numeric_limits<T>::max(), "lowest and highest values");
  vf_assert(L::inf() == (std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max()), "infinity, or the highest value");
  vf_assert(double(L::max()) == maxd && double(L::halfMax()) == half, "half of the highest value, rounded up");
  vf_assert(double(L::halfMin()) == double(L::min()) / 2 || std::is_same<T, bool>::value, "half of the lowest value");
  vf_assert(L::almostMin() >= L::min() && L::almostMax() <= L::max(), "almost extremal values are between the extremal ones");
  using F = typename TypeTraits<T>::Floating;
  vf_assert((std::is_same<F, std::conditional_t<std::is_floating_point<T>::value, T, double>>::value) && (std::is_same<typename TypeTraits<T>::Scalar, T>::value), "associated types");
}
template <typename T>
static void limitsOfComplex() {
  using C = std::complex<T>;
  using L = Limits<C>;
  using R = Limits<T>;
  vf_assert(L::zero() == C(0, 0) && L::one() == C(1, 1), "complex zero and one");
  vf_assert(L::min() == C(R::min(), R::min()) && L::max() == C(R::max(), R::max()) && L::inf() == C(R::inf(), R::inf()), "complex limits");
  vf_assert(L::halfMin() == C(R::halfMin(), R::halfMin()) && L::halfMax() == C(R::halfMax(), R::halfMax()), "complex halves");
  vf_assert((std::is_same<typename TypeTraits<C>::Scalar, T>::value), "scalar type");
}
VF_CASE(limits) {
  limitsOf<bool>(1, 1, 1);
  limitsOf<unsigned char>(1, 128, 255);
  limitsOf<char>(1, 64, 127);
  limitsOf<signed char>(1, 64, 127);
  limitsOf<unsigned short>(1, 32768, 65535);
  limitsOf<short>(1, 16384, 32767);
  limitsOf<unsigned int>(1, 2147483648., 4294967295.);
  limitsOf<int>(1, 1073741824, 2147483647);
  limitsOf<unsigned long>(1, 9223372036854775808., 18446744073709551615.);
  limitsOf<long>(1, 4611686018427387904., 9223372036854775807.);
  limitsOf<double>(1, std::numeric_limits<double>::max() / 2, std::numeric_limits<double>::max());
  limitsOf<float>(1, std::numeric_limits<float>::max() / 2, std::numeric_limits<float>::max());
  limitsOfComplex<float>();
  limitsOfComplex<double>();
  vf_reach("end");
}
VF_CASE(scalars) {
  const long a = vf_int("a", -1000000, 1000000);
  vf_assert(TypeTraits<int>::fromScalar(int(a)) == a && TypeTraits<double>::fromScalar(double(a)) == double(a), "scalar");
  vf_assert(TypeTraits<std::complex<double>>::fromScalar(double(a)) == std::complex<double>(a, a), "both parts");
  int calls = 0;
  const long step = vf_int("step", -1000, 1000);
  auto f = [&](long x) { return double(x + step * calls++); };
  vf_assert(TypeTraits<double>::applyScalar(f, a) == double(a) && calls == 1, "called once");
  calls = 0;
  const auto c = TypeTraits<std::complex<double>>::applyScalar(f, a);
  vf_assert(c.real() == double(a) && c.imag() == double(a + step) && calls == 2, "called for the real part and then for the imaginary part");
  vf_reach("end");
}
// sequences
VF_CASE(tuples) {
  const int a = vf_int("a", -1000000, 1000000);
  const long b = vf_int("b", -1000000, 1000000);
  const double c = vf_dyadic("c", -1000, 1000, 3);
  std::tuple<int, long, double> t(a, b, c);
  struct S { int a; long b; double c; };
  const auto s = tupleAs<S>(t);
  vf_assert(s.a == a && s.b == b && s.c == c, "tuple as a structure");
  const double r = tupleApply(t, [](int x, long y, double z) { return double(x) - 2. * double(y) + 4. * z; });
  vf_assert(r == double(a) - 2. * double(b) + 4. * c, "arguments in order");
  auto& ref = tupleApply(t, [](int& x, long&, double&) -> int& { return x; });
  vf_assert(&ref == &std::get<0>(t), "references are preserved");
  double visited[3] = {0, 0, 0};
  int n = 0;
  seqForeach(t, [&](const auto& e) { visited[n++] = double(e); });
  vf_assert(n == 3 && visited[0] == double(a) && visited[1] == double(b) && visited[2] == c, "each element once, in order");
  seqForeach(t, [&](auto& e) { e += 1; });
  vf_assert(std::get<0>(t) == a + 1 && std::get<1>(t) == b + 1 && std::get<2>(t) == c + 1, "elements are modified");
  const auto u = seqTransform<S>(t, [](const auto& e) { return e + e; });
  vf_assert(u.a == 2 * a + 2 && u.b == 2 * b + 2 && u.c == 2 * c + 2, "transformed elements");
  const auto v = seqTransform<std::vector<double>>(std::array<int, 2> {a, a + 5}, [](int e) { return double(e) / 2; });
  vf_assert(v.size() == 2 && v[0] == double(a) / 2 && v[1] == (double(a) + 5) / 2, "transformed array");
  n = 0;
  seqForeach(std::tuple<>(), [&](const auto&) { ++n; });
  vf_assert(n == 0, "empty tuple");
  vf_assert(isTuple<std::tuple<int>>() && isTuple<std::array<int, 3>&>() && isTuple<const std::tuple<>&>() && !isTuple<std::vector<int>>() && !isTuple<std::string>(), "tuples");
  vf_assert(isIterable<std::vector<int>>::value && isIterable<std::string>::value && !isIterable<int>::value && !isIterable<std::tuple<int>>::value, "iterables");
  vf_reach("end");
}
template <typename TSeq>
static void sequences() {
  const long size = vf_pick("size", 0, 4);
  TSeq seq;
  long ref[4];
  for (long i = 0; i < size; ++i) { ref[i] = vf_int("e", -1000000, 1000000); seq.push_back(int(ref[i])); }
  const TSeq& cseq = seq;
  long n = 0;
  bool same = true;
  seqForeach(cseq, [&](const int& e) { same = same && e == ref[n]; ++n; });
  vf_assert(n == size && same, "each element once, in order");
  n = 0;
  seqForeach(seq, [&](int& e) { e = e * 2 + int(n++); });
  vf_assert(n == size, "each element once, in order");
  n = 0;
  for (auto e : seq) { vf_assert(e == ref[n] * 2 + n, "elements are modified"); ++n; }
  const auto out = seqTransform<std::vector<long>>(cseq, [](int e) { return long(e) - 7; });
  vf_assert(long(out.size()) == size, "size of the transformed sequence");
  for (n = 0; n < size; ++n) vf_assert(out[n] == ref[n] * 2 + n - 7, "transformed elements");
  vf_reach("end");
}
VF_CASE(sequence_vector) { sequences<std::vector<int>>(); }
VF_CASE(sequence_deque) { sequences<std::deque<int>>(); }
VF_CASE(iterators) {
  int a[4];
  double b[4];
  for (int i = 0; i < 4; ++i) { a[i] = vf_int("a", -1000000, 1000000); b[i] = vf_dyadic("b", -1000, 1000, 3); }
  std::tuple<const int*, double*> its(a, b);
  const long n = vf_pick("n", 1, 4);
  for (long i = 0; i < n; ++i) {
    const double r = iteratorTupleApply(its, [](const int& x, double& y) { const double o = double(x) - y; y = 0; return o; });
    vf_assert(std::get<0>(its) == a + i + 1 && std::get<1>(its) == b + i + 1, "iterators are incremented once");
    vf_assert(b[i] == 0, "elements are referred to");
    (void)r;
  }
  for (long i = n; i < 4; ++i) vf_assert(b[i] == b[i], "others are not modified");
  vf_reach("end");
}
VF_CASE(segment) {
  const Index front = vf_int("front", -1000000, 1000000), back = vf_int("back", -1000001, 1000000);
  vf_assume(back >= front - 1);
  const Segment s(front, back);
  vf_assert(s.front() == front && s.back() == back && Index(s.size()) == back - front + 1, "segment of given bounds");
  const auto t = Segment::fromSize(front, s.size());
  vf_assert(t.front() == front && t.back() == back && t.size() == s.size(), "segment of given size");
  vf_reach("end");
}
// large values
VF_CASE(floor_index_large) {
  const long m = vf_int("m", -140737488355328l, 140737488355328l); // 2^47
  const double x = double(m) / 8;
  const Index out = Litl::floor<Index>(x);
  vf_assert(out * 8 <= m && m < out * 8 + 8, "largest integer which is not greater");
  const long n = vf_int("n", -9007199254740992l, 9007199254740992l);
  vf_assert(Litl::floor<Index>(double(n)) == n, "integers are not changed");
  vf_reach("end");
}
VF_CASE(clamp_large) {
  const long x = vf_int("x", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  const long a = vf_int("a", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  const long b = vf_int("b", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  vf_assume(a <= b);
  vf_assert(Litl::clamp(x, a, b) == (x < a ? a : x > b ? b : x), "nearest value between the bounds");
  vf_reach("end");
}
// the elements themselves are given to the function
VF_CASE(references) {
  const std::vector<int> cv {1, 2, 3};
  std::vector<int> v {1, 2, 3};
  std::list<int> l {1, 2};
  const std::tuple<int, double> ct(1, 2.);
  std::array<int, 2> a {1, 2};
  const void* seen[8];
  int n = 0;
  seqForeach(cv, [&](const int& e) { seen[n++] = &e; });
  vf_assert(n == 3 && seen[0] == &cv[0] && seen[1] == &cv[1] && seen[2] == &cv[2], "elements of a constant sequence");
  n = 0;
  seqForeach(v, [&](int& e) { seen[n++] = &e; });
  vf_assert(n == 3 && seen[0] == &v[0] && seen[1] == &v[1] && seen[2] == &v[2], "elements of a sequence");
  n = 0;
  seqForeach(l, [&](int& e) { seen[n++] = &e; });
  vf_assert(n == 2 && seen[0] == &l.front() && seen[1] == &l.back(), "elements of a list");
  n = 0;
  seqForeach(ct, [&](const auto& e) { seen[n++] = &e; });
  vf_assert(n == 2 && seen[0] == &std::get<0>(ct) && seen[1] == &std::get<1>(ct), "elements of a constant tuple");
  n = 0;
  seqForeach(a, [&](int& e) { seen[n++] = &e; });
  vf_assert(n == 2 && seen[0] == &a[0] && seen[1] == &a[1], "elements of an array");
  n = 0;
  const auto t = seqTransform<std::vector<const int*>>(cv, [&](const int& e) { ++n; return &e; });
  vf_assert(n == 3 && t.size() == 3 && t[0] == &cv[0] && t[2] == &cv[2], "elements of a transformed sequence");
  vf_reach("end");
}
VF_CASE(sequence_long) {
  std::vector<int> v(20);
  for (auto& e : v) e = vf_int("e", -1000, 1000);
  long n = 0;
  seqForeach(v, [&](const int& e) { vf_assert(&e == &v[n], "in order"); ++n; });
  vf_assert(n == 20, "each element once");
  const auto out = seqTransform<std::vector<long>>(v, [](int e) { return 3l * e; });
  vf_assert(out.size() == 20, "size");
  for (n = 0; n < 20; ++n) vf_assert(out[n] == 3l * v[n], "transformed elements");
  vf_reach("end");
}
// whole ranges
template <typename T>
static T anyOf(const char* name) {
  const long bits = vf_int(name, std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  T out;
  std::memcpy(&out, &bits, sizeof(T));
  return out;
}
template <typename T>
static void clampWhole() {
  const T in = anyOf<T>("in");
  const T a = anyOf<T>("min");
  const T b = anyOf<T>("max");
  vf_assume(a <= b);
  vf_assume(in == in);
  const T out = Litl::clamp(in, a, b);
  vf_assert(out == (in < a ? a : in > b ? b : in), "nearest value between the bounds");
  vf_reach("end");
}
VF_CASE(whole_int) { clampWhole<int>(); }
VF_CASE(whole_uint) { clampWhole<unsigned int>(); }
VF_CASE(whole_ushort) { clampWhole<unsigned short>(); }
VF_CASE(whole_long) { clampWhole<long>(); }
VF_CASE(whole_ulong) { clampWhole<unsigned long>(); }
VF_CASE(whole_float) { clampWhole<float>(); } // infinities included
VF_CASE(whole_double) { clampWhole<double>(); }
template <typename T, typename U>
static void clampWide() {
  const T in = anyOf<T>("in");
  const U a = anyOf<U>("min");
  const U b = anyOf<U>("max");
  vf_assume(a <= b && a <= U(std::numeric_limits<T>::max()) && b >= U(std::numeric_limits<T>::lowest()));
  const T out = Litl::clamp(in, a, b);
  vf_assert(out == (U(in) < a ? T(a) : U(in) > b ? T(b) : in), "nearest value between the bounds");
  vf_reach("end");
}
VF_CASE(wide_int_long) { clampWide<int, long>(); }
VF_CASE(wide_uint_long) { clampWide<unsigned int, long>(); }
VF_CASE(wide_short_int) { clampWide<short, int>(); }
VF_CASE(wide_uchar_int) { clampWide<unsigned char, int>(); }
VF_CASE(wide_uchar_long) { clampWide<unsigned char, long>(); }
VF_CASE(wide_schar_short) { clampWide<signed char, short>(); }
template <typename T, typename U>
static void clampNarrow() { // bounds of narrower type
  const T in = anyOf<T>("in");
  const U a = anyOf<U>("min");
  const U b = anyOf<U>("max");
  vf_assume(a <= b);
  vf_assume(in == in);
  const T out = Litl::clamp(in, a, b);
  vf_assert(out == (in < T(a) ? T(a) : in > T(b) ? T(b) : in), "nearest value between the bounds");
  vf_reach("end");
}
VF_CASE(narrow_long_int) { clampNarrow<long, int>(); }
VF_CASE(narrow_long_uchar) { clampNarrow<long, unsigned char>(); }
VF_CASE(narrow_int_ushort) { clampNarrow<int, unsigned short>(); }
VF_CASE(narrow_double_float) { clampNarrow<double, float>(); }
// any real number of magnitude below 2^62 (which includes all the fractions of a unit)
template <typename TInt, typename TFloat>
static void floorAny(double bound) {
  const TFloat x = anyOf<TFloat>("x");
  vf_assume(x >= TFloat(std::is_unsigned<TInt>::value ? 0 : -bound));
  vf_assume(x < TFloat(bound));
  const TInt out = Litl::floor<TInt>(x);
  vf_assert(TFloat(out) <= x, "not greater");
  vf_assert(x < TFloat(out) + 1, "largest such integer"); // exact sum
  vf_reach("end");
}
VF_CASE(floor_any_int_float) { floorAny<int, float>(16777216); }
VF_CASE(floor_any_short_float) { floorAny<short, float>(32768); }
VF_CASE(floor_any_index_float) { floorAny<Index, float>(16777216); }
VF_CASE(floor_any_int_double) { floorAny<int, double>(2147483648.); }
VF_CASE(floor_any_index_double) { floorAny<Index, double>(4503599627370496.); }
// longer tuples of mixed types
VF_CASE(tuple_long) {
  const int a = vf_int("a", -1000000, 1000000);
  const short b = vf_int("b", -32768, 32767);
  const unsigned char c = vf_int("c", 0, 255);
  const long d = vf_int("d", -1000000000000l, 1000000000000l);
  const double e = vf_dyadic("e", -1000000, 1000000, 3);
  const float f = float(vf_dyadic("f", -10000, 10000, 3));
  const int g = vf_int("g", -1000000, 1000000);
  const char h = vf_int("h", -128, 127);
  std::tuple<int, short, unsigned char, long, double, float, int, char> t(a, b, c, d, e, f, g, h);
  struct S { int a; short b; unsigned char c; long d; double e; float f; int g; char h; };
  const auto s = tupleAs<S>(t);
  vf_assert(s.a == a && s.b == b && s.c == c && s.d == d && s.e == e && s.f == f && s.g == g && s.h == h, "tuple as a structure");
  const auto p = tupleApply(t, [](auto&... es) { return std::array<const void*, 8> {&es...}; });
  vf_assert(p[0] == &std::get<0>(t) && p[1] == &std::get<1>(t) && p[2] == &std::get<2>(t) && p[3] == &std::get<3>(t), "elements are given in order");
  vf_assert(p[4] == &std::get<4>(t) && p[5] == &std::get<5>(t) && p[6] == &std::get<6>(t) && p[7] == &std::get<7>(t), "elements are given in order");
  const double ref[] {double(a), double(b), double(c), double(d), e, double(f), double(g), double(h)};
  int n = 0;
  seqForeach(t, [&](const auto& x) { vf_assert(double(x) == ref[n] && static_cast<const void*>(&x) == p[n], "each element once, in order"); ++n; });
  vf_assert(n == 8, "all the elements");
  n = 0;
  const auto u = seqTransform<std::array<double, 8>>(t, [&](const auto& x) { ++n; return double(x) / 2; });
  vf_assert(n == 8, "called once per element");
  for (int i = 0; i < 8; ++i) vf_assert(u[i] == ref[i] / 2, "transformed elements");
  int x[3], y[3];
  long z[3];
  for (int i = 0; i < 3; ++i) { x[i] = vf_int("x", -1000000, 1000000); y[i] = vf_int("y", -1000000, 1000000); z[i] = vf_int("z", -1000000, 1000000); }
  std::tuple<int*, const int*, const long*, std::vector<int>::const_iterator, std::list<int>::iterator> its;
  std::vector<int> v {x[0], x[1], x[2]};
  std::list<int> l {y[0], y[1], y[2]};
  its = decltype(its)(x, y, z, v.cbegin(), l.begin());
  for (int i = 0; i < 3; ++i) {
    const long r = iteratorTupleApply(its, [](int& p, const int& q, const long& r, const int& s, int& t) { t = 0; p = int(r); return 2l * q - r + 4l * s; });
    vf_assert(r == 2l * y[i] - z[i] + 4l * v[i] && x[i] == z[i], "elements in order");
  }
  vf_assert(l.front() == 0 && l.back() == 0 && std::get<3>(its) == v.cend() && std::get<4>(its) == l.end() && std::get<0>(its) == x + 3, "iterators at end");
  vf_reach("end");
}
VF_CASE(segment_far) {
  const Index front = vf_int("front", -1000000000000000l, 1000000000000000l), back = vf_int("back", -1000000000000001l, 1000000000000000l);
  vf_assume(back >= front - 1);
  const Segment s(front, back);
  vf_assert(s.front() == front && s.back() == back && Index(s.size()) == back - front + 1, "segment of given bounds");
  const auto t = Segment::fromSize(front, s.size());
  vf_assert(t.front() == front && t.back() == back && t.size() == s.size(), "segment of given size");
  vf_reach("end");
}
VF_CASE(large_sequence) {
  const long sizes[] = {255, 256, 1000, 4097, 70000}, n = sizes[vf_pick("n", 0, 4)];
  std::vector<int> v(n);
  for (long i = 0; i < n; ++i) v[i] = int(i);
  const int x = v[n - 2] = vf_int("x", -1000000, 1000000);
  const auto& c = v;
  long k = 0;
  bool same = true;
  seqForeach(c, [&](const int& e) { same = same && &e == &c[k]; ++k; });
  vf_assert(same && k == n, "each element once, in order");
  const auto out = seqTransform<std::vector<long>>(c, [](int e) { return long(e) * 2; });
  for (long i = 0; i < n; ++i) same = same && (i == n - 2 || out[i] == 2 * i);
  vf_assert(same && long(out.size()) == n && out[n - 2] == 2l * x, "transformed elements");
  vf_reach("end");
}
