#include <cstring>
#include "lt.h"
#include <LitlContainer/Sequence.h>
// NOTE: sizes 0 to 3, 4 or 5, and 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 129, and 300 for ranges, 255 to 70000 with one arbitrary element (extrema: up to 4 arbitrary elements, and one among 33); element types int, long, unsigned char, double (dyadic values and power-of-two divisions, so that ranges are exact); decreasing ranges for signed and floating types only; extrema on non-empty containers

template <typename T>
static T any(const char* n) { return T(vf_int(n, -1000, 1000)); }
template <>
unsigned char any<unsigned char>(const char* n) { return (unsigned char)vf_int(n, 0, 255); }
template <>
double any<double>(const char* n) { return vf_dyadic(n, -4000, 4000, 2); }
template <typename T>
static bool same(T a, T b) { return a == b; }
template <>
bool same<double>(double a, double b) { return vf_same_d(a, b); }
template <typename C>
static void fillAny(C& c, const char* name) {
  for (std::size_t i = 0; i < c.size(); ++i) c[i] = any<typename C::value_type>(name);
}

// construction and access
template <typename T>
static void access() {
  const long live = vf_heap_live();
  {
    const long n = vf_pick("n", 0, 4);
    Sequence<T> s(n);
    vf_assert((long)s.size() == n, "size");
    for (long i = 0; i < n; ++i) vf_assert(s[i] == T(0), "value-initialized");
    fillAny(s, "x");
    const Sequence<T>& c = s;
    vf_assert(c.emtpy() == (n == 0), "empty iff the size is 0");
    vf_assert(s.end() - s.begin() == n && c.end() - c.begin() == n && s.begin() == s.data() && c.begin() == c.data() && s.cbegin() == c.begin() && s.cend() == c.end(), "iterators span the data");
    long k = 0;
    for (auto& e : s) { vf_assert(&e == s.data() + k && &e == &s[k] && &e == &c[k], "elements are contiguous"); ++k; }
    vf_assert(k == n, "all elements are visited");
    if (n > 0) vf_assert(&s.front() == s.data() && &s.back() == s.data() + n - 1 && &c.front() == c.data() && &c.back() == c.data() + n - 1, "front and back");
    const long i = vf_int("i", -6, 6);
    const T* p = nullptr;
    const T* q = nullptr;
    const bool thrown = vf_throws_as<OutOfBoundsError>([&]() { p = &c.at(i); });
    const bool thrown2 = vf_throws_as<OutOfBoundsError>([&]() { q = &s.at(i); });
    vf_assert(thrown == (i < -n || i >= n) && thrown2 == thrown, "at() throws out of bounds");
    if (!thrown) vf_assert(p == c.data() + (i < 0 ? i + n : i) && q == p, "at() counts negative indices from the end");
    // other constructors
    std::vector<T> v(s.begin(), s.end());
    Sequence<T> w(v);
    vf_assert(w == s && !(w != s), "from an iterable");
    if (n > 0) { v[0] = v[0] + 1; vf_assert(w == s, "iterables are copied"); }
    Sequence<T> raw(n, s.data());
    vf_assert(raw == s && (n == 0 || raw.data() != s.data()), "raw data is copied");
    const T* d = v.data();
    Sequence<T> moved(n, std::move(v));
    vf_assert(moved.data() == d && (long)moved.size() == n, "vectors are moved");
    std::vector<T> out;
    moved.moveTo(out);
    vf_assert(out.data() == d && (long)out.size() == n, "moveTo gives the data away");
    vf_assert(vf_throws([&]() { Sequence<T> bad(n + 1, std::move(out)); }), "moving data of another size throws");
  }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
VF_CASE(accessInt) { access<int>(); }
VF_CASE(accessUchar) { access<unsigned char>(); }
VF_CASE(accessDouble) { access<double>(); }
VF_CASE(listOf) {
  const int a = vf_int("a", -9, 9), b = vf_int("b", -9, 9);
  const Sequence<int> s {a, b, 3};
  vf_assert(s.size() == 3 && s[0] == a && s[1] == b && s[2] == 3, "from a list");
  vf_reach("end");
}
template <typename C>
static void holders() {
  C a(3), b(3);
  for (int i = 0; i < 3; ++i) vf_assert(a[i] == 0, "value-initialized");
  fillAny(a, "a");
  b = a;
  vf_assert(b == a && b.data() != a.data(), "copy");
  b.fill(7);
  for (int i = 0; i < 3; ++i) vf_assert(b[i] == 7, "fill");
  typename C::Container out;
  (void)out;
  vf_reach("end");
}
VF_CASE(valarray) { holders<Sequence<int, StdHolder<std::valarray<int>>>>(); }
VF_CASE(array) { holders<Sequence<int, StdHolder<std::array<int, 3>>>>(); }

// equality
template <typename T>
static void equality() {
  const long n = vf_pick("n", 0, 3), m = vf_pick("m", 0, 3);
  Sequence<T> a(n), b(m);
  fillAny(a, "a");
  fillAny(b, "b");
  bool eq = n == m;
  for (long i = 0; i < n && i < m; ++i) eq = eq && a[i] == b[i];
  vf_assert((a == b) == eq && (a != b) == !eq && (b == a) == eq, "== iff same sizes and elements");
  vf_reach("end");
}
VF_CASE(equalityInt) { equality<int>(); }
VF_CASE(equalityDouble) { equality<double>(); }

// modifiers
template <typename T>
static void modifiers() {
  const long n = vf_size("n", 4);
  const T v = any<T>("v"), step = any<T>("step");
  Sequence<T> s(n), d(n);
  vf_assert(&s.fill(v) == &s, "fill returns itself");
  for (long i = 0; i < n; ++i) vf_assert(s[i] == v, "fill");
  vf_assert(&s.range(v, step) == &s, "range returns itself");
  T e = v;
  for (long i = 0; i < n; ++i, e += step) vf_assert(s[i] == e, "range is evenly spaced");
  d.range();
  for (long i = 0; i < n; ++i) vf_assert(d[i] == T(i), "default range");
  d.range(v);
  for (long i = 0; i < n; ++i) vf_assert(d[i] == T(v + i), "range with step 1");
  vf_reach("end");
}
// many elements: the step adds up without drift or overflow of the index
template <typename T>
static void manyRange() {
  const T v = any<T>("v"), step = any<T>("step");
  Sequence<T> s(300);
  s.range(v, step);
  T e = v;
  for (long i = 0; i < 300; ++i, e += step) vf_assert(s[i] == e, "long range");
  s.range(v);
  for (long i = 0; i < 300; ++i) vf_assert(s[i] == T(v + i), "long range with step 1");
  vf_reach("end");
}
VF_CASE(manyInt) { manyRange<int>(); }
VF_CASE(manyUchar) { manyRange<unsigned char>(); }
VF_CASE(manyDouble) { manyRange<double>(); }
VF_CASE(modifiersInt) { modifiers<int>(); }
VF_CASE(modifiersLong) { modifiers<long>(); }
VF_CASE(modifiersUchar) { modifiers<unsigned char>(); }
VF_CASE(modifiersDouble) { modifiers<double>(); }
template <typename T>
static void spaced() {
  const long n = vf_size("n", 5);
  const T lo = any<T>("lo"), hi = any<T>("hi");
  if (!std::is_signed<T>::value) vf_assume(lo <= hi);
  if (std::is_floating_point<T>::value) vf_assume(n < 3 || n == 3 || n == 5 || n == 9 || n == 17 || n == 33 || n == 129);
  Sequence<T> s(n);
  vf_assert(&s.linspace(lo, hi) == &s && (long)s.size() == n, "linspace returns itself");
  for (long i = 0; i < n - 1; ++i) vf_assert(same<T>(s[i], T(lo + (hi - lo) / (n - 1) * i)), "linspace formula");
  if (n > 1) vf_assert(s[0] == lo, "first value is the min");
  if (n > 0) vf_assert(s[n - 1] == hi, "last value is exactly the max");
  vf_reach("end");
}
VF_CASE(spacedInt) { spaced<int>(); }
VF_CASE(spacedLong) { spaced<long>(); }
VF_CASE(spacedUchar) { spaced<unsigned char>(); }
VF_CASE(spacedDouble) { spaced<double>(); }

// functions of zero, one or two containers
template <typename T>
static void functions() {
  const long n = vf_size("n", 3);
  Sequence<T> a(n), s(n);
  std::vector<int> b(n);
  fillAny(a, "a");
  for (auto& e : b) e = vf_int("b", -100, 100);
  fillAny(s, "s");
  const Sequence<T> in(s);
  long calls = 0;
  vf_assert(&s.generate([&]() { return T(calls++ + 5); }) == &s && calls == n, "one call per element");
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(i + 5), "generate, in order");
  s.generate([](T x) { return T(x + 1); }, a);
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(a[i] + 1), "generate from a container");
  s.generate([](T x, int y) { return T(2 * x - y); }, a, b);
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(2 * a[i] - b[i]), "generate from two containers");
  s = in;
  vf_assert(&s.apply([](T x) { return T(3 * x); }) == &s, "apply returns itself");
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(3 * in[i]), "apply");
  s = in;
  s.apply([](T x, T y) { return T(x - 2 * y); }, a);
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(in[i] - 2 * a[i]), "apply with a container");
  s = in;
  s.apply([](T x, T y, int z) { return T(x - 2 * y + 3 * z); }, a, b);
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(in[i] - 2 * a[i] + 3 * b[i]), "apply with two containers");
  s = in;
  s.apply([](T x, T y) { return T(x - 2 * y); }, s);
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(in[i] - 2 * in[i]), "apply with itself");
  // functors may be stateful: a functor given by reference keeps its state
  struct Count { long n = 0; T operator()() { return T(++n); } T operator()(T x) { return T(x + ++n); } T operator()(T x, T y) { return T(x + 2 * y + ++n); } } count;
  s.generate(count);
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(i + 1), "stateful generator");
  vf_assert(count.n == n, "the generator is called by reference");
  s.generate(count);
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(n + i + 1), "the generator goes on");
  s = in;
  s.apply(count);
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(in[i] + 2 * n + i + 1), "stateful function");
  s = in;
  s.apply(count, a);
  for (long i = 0; i < n; ++i) vf_assert(s[i] == T(in[i] + 2 * a[i] + 3 * n + i + 1), "stateful function of two containers");
  vf_assert(count.n == 4 * n, "one call per element");
  vf_reach("end");
}
VF_CASE(functionsInt) { functions<int>(); }
VF_CASE(functionsUchar) { functions<unsigned char>(); }
VF_CASE(functionsDouble) { functions<double>(); }

// extrema
template <typename T>
static void extrema() {
  const long n = vf_pick("n", 1, 4);
  Sequence<T> s(n);
  fillAny(s, "s");
  const T lo = s.min(), hi = s.max();
  const auto both = s.minmax();
  vf_assert(both.first == lo && both.second == hi, "minmax is min and max");
  bool reachedLo = false, reachedHi = false;
  for (long i = 0; i < n; ++i) {
    vf_assert(lo <= s[i] && hi >= s[i], "bounds");
    reachedLo = reachedLo | (s[i] == lo);
    reachedHi = reachedHi | (s[i] == hi);
  }
  vf_assert(reachedLo && reachedHi, "bounds are reached");
  vf_assert(&s.min() >= s.begin() && &s.min() < s.end(), "min is an element");
  for (long i = 0; i < n; ++i) {
    if (&s[i] < &s.min()) vf_assert(s[i] != lo, "first min");
    if (&s[i] < &s.max()) vf_assert(s[i] != hi, "first max");
  }
  vf_reach("end");
}
// one arbitrary element among many
template <typename T>
static void extremaWide() {
  const long n = 33;
  Sequence<T> s(n);
  for (long i = 0; i < n; ++i) s[i] = T((i * 7) % 11 + 20);
  const long j = vf_pick("j", 0, n - 1);
  s[j] = any<T>("s");
  T lo = s[0], hi = s[0];
  for (long i = 1; i < n; ++i) { if (s[i] < lo) lo = s[i]; if (s[i] > hi) hi = s[i]; }
  const auto both = s.minmax();
  vf_assert(s.min() == lo && s.max() == hi && both.first == lo && both.second == hi, "extrema of many elements");
  vf_reach("end");
}
VF_CASE(extremaWideInt) { extremaWide<int>(); }
VF_CASE(extremaWideUchar) { extremaWide<unsigned char>(); }
VF_CASE(extremaInt) { extrema<int>(); }
VF_CASE(extremaUchar) { extrema<unsigned char>(); }
VF_CASE(extremaDouble) { extrema<double>(); }
// rasters
VF_CASE(rasters) {
  const Position<2> shape = pickPos<2>("s", 2, 1, 2);
  VecRaster<int, 2> r(shape), o(shape);
  symFill(o, "o", -100, 100);
  r.range(vf_int("v", -9, 9), 2).apply([](int a, int b) { return a + b; }, o);
  vf_assert(r.shape() == shape, "shape");
  for (std::size_t i = 1; i < r.size(); ++i) vf_assert(r[i] - o[i] == r[i - 1] - o[i - 1] + 2, "chained modifiers, in storage order");
  vf_assert(r.min() <= r[0] && r.max() >= r[0] && r.distribution().size() == r.size(), "extrema");
  vf_reach("end");
}
// indices of any magnitude
VF_CASE(atFar) {
  static const long sizes[] = {1, 3, 17, 300};
  const long n = sizes[vf_pick("n", 0, 3)];
  Sequence<char> s(n);
  const Sequence<char>& c = s;
  const long i = vf_int("i", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  const char* p = nullptr;
  const char* q = nullptr;
  const bool thrown = vf_throws_as<OutOfBoundsError>([&]() { p = &c.at(i); });
  const bool thrown2 = vf_throws_as<OutOfBoundsError>([&]() { q = &s.at(i); });
  vf_assert(thrown == (i < -n || i >= n) && thrown2 == thrown, "at() throws out of bounds");
  if (!thrown) vf_assert(p == c.data() + (i < 0 ? i + n : i) && q == p, "at() counts negative indices from the end");
  vf_reach("end");
}
// extrema of any values
VF_CASE(extremaFar) {
  const long n = vf_pick("n", 1, 3);
  Sequence<long> s(n);
  for (auto& e : s) e = vf_int("s", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  long lo = s[0], hi = s[0];
  for (auto e : s) { lo = e < lo ? e : lo; hi = e > hi ? e : hi; }
  const auto both = s.minmax();
  vf_assert(s.min() == lo && s.max() == hi && both.first == lo && both.second == hi, "extrema");
  vf_reach("end");
}
VF_CASE(extremaReal) {
  const long n = vf_pick("n", 1, 3);
  Sequence<double> s(n);
  for (auto& e : s) {
    const long b = vf_int("s", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
    double v;
    std::memcpy(&v, &b, 8);
    vf_assume(v == v);
    e = v;
  }
  double lo = s[0], hi = s[0];
  for (auto e : s) { lo = e < lo ? e : lo; hi = e > hi ? e : hi; }
  const auto both = s.minmax();
  vf_assert(s.min() == lo && s.max() == hi && both.first == lo && both.second == hi, "extrema");
  vf_reach("end");
}
// equality of real sequences
VF_CASE(equalityReal) {
  Sequence<double> a(2), b(2);
  for (int i = 0; i < 4; ++i) {
    const long v = vf_int("x", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
    std::memcpy(i < 2 ? &a[i] : &b[i - 2], &v, 8);
  }
  const bool eq = (a[0] == b[0]) & (a[1] == b[1]);
  vf_assert((a == b) == eq && (a != b) == !eq, "== iff same elements");
  vf_reach("end");
}
VF_CASE(equalityWide) {
  const long n = vf_size("n", 0), j = vf_pick("j", 0, 128);
  vf_assume(j < n);
  Sequence<int> a(n), b(n);
  a.range();
  b.range();
  b[j] = vf_int("x", -10, 200);
  vf_assert((a == b) == (b[j] == j) && (a != b) == (b[j] != j), "one element differs");
  vf_reach("end");
}
// the arguments may be elements of the container
template <typename T>
static void elements() {
  const long n = vf_pick("n", 1, 4) , i = vf_pick("i", 0, n - 1), j = vf_pick("j", 0, n - 1), k = vf_pick("method", 0, 3);
  if (k == 3 && std::is_floating_point<T>::value) vf_assume(n != 4);
  Sequence<T> s(n);
  fillAny(s, "s");
  const T a = s[i], b = s[j];
  if (k == 3 && !std::is_signed<T>::value) vf_assume(a <= b);
  if (k == 0) s.fill(s[i]);
  if (k == 1) s.range(s[i]);
  if (k == 2) s.range(s[i], s[j]);
  if (k == 3) s.linspace(s[i], s[j]);
  T e = a;
  for (long l = 0; l < n; ++l) {
    if (k < 3) vf_assert(s[l] == e, "fill or range from elements");
    else vf_assert(l == n - 1 ? s[l] == b : same<T>(s[l], T(a + (b - a) / (n - 1) * l)), "linspace between elements");
    e += k == 0 ? T(0) : k == 1 ? T(1) : b;
  }
  vf_reach("end");
}
VF_CASE(elementsInt) { elements<int>(); }
VF_CASE(elementsUchar) { elements<unsigned char>(); }
VF_CASE(elementsDouble) { elements<double>(); }
// between the extrema, which are references
VF_CASE(extremaBounds) {
  const long n = vf_pick("n", 1, 3);
  Sequence<int> s(n);
  int lo = 2000, hi = -2000;
  for (long i = 0; i < n; ++i) {
    s[i] = any<int>("s");
    lo = s[i] < lo ? s[i] : lo;
    hi = s[i] > hi ? s[i] : hi;
  }
  const bool down = vf_pick("down", 0, 1);
  if (down) s.linspace(s.max(), s.min());
  else s.linspace(s.min(), s.max());
  const int a = down ? hi : lo, b = down ? lo : hi;
  for (long i = 0; i < n; ++i) vf_assert(s[i] == (i == n - 1 ? b : a + (b - a) / (int)(n - 1) * (int)i), "linspace between the extrema");
  vf_reach("end");
}
// large containers
VF_CASE(largeContainers) {
  const long n = pickLarge("n");
  Sequence<int> a(n);
  const long at = largeFill(a, "a", -1000, 1000), x = a[at];
  const auto b = a;
  vf_assert(a == b && !(a != b), "equal copies");
  a[at] += 1;
  vf_assert(a != b && !(a == b), "one different element");
  bool same = true;
  for (long i = 0; i < n; ++i) same = same && (i == at || a[i] == b[i]);
  vf_assert(same && a[at] == x + 1, "only");
  vf_assert(a.at(-1) == a[n - 1] && a.at(-n) == a[0] && a.at(n - 1) == a[n - 1], "checked access");
  vf_assert(vf_throws([&]() { a.at(n); }) && vf_throws([&]() { a.at(-n - 1); }), "out of bounds");
  const int v = vf_int("v", -1000, 1000);
  a.fill(v);
  same = true;
  for (long i = 0; i < n; ++i) same = same && &a[i] == a.data() + i && a[i] == v;
  vf_assert(same, "filled");
  a.range(v, 3);
  same = true;
  for (long i = 0; i < n; ++i) same = same && a[i] == v + 3 * i;
  vf_assert(same, "range");
  int count = 0;
  a.generate([&]() { return count++; });
  a.apply([](int e) { return e + 1; });
  same = true;
  for (long i = 0; i < n; ++i) same = same && a[i] == i + 1;
  vf_assert(same && count == n, "generated and applied");
  vf_assert(a.min() == 1 && a.max() == n, "extrema");
  vf_reach("end");
}
VF_CASE(largeSpaced) {
  const long n = (1l << vf_pick("log", 8, 16)) + 1;
  const double a = vf_int("a", -1000, 1000), b = vf_int("b", -1000, 1000);
  Sequence<double> s(n);
  s.linspace(a, b);
  bool same = true;
  for (long i = 0; i < n; i += i < 300 || i > n - 300 ? 1 : 200) same = same && s[i] == a + (b - a) / double(n - 1) * double(i);
  vf_assert(same && s[n - 1] == b && s[0] == a, "evenly spaced");
  vf_reach("end");
}
VF_CASE(emptyContainers) {
  Sequence<int> s;
  const Sequence<double> t;
  vf_assert(s.size() == 0 && s.begin() == s.end() && t.size() == 0 && t.begin() == t.end(), "empty by default");
  vf_assert(s == Sequence<int>(0l) && !(s == Sequence<int>(1l)), "equal to any empty sequence");
  const int x = vf_int("x", -1000, 1000);
  s.fill(x);
  s.apply([](auto e) { return e + 1; });
  vf_assert(s.size() == 0 && s.begin() == s.end(), "still empty");
  vf_reach("end");
}
// a container compared to itself or to a copy is compared element by element, too
VF_CASE(equalitySelf) {
  Sequence<double> a(2);
  for (int i = 0; i < 2; ++i) {
    const long v = vf_int("x", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
    std::memcpy(&a[i], &v, 8);
  }
  const bool eq = (a[0] == a[0]) & (a[1] == a[1]);
  const Sequence<double> b(a);
  vf_assert((a == a) == eq && (a != a) == !eq, "== iff same elements (NaN differs from itself)");
  vf_assert((a == b) == eq && (a != b) == !eq, "== iff same elements (copy)");
  Raster<double, 1> r({2});
  r[{0}] = a[0];
  r[{1}] = a[1];
  vf_assert((r == r) == eq && (r != r) == !eq, "== iff same elements (raster)");
  vf_reach("end");
}
// steps which are not dyadic numbers: rounding errors do not add up
VF_CASE(linspaceDecimal) {
  const long n = pickLarge("n", 4097);
  Sequence<float> f(n);
  Sequence<double> d(n);
  f.linspace(.1f, .7f);
  d.linspace(-1 / 3., 1e3);
  vf_assert(f[0] == .1f && d[0] == -1 / 3. && f[n - 1] == (n > 1 ? .7f : .7f) && d[n - 1] == 1e3, "bounds");
  bool ok = true;
  for (long i = 0; i < n - 1; ++i) {
    const double x = f[i] - (double(.1f) + (double(.7f) - double(.1f)) / double(n - 1) * i), y = d[i] - (-1 / 3. + (1e3 + 1 / 3.) / double(n - 1) * i);
    ok = ok && std::abs(x) < 3e-7 && std::abs(y) < 1e-12 * 1e3;
  }
  vf_assert(ok, "evenly spaced, up to a few rounding errors");
  vf_reach("end");
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_access) { access<int>(); access<int>(); }
VF_CASE(again_spaced) { spaced<int>(); spaced<int>(); }
VF_CASE(again_modifiers) { modifiers<int>(); modifiers<int>(); }
VF_CASE(again_extrema) { extrema<int>(); extrema<int>(); }
