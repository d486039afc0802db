#include "lt.h"
#include <complex>
// NOTE: shapes up to 3 along each axis, dimensions 1 to 3 fixed and variable (4 for equality); holders: std::vector, std::valarray, std::array, raw pointer, aligned buffer; element values arbitrary; moved-from rasters are only destroyed or assigned

template <Index N, typename R>
static void sized(Index dim, long maxLen, bool zeroed) {
  long live = vf_heap_live();
  {
    Position<N> s = pickPos<N>("s", dim, 0, maxLen);
    R r(s);
    vf_assert(r.shape() == s && r.dimension() == dim, "shape as given");
    vf_assert((long)r.size() == refSize(s, dim), "size is the product of the lengths");
    vf_assert(r.end() - r.begin() == refSize(s, dim), "as many elements as positions");
    if (zeroed) for (auto& e : r) vf_assert(e == 0, "value-initialized");
    for (auto& e : r) e = 1;
    vf_observe("size", r.size());
    auto d = r.domain();
    vf_assert(d.dimension() == dim, "domain dimension");
    for (Index i = 0; i < dim; ++i) vf_assert(d.front()[i] == 0 && d.back()[i] == s[i] - 1, "domain");
  }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
VF_CASE(sizedVec1) { sized<1, VecRaster<int, 1>>(1, 4, true); }
VF_CASE(sizedVec2) { sized<2, VecRaster<int, 2>>(2, 3, true); }
VF_CASE(sizedVec3) { sized<3, VecRaster<char, 3>>(3, 2, true); }
VF_CASE(sizedVecV) { sized<-1, VecRaster<int, -1>>(vf_pick("dim", 1, 3), 2, true); }
VF_CASE(sizedVal2) { sized<2, ValRaster<int, 2>>(2, 3, true); }
VF_CASE(sizedAligned2) { sized<2, AlignedRaster<int, 2>>(2, 3, false); }
VF_CASE(sizedAligned3) { sized<3, AlignedRaster<double, 3>>(3, 2, false); }

// values given at construction: pointer, list, iterable, moved container
template <typename R, typename S>
static void checkValues(const R& r, const S& s, const int* v) {
  vf_assert(r.shape() == s, "shape as given");
  vf_assert((long)r.size() == refSize(s, s.size()), "size");
  for (std::size_t i = 0; i < r.size(); ++i) vf_assert(r[i] == v[i], "values in storage order");
}
template <Index N, template <typename, Index> class R>
static void fromData(Index dim) {
  long live = vf_heap_live();
  {
    Position<N> s = pickPos<N>("s", dim, 1, 3);
    int v[27];
    long n = refSize(s, dim);
    for (long i = 0; i < n; ++i) v[i] = vf_int("v", -1000, 1000);
    std::vector<int> a(v, v + n);
    R<int, N> r(s, a.data());
    checkValues(r, s, v);
    vf_assert(r.data() != a.data(), "data is copied");
    a[0] = v[0] + 1;
    r[n - 1] += 5;
    vf_assert(r[0] == (n == 1 ? v[0] + 5 : v[0]), "independent of the input");
  }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
template <typename T, Index N> using VecR = VecRaster<T, N>;
template <typename T, Index N> using ValR = ValRaster<T, N>;
template <typename T, Index N> using AliR = AlignedRaster<T, N>;
template <typename T, Index N> using PtrR = PtrRaster<T, N>;
VF_CASE(dataVec2) { fromData<2, VecR>(2); }
VF_CASE(dataVal2) { fromData<2, ValR>(2); }
VF_CASE(dataVecV) { fromData<-1, VecR>(2); }
VF_CASE(dataVec3) { fromData<3, VecR>(3); }

// pointer and non-owning aligned rasters are views
template <Index N, template <typename, Index> class R>
static void view(Index dim) {
  long live = vf_heap_live();
  {
    Position<N> s = pickPos<N>("s", dim, 1, 3);
    long n = refSize(s, dim);
    std::vector<int> a(n);
    for (long i = 0; i < n; ++i) a[i] = vf_int("v", -1000, 1000);
    long during = vf_heap_live();
    {
      R<int, N> r(s, a.data());
      vf_assert(r.data() == a.data() && (long)r.size() == n, "view of the input");
      long k = vf_int("k", 0, 26);
      vf_assume(k < n);
      r[k] = 5000;
      for (long i = 0; i < n; ++i) vf_assert((a[i] == 5000) == (i == k), "writes through");
      R<int, N> c(r);
      vf_assert(c.data() == a.data() && c.shape() == r.shape(), "copy of a view is a view");
      R<int, N> m(std::move(c));
      vf_assert(m.data() == a.data() && m.shape() == r.shape() && (long)m.size() == n, "moved view is a view");
    }
    vf_assert(vf_heap_live() <= during, "views own no data");
    vf_assert(a[0] == 5000 || a[0] <= 1000, "data outlives the view");
  }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
VF_CASE(viewPtr2) { view<2, PtrR>(2); }
VF_CASE(viewPtrV) { view<-1, PtrR>(2); }
VF_CASE(viewAli2) { view<2, AliR>(2); }
VF_CASE(viewPtr3) { view<3, PtrR>(3); }

template <Index N, template <typename, Index> class R>
static void fromList(Index dim) {
  long live = vf_heap_live();
  {
    Position<N> s = pickPos<N>("s", dim, 0, 4);
    int a = vf_int("v", -1000, 1000), b = vf_int("v", -1000, 1000), c = vf_int("v", -1000, 1000), d = vf_int("v", -1000, 1000);
    int v[4] = {a, b, c, d};
    long n = refSize(s, dim);
    bool thrown = false;
    try {
      R<int, N> r(s, {a, b, c, d});
      checkValues(r, s, v);
      vf_assert(n == 4, "size mismatch is rejected");
      vf_observe("r0", r[0]);
    } catch (const SizeError&) {
      thrown = true;
    }
    vf_assert(thrown == (n != 4), "SizeError iff the list size differs");
  }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
VF_CASE(listVec1) { fromList<1, VecR>(1); }
VF_CASE(listVec2) { fromList<2, VecR>(2); }
VF_CASE(listVec3) { fromList<3, VecR>(3); }
VF_CASE(listVecV) { fromList<-1, VecR>(vf_pick("dim", 1, 2)); }
VF_CASE(listVal2) { fromList<2, ValR>(2); }

template <Index N>
static void fromIterable(Index dim) {
  long live = vf_heap_live();
  {
    Position<N> s = pickPos<N>("s", dim, 0, 3);
    long n = refSize(s, dim);
    long m = vf_pick("m", 0, 6);
    std::vector<int> a(m);
    for (long i = 0; i < m; ++i) a[i] = vf_int("v", -1000, 1000);
    bool thrown = false;
    try {
      VecRaster<int, N> r(s, a);
      checkValues(r, s, a.data());
      vf_assert(r.data() != a.data() || m == 0, "copied");
    } catch (const SizeError&) {
      thrown = true;
    }
    vf_assert(thrown == (n != m), "SizeError iff the iterable size differs");
    vf_assert((long)a.size() == m, "input kept");
    // moving a container in keeps its memory
    const int* p = a.data();
    std::vector<int> ref(a);
    thrown = false;
    try {
      VecRaster<int, N> r(s, std::move(a));
      checkValues(r, s, ref.data());
      vf_assert(r.data() == p, "container is moved, not copied");
      // and back
      std::vector<int> out;
      std::vector<int>& res = r.moveTo(out);
      vf_assert(&res == &out && out.data() == p && out == ref, "moveTo");
    } catch (const SizeError&) {
      thrown = true;
    }
    vf_assert(thrown == (n != m), "SizeError iff the container size differs");
  }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
VF_CASE(iterable1) { fromIterable<1>(1); }
VF_CASE(iterable2) { fromIterable<2>(2); }
VF_CASE(iterableV) { fromIterable<-1>(2); }

VF_CASE(arrayHolder) {
  long w = vf_pick("w", 1, 3), h = vf_pick("h", 1, 3);
  int v[9];
  for (int i = 0; i < 9; ++i) v[i] = vf_int("v", -1000, 1000);
  bool thrown = false;
  try {
    ArrRaster<int, 6> z({w, h});
    for (int i = 0; i < 6; ++i) vf_assert(z[i] == 0, "value-initialized");
    ArrRaster<int, 6> r({w, h}, v);
    checkValues(r, Position<2>{w, h}, v);
    ArrRaster<int, 6> c(r);
    c[2] = v[2] + 1;
    vf_assert(r[2] == v[2] && c[1] == v[1], "copies are independent");
    std::array<int, 6> arr {{v[0], v[1], v[2], v[3], v[4], v[5]}};
    ArrRaster<int, 6> m({w, h}, std::move(arr));
    checkValues(m, Position<2>{w, h}, v);
    std::array<int, 6> out;
    m.moveTo(out);
    for (int i = 0; i < 6; ++i) vf_assert(out[i] == v[i], "moveTo");
  } catch (const std::exception&) {
    thrown = true;
  }
  vf_assert(thrown == (w * h != 6), "capacity mismatch is rejected");
  vf_reach("end");
}

// copy and move semantics
template <Index N, template <typename, Index> class R>
static void copyMove(Index dim) {
  long live = vf_heap_live();
  {
    Position<N> s = pickPos<N>("s", dim, 1, 2), t = pickPos<N>("t", dim, 1, 2);
    long n = refSize(s, dim);
    int v[8];
    R<int, N> a(s);
    for (long i = 0; i < n; ++i) a[i] = v[i] = vf_int("v", -1000, 1000);
    R<int, N> b(a);
    checkValues(b, s, v);
    vf_assert(b == a && !(b != a), "copy equals the original");
    long k = vf_int("k", 0, 7);
    vf_assume(k < n);
    b[k] = 5000;
    checkValues(a, s, v);
    vf_assert(!(b == a) && b != a, "copies are independent");
    R<int, N> c(t);
    c.fill(-7);
    c = a;
    checkValues(c, s, v);
    c[k] = 6000;
    checkValues(a, s, v);
    vf_assert(b[k] == 5000, "copies are independent");
    R<int, N>& alias = a;
    a = alias;
    checkValues(a, s, v);
    const int* p = a.data();
    R<int, N> d(std::move(a));
    checkValues(d, s, v);
    vf_assert(d.data() == p, "move keeps the memory");
    R<int, N> e(t);
    e.fill(-8);
    e = std::move(d);
    checkValues(e, s, v);
    vf_assert(e.data() == p, "move assignment keeps the memory");
    d = e; // a moved-from raster can be assigned
    checkValues(d, s, v);
    vf_assert(d.data() != e.data(), "independent again");
  }
  vf_assert(vf_heap_live() == live, "no leak, no double free");
  vf_reach("end");
}
VF_CASE(copyVec2) { copyMove<2, VecR>(2); }
VF_CASE(copyVal2) { copyMove<2, ValR>(2); }
VF_CASE(copyAli2) { copyMove<2, AliR>(2); }
VF_CASE(copyVecV) { copyMove<-1, VecR>(2); }
VF_CASE(copyVec3) { copyMove<3, VecR>(3); }

// equality compares shapes and values, across holders
VF_CASE(equality) {
  Position<2> s = pickPos<2>("s", 2, 1, 3), t = pickPos<2>("t", 2, 1, 3);
  VecRaster<int, 2> a(s);
  AlignedRaster<int, 2> b(t);
  symFill(a, "a", 0, 3);
  symFill(b, "b", 0, 3);
  bool same = s[0] == t[0] && s[1] == t[1];
  for (std::size_t i = 0; same && i < a.size(); ++i) same = same && a[i] == b[i];
  vf_assert((a == b) == same && (b == a) == same, "== iff same shape and same values");
  vf_assert((a != b) == !same, "!= is the negation");
  vf_reach("end");
}
VF_CASE(equalitySame) {
  Position<-1> s = pickPos<-1>("s", 2, 1, 2), t = pickPos<-1>("t", 2, 1, 2);
  VecRaster<int, -1> a(s), b(t);
  symFill(a, "a", 0, 3);
  symFill(b, "b", 0, 3);
  bool same = s[0] == t[0] && s[1] == t[1];
  for (std::size_t i = 0; same && i < a.size(); ++i) same = same && a[i] == b[i];
  vf_assert((a == b) == same && (a != b) == !same, "== iff same shape and same values");
  vf_reach("end");
}

template <Index N>
static void equalityN(Index ds, Index dt, long l) {
  Position<N> s = pickPos<N>("s", ds, 1, l), t = pickPos<N>("t", dt, 1, l);
  VecRaster<int, N> a(s), b(t);
  symFill(a, "a", 0, 3);
  symFill(b, "b", 0, 3);
  bool same = ds == dt;
  for (Index i = 0; same && i < ds; ++i) same = s[i] == t[i];
  for (std::size_t i = 0; same && i < a.size(); ++i) same = a[i] == b[i];
  vf_assert((a == b) == same && (b == a) == same && (a != b) == !same, "== iff same shape and same values");
  vf_reach("end");
}
VF_CASE(equality1) { equalityN<1>(1, 1, 4); }
VF_CASE(equality3) { equalityN<3>(3, 3, 2); }
VF_CASE(equality3_3) { equalityN<3>(3, 3, 3); }
VF_CASE(equality4) { equalityN<4>(4, 4, 2); }
VF_CASE(equalityV) {
  const Index ds = vf_pick("ds", 1, 3);
  const Index dt = vf_pick("dt", 1, 3);
  equalityN<-1>(ds, dt, 2);
}

VF_CASE(rasterizeData) {
  long w = vf_pick("w", 1, 3), h = vf_pick("h", 1, 3);
  int v[9];
  for (int i = 0; i < 9; ++i) v[i] = vf_int("v", -1000, 1000);
  auto p = rasterize(v, w, h);
  vf_assert(p.data() == v && p.shape()[0] == w && p.shape()[1] == h && (long)p.size() == w * h, "rasterize(pointer) is a view");
  const int* cv = v;
  auto q = rasterize(cv, w * h);
  vf_assert(q.data() == v && q.dimension() == 1 && q.shape()[0] == w * h, "rasterize(const pointer)");
  std::vector<int> vec(v, v + w * h);
  const int* d = vec.data();
  auto r = rasterize(std::move(vec), w, h);
  checkValues(r, Position<2>{w, h}, v);
  vf_assert(r.data() == d, "rasterize(container&&) moves it");
  const auto& s = rasterize(r);
  vf_assert(&s == &r, "rasterize(raster) is the identity");
  std::vector<int> bad(v, v + 2);
  vf_assert(vf_throws_as<SizeError>([&]() { rasterize(std::move(bad), w, h); }) == (w * h != 2), "size mismatch is rejected");
  vf_reach("end");
}

// default construction
VF_CASE(defaults) {
  VecRaster<int, 2> a;
  VecRaster<int, 3> b;
  AlignedRaster<int, 1> c;
  vf_assert(a.size() == 0 && b.size() == 0 && c.size() == 0, "default rasters are empty");
  vf_assert(a.shape().isZero() && b.shape().isZero(), "with a null shape");
  vf_assert(a.begin() == a.end() && a.emtpy(), "empty");
  a = VecRaster<int, 2>({2, 1}, {vf_int("v", 0, 9), 4L});
  vf_assert(a.size() == 2 && a[1] == 4, "assignable");
  vf_reach("end");
}
// equality compares the values, whatever their types
template <typename T, typename U>
static void equalityMixed() {
  const long n = vf_pick("n", 0, 3);
  VecRaster<T, 1> a({n});
  VecRaster<U, 1> b({n});
  bool same = true;
  for (long i = 0; i < n; ++i) {
    a[i] = T(vf_int("a", -100, 100));
    b[i] = U(vf_int("b", -400, 400) / 4.);
    same = same && double(a[i]) == double(b[i]);
  }
  vf_assert((a == b) == same && (b == a) == same && (a != b) == !same && (b != a) == !same, "same values");
  vf_reach("end");
}
VF_CASE(equalityIntDouble) { equalityMixed<int, double>(); }
VF_CASE(equalityCharFloat) { equalityMixed<signed char, float>(); }
VF_CASE(equalityShortLong) { equalityMixed<short, long>(); }
VF_CASE(arrayHolderLong) { // more elements
  int v[60];
  for (int i = 0; i < 60; ++i) v[i] = vf_int("v", -1000, 1000);
  const Position<2> shape {12, 5};
  ArrRaster<int, 60> r(shape, v);
  checkValues(r, shape, v);
  const auto c = r;
  checkValues(c, shape, v);
  const std::vector<int> vec(v, v + 60);
  ArrRaster<int, 60> q(shape, vec);
  checkValues(q, shape, v);
  std::array<int, 60> arr;
  for (int i = 0; i < 60; ++i) arr[i] = v[i];
  ArrRaster<int, 60> m(shape, std::move(arr));
  checkValues(m, shape, v);
  std::array<int, 60> out;
  m.moveTo(out);
  for (int i = 0; i < 60; ++i) vf_assert(out[i] == v[i], "moveTo");
  vf_reach("end");
}
// large rasters
VF_CASE(large) {
  const long w = pickLarge("w", 4097), h = vf_pick("tall", 0, 1) ? 17 : 1;
  const long n = w * h;
  std::vector<int> v(n);
  const long at = largeFill(v, "v", -1000, 1000);
  const Position<2> shape {w, h};
  const auto same = [&](const int* d) {
    bool s = true;
    for (long i = 0; i < n; ++i) s = s && d[i] == v[i];
    return s;
  };
  VecRaster<int, 2> a(shape, v);
  AlignedRaster<int, 2> b(shape, v.data());
  PtrRaster<int, 2> p(shape, v.data());
  vf_assert(same(a.data()) && same(b.data()) && p.data() == v.data() && long(a.size()) == n && a.shape() == shape, "elements");
  auto c = a;
  vf_assert(same(c.data()) && c == a && c == b && p == a, "copy");
  c[at] -= 1;
  vf_assert(c != a && a[at] == v[at] && same(a.data()), "independent copy");
  const auto d = a.data();
  VecRaster<int, 2> m(std::move(a));
  vf_assert(m.data() == d && same(m.data()), "move");
  std::vector<int> out;
  m.moveTo(out);
  vf_assert(out.data() == d && same(out.data()), "ownership");
  vf_reach("end");
}
// sizes of arrays and shapes
VF_CASE(rasterizeArray) {
  const long w = vf_pick("w", 0, 4), h = vf_pick("h", 0, 4);
  std::array<int, 4> a {};
  for (auto& e : a) e = vf_int("e", -1000, 1000);
  const auto b = a;
  bool thrown = false;
  try {
    const auto r = rasterize(std::move(a), w, h);
    checkValues(r, Position<2>{w, h}, b.data());
  } catch (const std::exception&) {
    thrown = true;
  }
  vf_assert(thrown == (w * h != 4), "size mismatch is rejected");
  vf_assert(shapeSize(Position<-1> {}) == 0 && shapeSize(Position<2> {w, h}) == w * h, "size of a shape");
  vf_reach("end");
}
