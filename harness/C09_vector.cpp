#include <cstring>
#include "lt.h"
// NOTE: dimensions 1 to 5 fixed, up to 7 variable; any coordinates; element types long, int and double. Vector<T, -1>::zero(), one(), inf() are one-dimensional by design (documented dimension -1) and only their values are checked

template <typename T, Index N>
static void build(Index dim) {
  const long live = vf_heap_live();
  {
    T ref[8];
    Vector<T, N> v(static_cast<T>(dim));
    vf_assert((Index)v.size() == dim, "dimension constructor");
    for (Index i = 0; i < dim; ++i) v[i] = ref[i] = T(vf_int("x", -1000000, 1000000));
    std::vector<T> in(ref, ref + dim);
    const Vector<T, N> w(in);
    vf_assert((Index)w.size() == dim && w == v && !(w != v), "from an iterable");
    for (Index i = 0; i < dim; ++i) vf_assert(w[i] == ref[i], "values");
    Vector<T, N> c(v);
    c[dim - 1] += 1;
    vf_assert(v[dim - 1] == ref[dim - 1] && c != v && !(c == v), "copies are independent");
    c = v;
    vf_assert(c == v, "assignment");
    const Vector<T, N> m(std::move(c));
    vf_assert(m == v, "move");
    Index k = 0;
    for (auto e : m) vf_assert(e == ref[k++], "iteration");
    vf_assert(k == dim && m.front() == ref[0] && m.back() == ref[dim - 1], "front and back");
  }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
VF_CASE(build1) { build<long, 1>(1); }
VF_CASE(build3) { build<long, 3>(3); }
VF_CASE(buildInt4) { build<int, 4>(4); }
VF_CASE(buildDouble2) { build<double, 2>(2); }
VF_CASE(buildV) { build<long, -1>(vf_pick("dim", 1, 4)); }
VF_CASE(buildDoubleV) { build<double, -1>(vf_pick("dim", 1, 4)); }

VF_CASE(lists) {
  const long a = vf_int("a", -9, 9), b = vf_int("b", -9, 9), c = vf_int("c", -9, 9);
  const Position<3> p {a, b, c};
  const Position<-1> q {a, b, c};
  vf_assert(p[0] == a && p[1] == b && p[2] == c && q.size() == 3 && q[0] == a && q[1] == b && q[2] == c, "from a list");
  const Position<1> o {a};
  vf_assert(o[0] == a && o.size() == 1, "one-element list");
  const Position<-1> e {a};
  vf_assert(e.size() == 1 && e[0] == a, "one-element list, variable dimension");
  vf_reach("end");
}
// a fixed-dimension vector cannot be built from another number of values
VF_CASE(mismatch) {
  const long n = vf_pick("n", 0, 5);
  std::vector<long> in(n);
  for (auto& e : in) e = vf_int("x", -9, 9);
  const bool thrown = vf_throws([&]() {
    Position<3> p(in);
    vf_assert(n == 3 || n == 0, "size mismatch is rejected");
  });
  vf_assert(thrown == (n != 3 && n != 0), "throws iff the size is wrong");
  vf_reach("end");
}

template <typename T, Index N>
static void constants() {
  const Vector<T, N> z = Vector<T, N>::zero(), o = Vector<T, N>::one(), f = Vector<T, N>::inf();
  for (std::size_t i = 0; i < z.size(); ++i) {
    vf_assert(z[i] == T(0) && o[i] == T(1), "zero and one");
    vf_assert(f[i] == Limits<T>::inf() && f[i] >= std::numeric_limits<T>::max(), "inf is an upper bound");
  }
  if (N > 0) vf_assert((Index)z.size() == N && (Index)o.size() == N && (Index)f.size() == N, "dimension");
  vf_assert(z.isZero() && o.isOne() && f.isInf(), "predicates hold for the constants");
  vf_assert(!z.isOne() && !z.isInf() && !o.isZero() && !o.isInf() && !f.isZero() && !f.isOne(), "predicates are exclusive");
  vf_reach("end");
}
VF_CASE(constants1) { constants<long, 1>(); }
VF_CASE(constants3) { constants<long, 3>(); }
VF_CASE(constantsInt) { constants<int, 2>(); }
VF_CASE(constantsDouble) { constants<double, 2>(); }
VF_CASE(constantsV) { constants<long, -1>(); }
VF_CASE(predicates) {
  const long inf = Limits<long>::inf();
  Position<3> p = symPos<3>("p", 3, -2, 2);
  const long k = vf_pick("k", 0, 3);
  for (long i = 0; i < k; ++i) p[i] = inf;
  vf_assert(p.isZero() == (p[0] == 0 && p[1] == 0 && p[2] == 0), "isZero");
  vf_assert(p.isOne() == (p[0] == 1 && p[1] == 1 && p[2] == 1), "isOne");
  vf_assert(p.isInf() == (k == 3), "isInf");
  vf_reach("end");
}

// slices and extensions
template <Index N, Index M>
static void resize(Index dim) {
  const Position<N> v = symPos<N>("v", dim, -1000000, 1000000);
  if (M <= dim) {
    const Position<M> s = v.template slice<M>();
    vf_assert((Index)s.size() == M, "slice dimension");
    for (Index i = 0; i < M; ++i) vf_assert(s[i] == v[i], "slice keeps the first coordinates");
  }
  if (M >= dim) {
    const Position<M> pad = symPos<M>("pad", M, -1000000, 1000000);
    const Position<M> e = v.template extend<M>(pad), z = v.template extend<M>();
    for (Index i = 0; i < M; ++i) {
      vf_assert(e[i] == (i < dim ? v[i] : pad[i]), "extension is padded");
      vf_assert(z[i] == (i < dim ? v[i] : 0), "extension is padded with 0 by default");
    }
  }
  vf_reach("end");
}
VF_CASE(resize31) { resize<3, 1>(3); }
VF_CASE(resize32) { resize<3, 2>(3); }
VF_CASE(resize33) { resize<3, 3>(3); }
VF_CASE(resize24) { resize<2, 4>(2); }
VF_CASE(resize13) { resize<1, 3>(1); }
VF_CASE(resizeV2) { resize<-1, 2>(vf_pick("dim", 1, 3)); }

// strides and sizes of shapes
template <Index N>
static void strides(Index dim) {
  const Position<N> s = symPos<N>("s", dim, 0, 1000);
  long stride = 1;
  for (Index i = 0; i < dim; ++i) {
    vf_assert(shapeStride(s, i) == stride, "stride is the product of the previous lengths");
    stride *= s[i];
  }
  vf_assert(shapeSize(s) == (dim == 0 ? 0 : stride), "size is the product of the lengths");
  vf_reach("end");
}
VF_CASE(strides1) { strides<1>(1); }
VF_CASE(strides3) { strides<3>(3); }
VF_CASE(stridesV) { strides<-1>(vf_pick("dim", 0, 4)); }

// arithmetic on coordinates
template <Index N>
static void arithmetic(Index dim) {
  const Position<N> a = symPos<N>("a", dim, -10000, 10000), b = symPos<N>("b", dim, -10000, 10000);
  const long k = vf_int("k", -10000, 10000);
  const Position<N> sum = a + b, dif = a - b, neg = -a, pos = +a, plus = a + k, plus2 = k + a, minus = a - k, times = a * k, times2 = k * a;
  for (Index i = 0; i < dim; ++i) {
    vf_assert(sum[i] == a[i] + b[i] && dif[i] == a[i] - b[i] && neg[i] == -a[i] && pos[i] == a[i], "vector operators");
    vf_assert(plus[i] == a[i] + k && plus2[i] == a[i] + k && minus[i] == a[i] - k && times[i] == a[i] * k && times2[i] == a[i] * k, "scalar operators");
  }
  Position<N> c = a;
  ++c;
  for (Index i = 0; i < dim; ++i) vf_assert(c[i] == a[i] + 1, "++");
  const Position<N> old = c--;
  for (Index i = 0; i < dim; ++i) vf_assert(c[i] == a[i] && old[i] == a[i] + 1, "post --");
  vf_reach("end");
}
VF_CASE(arithmetic2) { arithmetic<2>(2); }
VF_CASE(arithmetic3) { arithmetic<3>(3); }
VF_CASE(arithmeticV) { arithmetic<-1>(vf_pick("dim", 1, 3)); }
VF_CASE(build5) { build<long, 5>(5); }
VF_CASE(buildV7) { build<long, -1>(7); }
VF_CASE(strides5) { strides<5>(5); }
VF_CASE(resize52) { resize<5, 2>(5); }
VF_CASE(resize25) { resize<2, 5>(2); }
VF_CASE(arithmetic5) { arithmetic<5>(5); }
// predicates on any real coordinates
VF_CASE(predicatesDouble) {
  double x[3];
  for (auto& e : x) {
    const long b = vf_int("bits", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
    std::memcpy(&e, &b, 8);
  }
  const Vector<double, 3> v {x[0], x[1], x[2]};
  const double inf = std::numeric_limits<double>::infinity();
  vf_assert(v.isZero() == ((x[0] == 0) & (x[1] == 0) & (x[2] == 0)), "isZero");
  vf_assert(v.isOne() == ((x[0] == 1) & (x[1] == 1) & (x[2] == 1)), "isOne");
  vf_assert(v.isInf() == ((x[0] == inf) & (x[1] == inf) & (x[2] == inf)), "isInf");
  vf_reach("end");
}
// any integer coordinates
VF_CASE(predicatesLong) {
  const long lo = std::numeric_limits<long>::min(), hi = std::numeric_limits<long>::max();
  const Index dim = vf_pick("dim", 1, 5);
  const Position<-1> v = symPos<-1>("x", dim, lo, hi), w = symPos<-1>("y", dim, lo, hi);
  bool zero = true, one = true, inf = true, same = true;
  for (Index i = 0; i < dim; ++i) {
    zero = zero & (v[i] == 0);
    one = one & (v[i] == 1);
    inf = inf & (v[i] == hi);
    same = same & (v[i] == w[i]);
  }
  vf_assert(v.isZero() == zero && v.isOne() == one && v.isInf() == inf, "predicates");
  vf_assert((v == w) == same && (v != w) == !same, "equality");
  vf_reach("end");
}
// additions and multiplications which do not fit small integers
VF_CASE(arithmeticFar) {
  const long M = 1000000000000000000l;
  const Index dim = vf_pick("dim", 1, 4);
  const Position<-1> a = symPos<-1>("a", dim, -M, M), b = symPos<-1>("b", dim, -M, M);
  const long k = vf_int("k", -M, M);
  const Position<-1> sum = a + b, dif = a - b, plus = a + k, minus = a - k, neg = -a, twice = a * 2L;
  for (Index i = 0; i < dim; ++i) vf_assert(sum[i] == a[i] + b[i] && dif[i] == a[i] - b[i] && plus[i] == a[i] + k && minus[i] == a[i] - k && neg[i] == -a[i] && twice[i] == 2 * a[i], "operators");
  vf_reach("end");
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_build) { build<long, -1>(2); build<long, -1>(3); build<long, -1>(1); }
VF_CASE(again_constants) { constants<long, 3>(); constants<long, -1>(); constants<long, 3>(); }
VF_CASE(again_arithmetic) { arithmetic<-1>(1); arithmetic<-1>(3); arithmetic<-1>(2); }
VF_CASE(again_strides) { strides<-1>(3); strides<-1>(4); strides<-1>(1); }
