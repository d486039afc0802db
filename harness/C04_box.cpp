#include "lt.h"
// NOTE: dimensions 1 to 5 fixed and variable; coordinates in [-10^6, 10^6] ([-10^18, 10^18] for bounds, shifts, margins and clamping), lengths in [0, 10^6] (10^3 for sizes, and a few lengths up to 2^40)
static const long B = 1000000;

template <Index N>
static void algebra(Index dim) {
  Position<N> f = symPos<N>("f", dim, -B, B), s = symPos<N>("s", dim, 0, 1000), v = symPos<N>("v", dim, -B, B), w = symPos<N>("w", dim, -B, B);
  const long k = vf_int("k", -B, B);
  const Box<N> b = Box<N>::fromShape(f, s);
  vf_assert(b.dimension() == dim, "dimension");
  vf_assert(b.shape() == s, "shape");
  vf_assert(b.front() == f, "front");
  for (Index i = 0; i < dim; ++i) {
    vf_assert(b.back()[i] == f[i] + s[i] - 1, "back is front + shape - 1");
    vf_assert(b.length(i) == s[i], "length");
  }
  vf_assert(b.size() == refSize(s, dim), "size is the product of the lengths");
  const Box<N> c(f, v);
  vf_assert(c.front() == f && c.back() == v, "constructor");
  for (Index i = 0; i < dim; ++i) vf_assert(c.shape()[i] == v[i] - f[i] + 1 && c.length(i) == v[i] - f[i] + 1, "shape is back - front + 1");
  // margins
  const Box<N> margin(v, w);
  Box<N> d = b;
  Box<N>& rd = d += margin;
  vf_assert(&rd == &d, "+= returns itself");
  for (Index i = 0; i < dim; ++i) vf_assert(d.front()[i] == f[i] + v[i] && d.back()[i] == b.back()[i] + w[i], "+= margin");
  vf_assert(b + margin == d && d - margin == b, "+ and - margin");
  d -= margin;
  vf_assert(d == b && !(d != b), "-= margin undoes += margin");
  // shifts
  Box<N> e = b;
  e += v;
  for (Index i = 0; i < dim; ++i) vf_assert(e.front()[i] == f[i] + v[i] && e.back()[i] == b.back()[i] + v[i], "+= vector");
  vf_assert(e.shape() == s, "shifts keep the shape");
  vf_assert(b + v == e && v + b == e && e - v == b, "+ and - vector");
  e -= v;
  vf_assert(e == b, "-= vector");
  Box<N> g = b;
  g += k;
  for (Index i = 0; i < dim; ++i) vf_assert(g.front()[i] == f[i] + k && g.back()[i] == b.back()[i] + k, "+= scalar");
  vf_assert(b + k == g && k + b == g && g - k == b, "+ and - scalar");
  g -= k;
  vf_assert(g == b, "-= scalar");
  ++g;
  for (Index i = 0; i < dim; ++i) vf_assert(g.front()[i] == f[i] + 1 && g.back()[i] == b.back()[i] + 1, "++");
  --g;
  --g;
  for (Index i = 0; i < dim; ++i) vf_assert(g.front()[i] == f[i] - 1 && g.back()[i] == b.back()[i] - 1, "--");
  ++g;
  vf_assert(+g == b, "unary +");
  const Box<N> n = -g;
  for (Index i = 0; i < dim; ++i) vf_assert(n.front()[i] == -f[i] && n.back()[i] == -b.back()[i], "unary -");
  vf_reach("end");
}
VF_CASE(algebra1) { algebra<1>(1); }
VF_CASE(algebra2) { algebra<2>(2); }
VF_CASE(algebra3) { algebra<3>(3); }
VF_CASE(algebra4) { algebra<4>(4); }
VF_CASE(algebraV) { algebra<-1>(vf_pick("dim", 1, 3)); }

VF_CASE(lengths) {
  const Position<3> f = symPos<3>("f", 3, -B, B), k = symPos<3>("b", 3, -B, B);
  const Box<3> b(f, k);
  vf_assert(b.length<0>() == b.length(0) && b.length<1>() == b.length(1) && b.length<2>() == b.length(2), "length<I> agrees with length(I)");
  vf_assert(b.length<2>() == b.back()[2] - b.front()[2] + 1, "length<I>");
  vf_reach("end");
}

template <Index N>
static void equality() {
  Position<N> a = symPos<N>("a", N, -B, B), b = symPos<N>("b", N, -B, B), c = symPos<N>("c", N, -B, B), d = symPos<N>("d", N, -B, B);
  bool same = true;
  for (Index i = 0; i < N; ++i) same = same & (a[i] == c[i]) & (b[i] == d[i]);
  const Box<N> x(a, b), y(c, d);
  vf_assert((x == y) == same, "== iff same front and same back");
  vf_assert((x != y) == !same, "!= is the negation");
  vf_reach("end");
}
VF_CASE(equality1) { equality<1>(); }
VF_CASE(equality2) { equality<2>(); }
VF_CASE(equality3) { equality<3>(); }

template <Index N>
static void projection(Index dim) {
  Position<N> f = symPos<N>("f", dim, -B, B), b = symPos<N>("b", dim, -B, B);
  const Index axis = vf_pick("axis", 0, dim - 1);
  const Box<N> x(f, b);
  const Box<N> y = project(x, axis);
  for (Index i = 0; i < dim; ++i) {
    vf_assert(y.front()[i] == f[i] && y.back()[i] == (i == axis ? f[i] : b[i]), "project flattens that axis only");
    vf_assert(x.front()[i] == f[i] && x.back()[i] == b[i], "free project leaves its input");
  }
  Box<N> z = x;
  Box<N>& r = z.project(axis);
  vf_assert(&r == &z && z == y, "in-place project");
  vf_assert(project(x) == project(x, 0), "default axis is 0");
  vf_reach("end");
}
VF_CASE(project1) { projection<1>(1); }
VF_CASE(project3) { projection<3>(3); }
VF_CASE(projectV) { projection<-1>(2); }

template <Index N>
static void center() {
  const Position<N> c = symPos<N>("c", N, -B, B);
  const long r = vf_int("r", 0, 1000);
  const Box<N> b = Box<N>::fromCenter(r, c);
  for (Index i = 0; i < N; ++i) vf_assert(b.front()[i] == c[i] - r && b.back()[i] == c[i] + r && b.length(i) == 2 * r + 1, "fromCenter");
  const Box<N> z = Box<N>::fromCenter(r);
  for (Index i = 0; i < N; ++i) vf_assert(z.front()[i] == -r && z.back()[i] == r, "default center is 0");
  const Box<N> d = Box<N>::fromCenter();
  for (Index i = 0; i < N; ++i) vf_assert(d.front()[i] == -1 && d.back()[i] == 1, "default radius is 1");
  vf_reach("end");
}
VF_CASE(center1) { center<1>(); }
VF_CASE(center2) { center<2>(); }
VF_CASE(center3) { center<3>(); }

// the whole box contains every non-negative position
VF_CASE(whole) {
  const Box<3> w = Box<3>::whole();
  const Position<3> p = symPos<3>("p", 3, 0, 0x7fffffffffffffff);
  for (Index i = 0; i < 3; ++i) vf_assert(w.front()[i] == 0 && w.back()[i] >= p[i], "whole box spans 0 to inf");
  vf_assert(w.back().isInf() && w.front().isZero(), "whole box bounds");
  vf_reach("end");
}

// clamping positions in a shape
VF_CASE(clampInt) {
  const Position<3> s = symPos<3>("s", 3, 1, 1000), p = symPos<3>("p", 3, -B, B);
  const Position<3> c = clamp(p, s);
  for (Index i = 0; i < 3; ++i) {
    vf_assert(c[i] >= 0 && c[i] < s[i], "clamped position is inside");
    vf_assert(c[i] == (p[i] < 0 ? 0 : p[i] >= s[i] ? s[i] - 1 : p[i]), "clamped to the nearest bound");
    vf_observe("c", c[i]);
  }
  vf_reach("end");
}
VF_CASE(clampVar) {
  const Index dim = vf_pick("dim", 1, 3);
  const Position<-1> s = symPos<-1>("s", dim, 1, 1000), p = symPos<-1>("p", dim, -B, B);
  const Position<-1> c = clamp(p, s);
  vf_assert((Index)c.size() == dim, "same dimension");
  for (Index i = 0; i < dim; ++i) vf_assert(c[i] == (p[i] < 0 ? 0 : p[i] >= s[i] ? s[i] - 1 : p[i]), "clamped to the nearest bound");
  vf_reach("end");
}
VF_CASE(clampDouble) {
  const Position<2> s = symPos<2>("s", 2, 1, 1000);
  const long a = vf_int("a", -8000, 8000), b = vf_int("b", -8000, 8000);
  const Vector<double, 2> p {double(a) / 4, double(b) / 4};
  const Vector<double, 2> c = clamp(p, s);
  const long q[2] = {a, b};
  for (Index i = 0; i < 2; ++i) {
    const long e = q[i] < 0 ? 0 : q[i] > 4 * (s[i] - 1) ? 4 * (s[i] - 1) : q[i];
    vf_assert(c[i] == double(e) / 4, "real positions are clamped to the nearest bound");
  }
  vf_reach("end");
}

// clamping positions in a box
template <Index N>
static void clampBox(Index dim) {
  const Position<N> f = symPos<N>("f", dim, -B, B), s = symPos<N>("s", dim, 1, 1000), p = symPos<N>("p", dim, -3 * B, 3 * B);
  const auto box = Box<N>::fromShape(f, s);
  const Position<N> c = clamp(p, box);
  vf_assert((Index)c.size() == dim, "same dimension");
  for (Index i = 0; i < dim; ++i) {
    const Index b = f[i] + s[i] - 1;
    vf_assert(c[i] == (p[i] < f[i] ? f[i] : p[i] > b ? b : p[i]), "clamped to the nearest bound of the box");
  }
}
VF_CASE(clampInBox) {
  const long k = vf_pick("k", 0, 5);
  if (k == 0) clampBox<1>(1);
  else if (k == 1) clampBox<2>(2);
  else if (k == 2) clampBox<3>(3);
  else if (k == 3) clampBox<4>(4);
  else clampBox<-1>(k == 4 ? 2 : 5);
  vf_reach("end");
}
VF_CASE(clampInBoxDouble) {
  const Position<2> f = symPos<2>("f", 2, -1000, 1000), s = symPos<2>("s", 2, 1, 1000);
  const long a = vf_int("a", -8000, 8000);
  const long b = vf_int("b", -8000, 8000);
  const Vector<double, 2> p {double(a) / 4, double(b) / 4};
  const Vector<double, 2> c = clamp(p, Box<2>::fromShape(f, s));
  const long q[2] = {a, b};
  for (Index i = 0; i < 2; ++i) {
    const long lo = 4 * f[i], hi = 4 * (f[i] + s[i] - 1);
    vf_assert(c[i] == double(q[i] < lo ? lo : q[i] > hi ? hi : q[i]) / 4, "real positions are clamped to the nearest bound of the box");
  }
  vf_reach("end");
}
VF_CASE(algebra5) { algebra<5>(5); }
VF_CASE(algebraV4) { algebra<-1>(vf_pick("dim", 4, 5)); }
VF_CASE(project4) { projection<4>(4); }
VF_CASE(projectV4) { projection<-1>(vf_pick("dim", 1, 5)); }
VF_CASE(equality5) { equality<5>(); }
// boxes with coordinates of any magnitude
template <Index N>
static void far(Index dim) {
  const long M = 1000000000000000000l;
  const Position<N> f = symPos<N>("f", dim, -M, M), b = symPos<N>("b", dim, -M, M), p = symPos<N>("p", dim, -M, M);
  const Box<N> x(f, b);
  for (Index i = 0; i < dim; ++i) vf_assert(x.shape()[i] == b[i] - f[i] + 1 && x.length(i) == b[i] - f[i] + 1, "shape is back - front + 1");
  const Box<N> y = x + p;
  for (Index i = 0; i < dim; ++i) vf_assert(y.front()[i] == f[i] + p[i] && y.back()[i] == b[i] + p[i] && y.length(i) == x.length(i), "shift");
  const Box<N> z = x + Box<N>(p, -p);
  for (Index i = 0; i < dim; ++i) vf_assert(z.front()[i] == f[i] + p[i] && z.back()[i] == b[i] - p[i], "margin");
  bool proper = true;
  for (Index i = 0; i < dim; ++i) proper = proper & (f[i] <= b[i]);
  if (proper) {
    const Position<N> c = clamp(p, x);
    for (Index i = 0; i < dim; ++i) vf_assert(c[i] == (p[i] < f[i] ? f[i] : p[i] > b[i] ? b[i] : p[i]), "clamped to the nearest bound");
  }
  vf_assert((x == y) == p.isZero() && (x != y) == !p.isZero(), "equality");
  vf_reach("end");
}
VF_CASE(far1) { far<1>(1); }
VF_CASE(far2) { far<2>(2); }
VF_CASE(far4) { far<4>(4); }
VF_CASE(farV) { far<-1>(vf_pick("dim", 1, 4)); }
// sizes which do not fit small integers
VF_CASE(sizes) {
  static const long lengths[] = {0, 1, 2, 65537, 2147483648l, 4294967297l, 1l << 40};
  const Position<3> f = symPos<3>("f", 3, -B, B);
  Position<3> s;
  double total = 1;
  for (Index i = 0; i < 3; ++i) {
    s[i] = lengths[vf_pick("s", 0, 6)];
    total *= double(s[i]);
  }
  vf_assume(total < 8e18);
  const auto b = Box<3>::fromShape(f, s);
  vf_assert(b.shape() == s && b.size() == s[0] * s[1] * s[2] && b.length<2>() == s[2], "size is the product of the lengths");
  vf_reach("end");
}
VF_CASE(centerFar) {
  const long r = vf_int("r", 0, 1000000000000l);
  const Position<-1> c = symPos<-1>("c", vf_pick("dim", 1, 4), -1000000000000l, 1000000000000l);
  const auto b = Box<-1>::fromCenter(r, c);
  vf_assert(b.dimension() == (Index)c.size(), "dimension");
  for (std::size_t i = 0; i < c.size(); ++i) vf_assert(b.front()[i] == c[i] - r && b.back()[i] == c[i] + r && b.length(i) == 2 * r + 1, "fromCenter");
  vf_reach("end");
}
VF_CASE(clampFar) { // in a shape
  const long M = 1000000000000000000l;
  const Index dim = vf_pick("dim", 1, 5);
  const Position<-1> s = symPos<-1>("s", dim, 1, M), p = symPos<-1>("p", dim, -M, M);
  const Position<-1> c = clamp(p, s);
  for (Index i = 0; i < dim; ++i) vf_assert(c[i] == (p[i] < 0 ? 0 : p[i] >= s[i] ? s[i] - 1 : p[i]), "clamped to the nearest bound");
  vf_reach("end");
}
// the vector by which a box is shifted, or its margin, may be a bound of the box, or the box
template <Index N>
static void aliases(Index dim) {
  const Position<N> f = symPos<N>("f", dim, -1000000, 1000000), b = symPos<N>("b", dim, -1000000, 1000000);
  const int k = (int)vf_pick("op", 0, 5);
  Box<N> x(f, b);
  if (k == 0) vf_assert(&(x += x.front()) == &x, "returns itself");
  if (k == 1) x += x.back();
  if (k == 2) x -= x.front();
  if (k == 3) x -= x.back();
  if (k == 4) x += x;
  if (k == 5) x -= x;
  for (Index i = 0; i < dim; ++i) {
    const long d[] = {f[i], b[i], -f[i], -b[i]};
    vf_assert(x.front()[i] == (k < 4 ? f[i] + d[k] : k == 4 ? 2 * f[i] : 0), "front");
    vf_assert(x.back()[i] == (k < 4 ? b[i] + d[k] : k == 4 ? 2 * b[i] : 0), "back");
  }
  Box<N> y(f, b);
  const Box<N> z = y - y.front(), w = y + y;
  for (Index i = 0; i < dim; ++i) {
    vf_assert(z.front()[i] == 0 && z.back()[i] == b[i] - f[i], "shifted to the origin");
    vf_assert(w.front()[i] == 2 * f[i] && w.back()[i] == 2 * b[i], "extended by itself");
    vf_assert(y.front()[i] == f[i] && y.back()[i] == b[i], "operands unchanged");
  }
  y = y;
  for (Index i = 0; i < dim; ++i) vf_assert(y.front()[i] == f[i] && y.back()[i] == b[i], "self-assignment");
  vf_reach("end");
}
VF_CASE(aliases2) { aliases<2>(2); }
VF_CASE(aliases4) { aliases<4>(4); }
VF_CASE(aliasesV) { aliases<-1>(vf_pick("dim", 1, 3)); }

// no position if any length is null or negative
template <Index N>
static void emptySize(Index dim) {
  const Position<N> f = symPos<N>("f", dim, -B, B), s = symPos<N>("s", dim, -1000, 1000);
  bool empty = false;
  for (Index i = 0; i < dim; ++i) empty = empty | (s[i] <= 0);
  vf_assume(empty);
  const auto b = Box<N>::fromShape(f, s);
  vf_assert(b.size() == 0, "the size of an empty box is null");
  for (Index i = 0; i < dim; ++i) vf_assert(b.length(i) == s[i] && b.shape()[i] == s[i], "lengths of empty boxes");
  vf_reach("end");
}
VF_CASE(empty1) { emptySize<1>(1); }
VF_CASE(empty2) { emptySize<2>(2); }
VF_CASE(empty3) { emptySize<3>(3); }
VF_CASE(empty4) { emptySize<4>(4); }
VF_CASE(emptyV) { emptySize<-1>(vf_pick("dim", 1, 4)); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_algebra) { algebra<2>(2); algebra<2>(2); }
VF_CASE(again_project) { projection<-1>(2); projection<-1>(3); }
VF_CASE(again_far) { far<2>(2); far<2>(2); }
