#include "lt.h"
// NOTE: index formula: N = 1..7 and -1 (dimensions 1 to 9), any shape in [1, 10^4]^N and any position in [-10^4, 10^4]^N (up to dimension 4; smaller bounds beyond, down to 100 in dimension 9, such that the size can be represented); element access through operator[] / at(): shapes up to 3x3x3 (quick), any position in [-7, 7]^N; contains() for integer and dyadic floating positions

// index(p) is p0 + s0 * (p1 + s1 * (...)), for every shape and position
template <Index N>
static void indexFormula(Index dim) {
  static const long bounds[] = {0, 10000, 10000, 10000, 10000, 4000, 1000, 400, 200, 100}; // such that sizes can be represented
  int dummy[2] = {0, 0};
  Position<N> s = symPos<N>("s", dim, 1, bounds[dim]);
  Position<N> p = symPos<N>("p", dim, -bounds[dim], bounds[dim]);
  const PtrRaster<int, N> r(s, dummy);
  vf_assert(r.index(p) == refIndex(s, p, dim), "index is the row-major index");
  vf_assert(r.dimension() == dim, "dimension");
  vf_assert(r.shape() == s, "shape");
  for (Index i = 0; i < dim; ++i) vf_assert(r.length(i) == s[i], "length");
  vf_assert((long)r.size() == refSize(s, dim), "size is the product of the lengths");
  // row-major: one step along axis 0 is one element; wrapping to the next line is one element
  Position<N> q = p;
  q[0] += 1;
  vf_assert(r.index(q) == r.index(p) + 1, "consecutive along axis 0");
  if (dim > 1) {
    Position<N> a = p, b = p;
    a[0] = s[0] - 1;
    b[0] = 0;
    b[1] += 1;
    vf_assert(r.index(b) == r.index(a) + 1, "lines are consecutive");
  }
  Position<N> last = s - 1L;
  vf_assert(r.index(last) == (long)r.size() - 1, "last index");
  vf_observe("index", r.index(p));
  vf_reach("end");
}
VF_CASE(formula1) { indexFormula<1>(1); }
VF_CASE(formula2) { indexFormula<2>(2); }
VF_CASE(formula3) { indexFormula<3>(3); }
VF_CASE(formula4) { indexFormula<4>(4); }
VF_CASE(formulaV1) { indexFormula<-1>(1); }
VF_CASE(formulaV2) { indexFormula<-1>(2); }
VF_CASE(formulaV3) { indexFormula<-1>(3); }
VF_CASE(formulaV4) { indexFormula<-1>(4); }

VF_CASE(lengths) {
  int dummy[2];
  Position<3> s = symPos<3>("s", 3, 0, 10000);
  const PtrRaster<int, 3> r(s, dummy);
  vf_assert(r.length<0>() == s[0] && r.length<1>() == s[1] && r.length<2>() == s[2], "length<I>");
  vf_assert(r.Dimension == 3 && (PtrRaster<int, -1>::Dimension == -1), "Dimension");
  vf_assert((long)r.size() == s[0] * s[1] * s[2], "size");
  auto d = r.domain();
  for (int i = 0; i < 3; ++i) vf_assert(d.front()[i] == 0 && d.back()[i] == s[i] - 1, "domain");
  vf_assert(shapeSize(s) == s[0] * s[1] * s[2], "shapeSize");
  vf_assert(shapeStride(s, 0) == 1 && shapeStride(s, 1) == s[0] && shapeStride(s, 2) == s[0] * s[1], "shapeStride");
  vf_assert(shapeStride<1>(s) == s[0] && shapeStride<2>(s) == s[0] * s[1], "shapeStride<Axis>");
  vf_reach("end");
}

// every inside position has its own element, and at() supports backward indexing and checks bounds
template <Index N, typename R>
static void access(Index dim, long maxLen) {
  Position<N> s = pickPos<N>("s", dim, 1, maxLen);
  R r(s);
  const R& c = r;
  const long size = refSize(s, dim);
  vf_assert((long)r.size() == size, "size");
  for (long i = 0; i < size; ++i) r[i] = int(100 + i);
  Position<N> p = symPos<N>("p", dim, -maxLen - 3, maxLen + 3);
  bool inside = true, valid = true;
  Position<N> w = p;
  for (Index i = 0; i < dim; ++i) {
    inside = inside && p[i] >= 0 && p[i] < s[i];
    valid = valid && p[i] >= -s[i] && p[i] < s[i];
    if (w[i] < 0) w[i] += s[i];
  }
  vf_assert(r.contains(p) == inside, "contains");
  const long idx = refIndex(s, w, dim);
  if (inside) {
    vf_assert(&r[p] == r.data() + idx, "operator[] refers to the element at index");
    vf_assert(&c[p] == c.data() + idx, "const operator[]");
  }
  bool thrown = false, other = false;
  int got = 0;
  const int* ptr = nullptr;
  try {
    got = c.at(p);
    ptr = &c.at(p);
  } catch (const OutOfBoundsError&) {
    thrown = true;
  } catch (...) {
    other = true;
  }
  vf_assert(!other, "at() throws OutOfBoundsError only");
  vf_assert(thrown == !valid, "at() throws iff out of bounds");
  if (valid) {
    vf_assert(got == 100 + idx && ptr == c.data() + idx, "at() value");
    r.at(p) = -5;
    for (long i = 0; i < size; ++i) vf_assert(r[i] == (i == idx ? -5 : int(100 + i)), "at() writes that element only");
    vf_observe("idx", idx);
  } else {
    vf_assert(vf_throws_as<OutOfBoundsError>([&]() { r.at(p) = 1; }), "non-const at() throws");
    for (long i = 0; i < size; ++i) vf_assert(r[i] == int(100 + i), "nothing written");
  }
  vf_reach("end");
}
VF_CASE(access1) { access<1, VecRaster<int, 1>>(1, 4); }
VF_CASE(access2) { access<2, VecRaster<int, 2>>(2, 3); }
VF_CASE(access3) { access<3, VecRaster<int, 3>>(3, 2); }
VF_CASE(accessV1) { access<-1, VecRaster<int, -1>>(1, 3); }
VF_CASE(accessV2) { access<-1, VecRaster<int, -1>>(2, 3); }
VF_CASE(accessV3) { access<-1, VecRaster<int, -1>>(3, 2); }
VF_CASE(access3_thorough) { access<3, VecRaster<int, 3>>(3, 3); }
VF_CASE(access4) { access<4, VecRaster<int, 4>>(4, 2); }
VF_CASE(accessV4) { access<-1, VecRaster<int, -1>>(4, 2); }

// distinct inside positions have distinct indices in [0, size)
template <Index N>
static void injective(Index dim, long maxLen) {
  int dummy[1];
  Position<N> s = pickPos<N>("s", dim, 1, maxLen);
  PtrRaster<int, N> r(s, dummy);
  Position<N> p = symPos<N>("p", dim, 0, maxLen), q = symPos<N>("q", dim, 0, maxLen);
  bool same = true;
  for (Index i = 0; i < dim; ++i) {
    vf_assume(p[i] < s[i] && q[i] < s[i]);
    same = same && p[i] == q[i];
  }
  long i = r.index(p), j = r.index(q);
  vf_assert(i >= 0 && i < (long)r.size(), "index in range");
  vf_assert((i == j) == same, "index is injective");
  vf_reach("end");
}
VF_CASE(injective2) { injective<2>(2, 4); }
VF_CASE(injective3) { injective<3>(3, 3); }
VF_CASE(injectiveV3) { injective<-1>(3, 3); }

// 1D element access by index: at(i) with backward indexing
VF_CASE(atIndex) {
  long n = vf_pick("n", 1, 5);
  VecRaster<long, 1> r(Position<1>{n});
  for (long i = 0; i < n; ++i) r[i] = 10 * i;
  long i = vf_int("i", -9, 9);
  bool valid = i >= -n && i < n;
  bool thrown = false;
  long v = 0;
  try {
    v = static_cast<const VecRaster<long, 1>&>(r).at(i);
  } catch (const OutOfBoundsError&) {
    thrown = true;
  }
  vf_assert(thrown == !valid, "at(i) throws iff out of bounds");
  if (valid) {
    vf_assert(v == 10 * (i < 0 ? i + n : i), "at(i) value");
    r.at(i) = 7;
    vf_assert(r[i < 0 ? i + n : i] == 7, "at(i) writes");
    vf_observe("v", v);
  }
  vf_assert(&r.front() == r.data() && &r.back() == r.data() + n - 1, "front and back");
  vf_assert(r.begin() == r.data() && r.end() == r.data() + n && r.cbegin() == r.begin() && r.cend() == r.end(), "iterators");
  vf_reach("end");
}

// fixed and variable dimensions agree
VF_CASE(agree) {
  int dummy[1];
  Position<3> s = symPos<3>("s", 3, 1, 10000), p = symPos<3>("p", 3, -10000, 10000);
  Position<-1> vs(s), vp(p);
  PtrRaster<int, 3> a(s, dummy);
  PtrRaster<int, -1> b(vs, dummy);
  vf_assert(a.index(p) == b.index(vp), "same index in fixed and variable dimensions");
  vf_assert(a.size() == b.size() && a.dimension() == b.dimension(), "same size and dimension");
  vf_reach("end");
}

// variable dimension: a position of another dimension is rejected
VF_CASE(dimMismatch) {
  long n = vf_pick("n", 1, 3), m = vf_pick("m", 0, 4);
  int dummy[1] = {3};
  PtrRaster<int, -1> r(symPos<-1>("s", n, 1, 5), dummy);
  Position<-1> p(m);
  p.fill(0);
  bool thrown = vf_throws_as<SizeError>([&]() { r.index(p); });
  vf_assert(thrown == (n != m), "SizeError iff the dimensions differ");
  vf_reach("end");
}

// contains() with non-integral positions
VF_CASE(containsFloat) {
  int dummy[1];
  Position<2> s = symPos<2>("s", 2, 0, 50);
  PtrRaster<int, 2> r(s, dummy);
  long a = vf_int("a", -400, 400), b = vf_int("b", -400, 400);
  Vector<double, 2> p {double(a) / 4, double(b) / 4};
  vf_assert(r.contains(p) == (a >= 0 && a < 4 * s[0] && b >= 0 && b < 4 * s[1]), "contains(double)");
  vf_observe("c", r.contains(p));
  vf_reach("end");
}
// lengths which do not fit small integers, alone or multiplied
template <Index N>
static void big(Index dim) {
  static const long lengths[] = {1, 3, 65535, 65537, 2147483647l, 2147483649l, 4294967297l, 1l << 40};
  Position<N> s(dim);
  double total = 1;
  for (Index i = 0; i < dim; ++i) {
    s[i] = lengths[vf_pick("s", 0, 7)];
    total *= double(s[i]);
  }
  vf_assume(total < 2e18);
  int dummy[1];
  const PtrRaster<int, N> r(s, dummy);
  const Position<N> p = symPos<N>("p", dim, -1000000000000l, 1000000000000l);
  bool inside = true;
  for (Index i = 0; i < dim; ++i) inside = inside & (p[i] >= 0) & (p[i] < s[i]);
  vf_assert(r.contains(p) == inside, "contains");
  vf_assert((long)r.size() == refSize(s, dim) && shapeSize(s) == refSize(s, dim), "size is the product of the lengths");
  if (inside) {
    vf_assert(r.index(p) == refIndex(s, p, dim), "index is the row-major index");
    vf_assert(r.index(p) >= 0 && r.index(p) < refSize(s, dim), "in range");
  }
  long stride = 1;
  for (Index i = 0; i < dim; ++i) {
    vf_assert(shapeStride(s, i) == stride, "stride is the product of the previous lengths");
    stride *= s[i];
  }
  const auto d = r.domain();
  for (Index i = 0; i < dim; ++i) vf_assert(d.front()[i] == 0 && d.back()[i] == s[i] - 1 && r.length(i) == s[i], "domain");
  vf_reach("end");
}
VF_CASE(big1) { big<1>(1); }
VF_CASE(big2) { big<2>(2); }
VF_CASE(big3) { big<3>(3); }
VF_CASE(bigV) { big<-1>(vf_pick("dim", 1, 3)); }
VF_CASE(formula5) { indexFormula<5>(5); }
VF_CASE(access5_thorough) { access<5, VecRaster<int, 5>>(5, 2); }
VF_CASE(access1_long) { access<1, VecRaster<int, 1>>(1, 9); }
VF_CASE(access2_wide) { access<2, VecRaster<int, 2>>(2, 5); }
// higher dimensions
VF_CASE(formula6) { indexFormula<6>(6); }
VF_CASE(formula7) { indexFormula<7>(7); }
VF_CASE(formulaV5) { indexFormula<-1>(5); }
VF_CASE(formulaV6) { indexFormula<-1>(6); }
VF_CASE(formulaV7) { indexFormula<-1>(7); }
VF_CASE(formulaV9) { indexFormula<-1>(9); }
VF_CASE(big4) { big<4>(4); }
VF_CASE(agree5) {
  int dummy[1];
  Position<6> s = symPos<6>("s", 6, 1, 1000), p = symPos<6>("p", 6, -1000, 1000);
  Position<-1> vs(s), vp(p);
  PtrRaster<int, 6> a(s, dummy);
  PtrRaster<int, -1> b(vs, dummy);
  vf_assert(a.index(p) == b.index(vp), "same index in fixed and variable dimensions");
  vf_assert(a.size() == b.size() && a.dimension() == b.dimension(), "same size and dimension");
  for (long i = 0; i < 6; ++i) vf_assert(shapeStride(s, i) == shapeStride(vs, i) && shapeStride(s, i) == refSize(s, i), "same strides");
  vf_reach("end");
}
VF_CASE(access6V) { access<-1, VecRaster<int, -1>>(6, 1); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_formula) { indexFormula<2>(2); indexFormula<2>(2); indexFormula<-1>(2); indexFormula<-1>(3); indexFormula<-1>(1); }
VF_CASE(again_injective) { injective<2>(2, 2); injective<2>(2, 2); injective<-1>(3, 2); injective<-1>(2, 2); }
