#define EIGEN_DONT_VECTORIZE
#include "vf.h"
#include <array>
#include <complex>
#include <memory>
#include <vector>
#include <LitlRaster/Matrix.h>
using namespace Litl;
// NOTE: matrices of 14 shapes from 1x1 to 7x7 and 2x8 (determinants up to 4x4, where closed forms are used), arbitrary integral elements within [-1000, 1000] (up to 10^12 for arithmetic operations, up to 10^15, 6*10^7, 10^5 and 4000 for determinants of size 1 to 4: all the results are exact); inverses of matrices whose determinant is a power of two, given as products of triangular matrices with arbitrary elements, so that results are exact; Eigen's generic code is executed (no vectorization)

template <typename T, Index N, Index M>
static void fill(Matrix<T, N, M>& m, T (&values)[N][M], long bound = 1000) {
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < M; ++c) {
      values[r][c] = T(vf_int("e", -bound, bound));
      m.data()[r * M + c] = values[r][c];
    }
}
template <typename T, Index N, Index M>
static void access() {
  Matrix<T, N, M> m;
  T v[N][M];
  vf_assert(m.size() == std::size_t(N * M), "size");
  vf_assert(m.shape()[0] == N && m.shape()[1] == M, "shape");
  fill(m, v);
  const auto& cm = m;
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < M; ++c) {
      vf_assert(&cm(r, c) == m.data() + r * M + c && cm(r, c) == v[r][c], "row-major access");
      vf_assert(&m(r, c) == m.data() + r * M + c, "mutable access");
    }
  vf_assert(&cm.template at<N - 1, 0>() == &cm(N - 1, 0) && &cm.template at<0, M - 1>() == &cm(0, M - 1) && &cm.template at<N - 1, M - 1>() == &cm(N - 1, M - 1), "static access");
  const Index i = vf_pick("row", 0, N - 1), j = vf_pick("column", 0, M - 1);
  const T x = T(vf_int("x", -1000, 1000));
  m(i, j) = x;
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < M; ++c) vf_assert(cm(r, c) == (r == i && c == j ? x : v[r][c]), "writes one element");
}
VF_CASE(access) {
  const long k = vf_pick("kind", 0, 5);
  if (k == 0) access<int, 2, 2>();
  else if (k == 1) access<double, 2, 3>();
  else if (k == 2) access<double, 3, 2>();
  else if (k == 3) access<long, 4, 4>();
  else if (k == 4) access<float, 1, 4>();
  else access<short, 4, 1>();
  vf_reach("end");
}
template <typename T, Index N, Index M>
static void special() {
  const auto id = Matrix<T, N, M>::identity();
  std::array<T, (N < M ? N : M)> values;
  for (auto& e : values) e = T(vf_int("d", -1000, 1000));
  const auto d = Matrix<T, N, M>::diagonal(values);
  const Matrix<T, N, M> zero;
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < M; ++c) {
      vf_assert(zero(r, c) == T(0), "zero");
      vf_assert(id(r, c) == T(r == c), "identity");
      vf_assert(d(r, c) == (r == c ? values[r] : T(0)), "diagonal");
    }
  const auto partial = Matrix<T, N, M>::diagonal(std::vector<T> {T(7)});
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < M; ++c) vf_assert(partial(r, c) == (r + c == 0 ? T(7) : T(0)), "shorter diagonal");
}
VF_CASE(special) {
  const long k = vf_pick("kind", 0, 5);
  if (k == 0) special<int, 2, 2>();
  else if (k == 1) special<double, 2, 3>();
  else if (k == 2) special<double, 3, 2>();
  else if (k == 3) special<long, 4, 4>();
  else if (k == 4) special<float, 1, 1>();
  else special<double, 5, 5>();
  vf_reach("end");
}
template <typename T, Index N, Index M>
static void arithmetic() {
  Matrix<T, N, M> a, b;
  T u[N][M], v[N][M];
  fill(a, u);
  fill(b, v);
  const T s = T(vf_int("s", -1000, 1000));
  const auto sum = a + b;
  const auto difference = a - b;
  const auto product = a * s;
  const auto opposite = -a;
  auto c = a;
  c += b;
  vf_assert(c == sum && (c != a) == !(c == a), "comparison");
  for (Index i = 0; i < N; ++i)
    for (Index j = 0; j < M; ++j) {
      vf_assert(sum(i, j) == u[i][j] + v[i][j], "sum");
      vf_assert(difference(i, j) == u[i][j] - v[i][j], "difference");
      vf_assert(product(i, j) == u[i][j] * s, "product by a scalar");
      vf_assert(opposite(i, j) == -u[i][j], "opposite");
      vf_assert(a(i, j) == u[i][j] && b(i, j) == v[i][j], "operands");
    }
}
VF_CASE(arithmetic) {
  if (vf_pick("kind", 0, 1)) arithmetic<double, 2, 3>();
  else arithmetic<int, 3, 3>();
  vf_reach("end");
}

template <typename T> static T det(const T (&m)[1][1]) { return m[0][0]; }
template <typename T, int N> static T det(const T (&m)[N][N]) { // Laplace expansion along the first row
  T out = 0;
  for (int k = 0; k < N; ++k) {
    T minor[N - 1][N - 1];
    for (int r = 1; r < N; ++r)
      for (int c = 0, d = 0; c < N; ++c)
        if (c != k) minor[r - 1][d++] = m[r][c];
    const T p = m[0][k] * det(minor);
    out = k % 2 ? out - p : out + p;
  }
  return out;
}
template <typename T, Index N>
static void determinant() {
  Matrix<T, N> m;
  T v[N][N];
  fill(m, v, 20);
  const T d = m.determinant();
  vf_assert(d == det(v), "determinant");
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < N; ++c) vf_assert(m(r, c) == v[r][c], "the matrix is not modified");
  const auto copy = m;
  vf_assert(copy.determinant() == d, "determinant of a copy");
}
VF_CASE(determinant) {
  const long k = vf_pick("kind", 0, 4);
  if (k == 0) determinant<double, 1>();
  else if (k == 1) determinant<double, 2>();
  else if (k == 2) determinant<double, 3>();
  else if (k == 3) determinant<double, 4>();
  else determinant<float, 3>();
  vf_reach("end");
}
/// Matrices of determinant 2^p: products of lower and upper triangular ones
template <typename T, Index N>
static void inverse() {
  T l[N][N] = {}, u[N][N] = {}, v[N][N] = {};
  const long p = vf_pick("p", -1, 2);
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < N; ++c) {
      if (r == c) { l[r][c] = 1; u[r][c] = r == N - 1 ? (p < 0 ? T(.5) : T(1 << p)) : T(1); }
      else if (c == r - 1) l[r][c] = T(vf_int("l", -8, 8));
      else if (r == c - 1 && c == N - 1) u[r][c] = T(vf_int("u", -8, 8));
    }
  Matrix<T, N> m;
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < N; ++c) {
      for (Index k = 0; k < N; ++k) v[r][c] += l[r][k] * u[k][c];
      m.data()[r * N + c] = v[r][c];
    }
  auto inv = m;
  vf_assert(&inv.inverse() == &inv, "in place");
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < N; ++c) {
      T left = 0, right = 0;
      for (Index k = 0; k < N; ++k) { left += inv(r, k) * v[k][c]; right += v[r][k] * inv(k, c); }
      vf_assert(left == T(r == c), "left inverse");
      vf_assert(right == T(r == c), "right inverse");
      vf_assert(m(r, c) == v[r][c], "copies are not modified");
    }
}
VF_CASE(inverse) {
  const long k = vf_pick("kind", 0, 3);
  if (k == 0) inverse<double, 2>();
  else if (k == 1) inverse<double, 3>();
  else if (k == 2) inverse<double, 4>();
  else inverse<float, 2>();
  vf_reach("end");
}
/// Generic decomposition: generalized permutation matrices
VF_CASE(large) {
  constexpr Index N = 5;
  Matrix<double, N> m;
  const Index i = vf_pick("i", 0, N - 1), j = vf_pick("j", 0, N - 1);
  const long p = vf_pick("p", -2, 2);
  const double x = p < 0 ? 1. / (1 << -p) : 1 << p;
  Index perm[N] = {1, 0, 3, 4, 2}; // odd
  std::swap(perm[i], perm[j]);
  for (Index r = 0; r < N; ++r) m(r, perm[r]) = r == i ? x : r == 1 ? -1. : 1.;
  vf_assert(m.determinant() == (i == j ? -1 : 1) * (i == 1 ? x : -x), "determinant");
  auto inv = m;
  inv.inverse();
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < N; ++c) vf_assert(inv(c, r) == (perm[r] == c ? 1 / m(r, c) : 0.), "inverse");
  vf_reach("end");
}
/// Copies, moved matrices and assigned ones have their own elements
VF_CASE(copies) {
  using M = Matrix<double, 2>;
  double v[2][2];
  std::unique_ptr<M> original(new M());
  fill(*original, v, 20);
  const long kind = vf_pick("kind", 0, 3);
  M other = M::identity();
  M copy = kind == 1 ? std::move(*original) : *original;
  if (kind == 2) { other = *original; }
  if (kind == 3) { other = std::move(copy); }
  original->data()[0] = 100;
  original->data()[3] = 100;
  original.reset();
  const M& m = kind < 2 ? copy : other;
  for (Index r = 0; r < 2; ++r)
    for (Index c = 0; c < 2; ++c) vf_assert(m(r, c) == v[r][c], "own elements");
  vf_assert(m.determinant() == v[0][0] * v[1][1] - v[0][1] * v[1][0], "own determinant");
  M twice = m;
  twice(0, 0) = twice(1, 1) = 2;
  twice(0, 1) = twice(1, 0) = 0;
  twice.inverse();
  vf_assert(twice(0, 0) == .5 && twice(1, 1) == .5 && twice(0, 1) == 0 && m(0, 0) == v[0][0] && m(0, 1) == v[0][1], "own inverse");
  vf_reach("end");
}
/// More shapes and types
VF_CASE(access_wide) {
  const long k = vf_pick("kind", 0, 6);
  if (k == 0) access<int, 1, 1>();
  else if (k == 1) access<double, 1, 7>();
  else if (k == 2) access<long, 7, 1>();
  else if (k == 3) access<float, 3, 5>();
  else if (k == 4) access<unsigned short, 5, 3>();
  else if (k == 5) access<double, 6, 6>();
  else access<long, 2, 8>();
  vf_reach("end");
}
VF_CASE(special_wide) {
  const long k = vf_pick("kind", 0, 6);
  if (k == 0) special<int, 1, 5>();
  else if (k == 1) special<double, 5, 1>();
  else if (k == 2) special<long, 3, 6>();
  else if (k == 3) special<float, 6, 3>();
  else if (k == 4) special<short, 2, 7>();
  else if (k == 5) special<double, 7, 7>();
  else special<long, 8, 2>();
  vf_reach("end");
}
template <typename T, Index N, Index M>
static void arithmeticIn(long bound) {
  Matrix<T, N, M> a, b;
  T u[N][M], v[N][M];
  fill(a, u, bound);
  fill(b, v, bound);
  const T s = T(vf_int("s", -1000, 1000));
  const long k = vf_pick("operation", 0, 4);
  Matrix<T, N, M> c = a;
  Matrix<T, N, M>* r = nullptr;
  if (k == 0) r = &(c += b);
  else if (k == 1) r = &(c -= b);
  else if (k == 2) r = &(c *= s);
  else if (k == 3) r = &(c += c);
  else r = &(c -= c);
  vf_assert(r == &c, "in place");
  bool same = true;
  for (Index i = 0; i < N; ++i)
    for (Index j = 0; j < M; ++j) {
      vf_assert(c(i, j) == (k == 0 ? u[i][j] + v[i][j] : k == 1 ? u[i][j] - v[i][j] : k == 2 ? u[i][j] * s : k == 3 ? u[i][j] + u[i][j] : T(0)), "element-wise");
      vf_assert(a(i, j) == u[i][j] && b(i, j) == v[i][j], "operands");
      same = same & (u[i][j] == v[i][j]);
    }
  vf_assert((a == b) == same && (a != b) == !same, "comparison");
  vf_assert(a == a && !(a != a), "equal to itself");
}
VF_CASE(arithmetic_wide) {
  const long k = vf_pick("kind", 0, 4);
  if (k == 0) arithmeticIn<double, 3, 3>(1000000000000l);
  else if (k == 1) arithmeticIn<long, 4, 2>(1000000000000l);
  else if (k == 2) arithmeticIn<int, 2, 4>(1000000);
  else if (k == 3) arithmeticIn<double, 5, 5>(1000000000l);
  else arithmeticIn<long, 1, 6>(1000000000000l);
  vf_reach("end");
}
template <typename T, Index N>
static void determinantIn(long bound) {
  Matrix<T, N> m;
  T v[N][N];
  fill(m, v, bound);
  vf_assert(m.determinant() == det(v), "determinant");
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < N; ++c) vf_assert(m(r, c) == v[r][c], "the matrix is not modified");
}
VF_CASE(determinant_wide) {
  const long k = vf_pick("kind", 0, 6);
  if (k == 0) determinantIn<double, 1>(1000000000000000l);
  else if (k == 1) determinantIn<double, 2>(60000000);
  else if (k == 2) determinantIn<double, 3>(100000);
  else if (k == 3) determinantIn<double, 4>(4000);
  else if (k == 4) determinantIn<long, 2>(1000000000);
  else if (k == 5) determinantIn<long, 3>(1000000);
  else determinantIn<int, 2>(30000);
  vf_reach("end");
}
VF_CASE(inverse_1) {
  const long p = vf_pick("p", -30, 30);
  const double x = p < 0 ? 1. / (1 << -p) : 1 << p;
  Matrix<double, 1> m;
  m(0, 0) = vf_pick("sign", 0, 1) ? x : -x;
  vf_assert(m.determinant() == m(0, 0), "determinant");
  auto inv = m;
  inv.inverse();
  vf_assert(inv(0, 0) * m(0, 0) == 1 && m.determinant() * inv.determinant() == 1, "inverse");
  vf_reach("end");
}
VF_CASE(inverse_wide) {
  if (vf_pick("kind", 0, 1)) inverse<float, 3>();
  else inverse<float, 4>();
  vf_reach("end");
}
/// The inverse of the inverse is the matrix, of determinant the inverse of the determinant
template <Index N>
static void involution() {
  Matrix<double, N> m = Matrix<double, N>::identity();
  for (Index r = 1; r < N; ++r) m(r, r - 1) = vf_int("l", -100, 100);
  const long p = vf_pick("p", -3, 3);
  m(0, 0) = p < 0 ? 1. / (1 << -p) : 1 << p;
  const auto copy = m;
  const double d = m.determinant();
  vf_assert(d == copy(0, 0), "determinant of a triangular matrix");
  m.inverse();
  vf_assert(m.determinant() == 1 / d, "determinant of the inverse");
  m.inverse();
  vf_assert(m == copy, "inverse of the inverse");
}
VF_CASE(involution) {
  const long k = vf_pick("kind", 0, 2);
  if (k == 0) involution<2>();
  else if (k == 1) involution<3>();
  else involution<4>();
  vf_reach("end");
}
VF_CASE(complexes) {
  using C = std::complex<double>;
  Matrix<C, 2> m;
  C v[2][2];
  for (Index r = 0; r < 2; ++r)
    for (Index c = 0; c < 2; ++c) {
      const double re = vf_int("re", -1000, 1000), im = vf_int("im", -1000, 1000);
      v[r][c] = m(r, c) = C(re, im);
    }
  const C s(3, -2);
  const auto twice = m + m;
  const auto zero = m - m;
  for (Index r = 0; r < 2; ++r)
    for (Index c = 0; c < 2; ++c) {
      vf_assert(&m(r, c) == m.data() + 2 * r + c && twice(r, c) == v[r][c] + v[r][c] && zero(r, c) == C(0), "elements");
      vf_assert((Matrix<C, 2>::identity()(r, c) == C(r == c)), "identity");
    }
  (void)s;
  vf_reach("end");
}
// elements which are not dyadic numbers, in double precision
template <Index N>
static void decimals() {
  Matrix<double, N> m;
  const long kind = vf_pick("kind", 0, 3);
  for (Index i = 0; i < N * N; ++i) m.data()[i] = kind == 0 ? double((i * 37 + 11) % 23) / 7 - 1 : kind == 1 ? 16777217. * ((i * 29 + 3) % 13) + i : double((i * i * 5 + 2 * i) % 17) * .1;
  if (kind == 3) for (Index i = 0; i < N * N; ++i) m.data()[i] = i % N >= i / N ? m.data()[i] + 1 : 0; // triangular
  for (Index i = 0; i < N; ++i) m(i, i) += kind == 1 ? 1e9 : 10;
  if (kind == 3) {
    double d = 1;
    for (Index i = 0; i < N; ++i) d *= m(i, i);
    const double x = m.determinant() / d - 1;
    vf_assert(x < 1e-12 && -x < 1e-12, "determinant, in double precision");
  }
  auto inv = m;
  inv.inverse();
  for (Index r = 0; r < N; ++r)
    for (Index c = 0; c < N; ++c) {
      double s = r == c ? -1 : 0;
      for (Index k = 0; k < N; ++k) s += m(r, k) * inv(k, c);
      vf_assert(s < 1e-10 && -s < 1e-10, "inverse, in double precision");
    }
  const double p = m.determinant() * inv.determinant() - 1;
  vf_assert(p < 1e-10 && -p < 1e-10, "determinant of the inverse");
  vf_reach("end");
}
VF_CASE(decimals1) { decimals<1>(); }
VF_CASE(decimals2) { decimals<2>(); }
VF_CASE(decimals3) { decimals<3>(); }
VF_CASE(decimals4) { decimals<4>(); }
VF_CASE(decimals5) { decimals<5>(); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_decimals) { decimals<3>(); decimals<3>(); decimals<2>(); }
