#include "lt.h"
#include <LitlRaster/Ball.h>
// NOTE: L1 and L2 balls (the L0 iterator is declared but not implemented), radius a multiple of 1/4 up to 2.5 (4.5 in dimension 2, 3.5 in dimension 3, and a few ones up to 100, 40 and 9 in dimensions 1, 2 and 3), any center in [-10^15, 10^15]; dimensions 1 to 5, fixed and variable

template <Index N, Index P>
static bool inside(const Position<N>& d, long r4) {
  long s = 0;
  for (Index i = 0; i < N; ++i) s += P == 1 ? std::labs(d[i]) : d[i] * d[i];
  return P == 1 ? 4 * s <= r4 : 16 * s <= r4 * r4;
}
// positions at distance at most the radius, each once, in storage order
template <Index N, Index P>
static void iterate(long maxR) {
  const long r4 = vf_pick("r", 0, maxR);
  const Position<N> c = symPos<N>("c", N, -1000, 1000);
  const Ball<N, P> ball(double(r4) / 4, c);
  const long R = r4 / 4 + 1; // scan a larger box
  std::vector<Position<N>> expected;
  Position<N> d(N);
  d.fill(-R);
  while (true) {
    if (inside<N, P>(d, r4)) expected.push_back(d);
    Index i = 0;
    while (i < N && d[i] == R) d[i++] = -R;
    if (i == N) break;
    ++d[i];
  }
  std::size_t k = 0;
  for (const auto& p : ball) {
    vf_assert(k < expected.size(), "no position out of the ball");
    for (Index i = 0; i < N; ++i) vf_assert(p[i] == c[i] + expected[k][i], "positions of the ball in storage order");
    ++k;
  }
  vf_assert(k == expected.size(), "every position of the ball once");
  vf_assert(ball.size() == (Index)k, "size is the number of positions");
  vf_observe("count", k);
  vf_reach("end");
}
VF_CASE(l1d1) { iterate<1, 1>(10); }
VF_CASE(l1d2) { iterate<2, 1>(10); }
VF_CASE(l1d3) { iterate<3, 1>(8); }
VF_CASE(l2d1) { iterate<1, 2>(10); }
VF_CASE(l2d2) { iterate<2, 2>(10); }
VF_CASE(l2d3) { iterate<3, 2>(8); }
VF_CASE(l1d2_18) { iterate<2, 1>(18); }
VF_CASE(l2d2_18) { iterate<2, 2>(18); }
VF_CASE(l2d3_14) { iterate<3, 2>(14); }

// large radii
template <Index N, Index P>
static void largeBall() {
  const double radii[][3] = {{12.25, 20, 100}, {9.75, 16, 40}, {4.25, 6.5, 9}};
  const double r = radii[N - 1][vf_pick("r", 0, 2)];
  const long r4 = long(r * 4), R = r4 / 4 + 1;
  const Position<N> c = symPos<N>("c", N, -1000, 1000);
  const Ball<N, P> ball(r, c);
  Position<N> d(N);
  d.fill(-R);
  auto it = begin(ball);
  long k = 0;
  while (true) {
    if (inside<N, P>(d, r4)) {
      vf_assert(it != end(ball), "every position of the ball");
      for (Index i = 0; i < N; ++i) vf_assert((*it)[i] == c[i] + d[i], "positions of the ball in storage order");
      ++it;
      ++k;
    }
    Index i = 0;
    while (i < N && d[i] == R) d[i++] = -R;
    if (i == N) break;
    ++d[i];
  }
  vf_assert(it == end(ball), "no other position");
  vf_reach("end");
}
// iterators and their copies
template <Index P>
static void operators() {
  const long r4 = vf_pick("r", 0, 9);
  const Position<2> c = symPos<2>("c", 2, -1000, 1000);
  const Ball<2, P> ball(double(r4) / 4, c);
  std::vector<typename Ball<2, P>::Iterator> its;
  its.push_back(begin(ball));
  its.reserve(10);
  auto it = begin(ball);
  vf_assert(it == its[0] && !(it != its[0]), "copies are equal");
  long k = 0;
  while (its[0] != end(ball)) {
    vf_assert(*its[0] == *it && its[0]->operator[](0) == (*it)[0], "a copy goes on independently");
    const Position<2>& p = ++its[0];
    vf_assert(p == *its[0], "pre-increment");
    const Position<2>* q = it++;
    vf_assert(*q == *it, "post-increment");
    ++k;
  }
  vf_assert(it == end(ball) && k >= 1, "both reach the end");
  vf_reach("end");
}
VF_CASE(operators1) { operators<1>(); }
VF_CASE(operators2) { operators<2>(); }

// properties and moves
VF_CASE(properties) {
  const long r4 = vf_int("r", 0, 4000);
  const Position<3> c = symPos<3>("c", 3, -100000, 100000), v = symPos<3>("v", 3, -100000, 100000);
  const long k = vf_int("k", -100000, 100000);
  const Ball<3, 2> ball(double(r4) / 4, c);
  vf_assert(ball.radius() == double(r4) / 4 && ball.center() == c && ball.dimension() == 3, "properties");
  const long l = 2 * (r4 / 4) + 1;
  vf_assert(ball.length<1>() == l && ball.length(2) == l, "length of the bounding box");
  vf_assert(ball.shape()[0] == l && ball.shape()[1] == l && ball.shape()[2] == l, "shape of the bounding box");
  for (int i = 0; i < 3; ++i) vf_assert(ball.box().front()[i] == c[i] - r4 / 4 && ball.box().back()[i] == c[i] + r4 / 4, "bounding box");
  Ball<3, 2> b = ball;
  vf_assert(b == ball && !(b != ball), "equality");
  b += v;
  for (int i = 0; i < 3; ++i) vf_assert(b.center()[i] == c[i] + v[i], "+= vector");
  vf_assert(ball + v == b && v + ball == b && b - v == ball, "+ and - vector");
  b -= v;
  vf_assert(b == ball, "-= vector");
  b += k;
  for (int i = 0; i < 3; ++i) vf_assert(b.center()[i] == c[i] + k, "+= scalar");
  vf_assert(ball + k == b && b - k == ball, "+ and - scalar");
  b -= k;
  ++b;
  for (int i = 0; i < 3; ++i) vf_assert(b.center()[i] == c[i] + 1, "++");
  --b;
  --b;
  for (int i = 0; i < 3; ++i) vf_assert(b.center()[i] == c[i] - 1, "--");
  ++b;
  vf_assert(+b == ball && (-b).center() == -c && (-b).radius() == ball.radius(), "unary + and -");
  const Ball<3, 2> z(1.5);
  vf_assert(z.center().isZero(), "default center is 0");
  const Ball<3, 2> o(double(vf_int("q", 0, 4000)) / 4, v);
  vf_assert((o == ball) == (o.radius() == ball.radius() && o.center() == ball.center()), "== iff same radius and center");
  vf_assert((o != ball) == !(o == ball), "!= is the negation");
  vf_reach("end");
}
// far centers, other dimensions
template <Index N, Index P>
static void far(Index dim, long maxR) {
  const long r4 = vf_pick("r", 0, maxR);
  const Position<N> c = symPos<N>("c", dim, -1000000000000000l, 1000000000000000l);
  const Ball<N, P> ball(double(r4) / 4, c);
  vf_assert(ball.dimension() == dim, "dimension");
  const long R = r4 / 4;
  const Position<N> shape = ball.shape();
  vf_assert((Index)shape.size() == dim, "shape of the bounding box");
  for (Index i = 0; i < dim; ++i) vf_assert(shape[i] == 2 * R + 1 && ball.box().front()[i] == c[i] - R && ball.box().back()[i] == c[i] + R, "bounding box");
  Position<N> d(dim);
  d.fill(-R);
  auto it = begin(ball);
  long k = 0;
  while (true) {
    long s = 0;
    for (Index i = 0; i < dim; ++i) s += P == 1 ? 4 * std::labs(d[i]) : 16 * d[i] * d[i];
    if (s <= (P == 1 ? r4 : r4 * r4)) {
      vf_assert(it != end(ball), "every position of the ball once");
      for (Index i = 0; i < dim; ++i) vf_assert((*it)[i] == c[i] + d[i], "positions of the ball in storage order");
      ++it;
      ++k;
    }
    Index i = 0;
    while (i < dim && d[i] == R) d[i++] = -R;
    if (i == dim) break;
    ++d[i];
  }
  vf_assert(it == end(ball), "no position out of the ball");
  vf_assert(ball.size() == k, "size is the number of positions");
  vf_reach("end");
}
VF_CASE(far1) { far<2, 1>(2, 10); }
VF_CASE(far2) { far<2, 2>(2, 10); }
VF_CASE(far31) { far<3, 1>(3, 8); }
VF_CASE(far32) { far<3, 2>(3, 8); }
VF_CASE(far41) { far<4, 1>(4, 5); }
VF_CASE(far42) { far<4, 2>(4, 5); }
VF_CASE(var1) { far<-1, 1>(vf_pick("dim", 1, 3), 8); }
VF_CASE(var2) { far<-1, 2>(vf_pick("dim", 1, 3), 8); }
// wide balls
VF_CASE(wide1) { far<1, 1>(1, 60); }
VF_CASE(wide2) { far<2, 2>(2, 24); }
VF_CASE(large_l1) { largeBall<2, 1>(); }
VF_CASE(large_l2) { largeBall<2, 2>(); }
VF_CASE(large_l1_3) { largeBall<3, 1>(); }
VF_CASE(large_l2_3) { largeBall<3, 2>(); }
VF_CASE(large_l2_1) { largeBall<1, 2>(); }
VF_CASE(far51) { far<5, 1>(5, 8); }
VF_CASE(far52) { far<5, 2>(5, 6); }
VF_CASE(var5) { far<-1, 2>(vf_pick("dim", 4, 5), 5); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_l1) { iterate<2, 1>(5); iterate<2, 1>(5); }
VF_CASE(again_l2) { iterate<2, 2>(5); iterate<2, 2>(5); }
