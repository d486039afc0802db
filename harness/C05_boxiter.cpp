#include "lt.h"
// NOTE: lengths up to 4 along each axis (3 in 3D and 4D, 2 in 5D; thorough 12, 3 in 5D, 2 in 6D) including empty boxes (lengths -3 to 0), and a few boxes of up to 4097 positions, any front position in [-1000, 1000]; one step from any position of any box with coordinates up to 10^15; dimensions 1 to 6 fixed, 1 to 4 variable (thorough 6 and 5)

template <Index N>
static void iterate(Index dim, long lo, long hi) {
  const Position<N> f = symPos<N>("f", dim, -1000, 1000), s = pickPos<N>("s", dim, lo, hi);
  const Box<N> box = Box<N>::fromShape(f, s);
  long n = 1;
  for (Index i = 0; i < dim; ++i) n *= s[i] > 0 ? s[i] : 0;
  long k = 0;
  for (const auto& p : box) {
    vf_assert(k < n, "no more positions than the size");
    // the k-th position in row-major order
    long q = k;
    for (Index i = 0; i < dim; ++i) {
      vf_assert(p[i] == f[i] + q % s[i], "positions are visited in storage order");
      q /= s[i];
    }
    vf_assert((Index)p.size() == dim, "dimension");
    ++k;
  }
  vf_assert(k == n, "every position is visited once");
  vf_assert(box.size() == n, "the size is the number of positions");
  vf_assert((begin(box) == end(box)) == (n == 0) && (begin(box) != end(box)) == (n != 0), "begin is end iff the box is empty");
  vf_observe("n", k);
  vf_reach("end");
}
VF_CASE(iterate1) { iterate<1>(1, -3, 5); }
VF_CASE(iterate2) { iterate<2>(2, -3, 4); }
VF_CASE(iterate3) { iterate<3>(3, -2, 3); }
VF_CASE(iterate4) { iterate<4>(4, 0, 2); }
VF_CASE(iterateV) { iterate<-1>(vf_pick("dim", 1, 3), -2, 3); }
VF_CASE(iterate4_3) { iterate<4>(4, -1, 3); }
VF_CASE(iterate5) { iterate<5>(5, 0, 2); }
VF_CASE(iterateV4) { iterate<-1>(4, 0, 2); }
VF_CASE(iterate5_3) { iterate<5>(5, 0, 3); }
VF_CASE(iterate6_0) { iterate<6>(6, 0, 2); }
VF_CASE(iterate2_12) { iterate<2>(2, -1, 12); }
VF_CASE(iterateV5) { iterate<-1>(vf_pick("dim", 4, 5), 0, 2); }

// in a raster, indices increase by one over the domain, and strictly increase over a region
template <Index N>
static void domainOrder(Index dim, long maxLen) {
  const Position<N> s = pickPos<N>("s", dim, 0, maxLen);
  VecRaster<char, N> r(s);
  long k = 0;
  for (const auto& p : r.domain()) {
    vf_assert(r.index(p) == k, "the domain is screened in storage order");
    ++k;
  }
  vf_assert(k == (long)r.size(), "the whole domain is screened");
  vf_reach("end");
}
VF_CASE(domain1) { domainOrder<1>(1, 5); }
VF_CASE(domain2) { domainOrder<2>(2, 4); }
VF_CASE(domain3) { domainOrder<3>(3, 3); }
VF_CASE(domainV) { domainOrder<-1>(vf_pick("dim", 1, 3), 2); }
VF_CASE(regionOrder) {
  const Position<3> s = symPos<3>("s", 3, 2, 1000);
  const Position<3> f = symPos<3>("f", 3, 0, 998);
  for (Index i = 0; i < 3; ++i) vf_assume(f[i] + 2 <= s[i]);
  int dummy[1];
  PtrRaster<int, 3> r(s, dummy);
  long prev = -1;
  const Box<3> box = Box<3>::fromShape(f, {2, 2, 2});
  long k = 0;
  for (const auto& p : box) {
    const long i = r.index(p);
    if (k > 0) vf_assert(p[0] + s[0] * (p[1] + s[1] * p[2]) == i, "index");
    if (k % 2 == 1) vf_assert(i == prev + 1, "lines are screened contiguously");
    prev = i;
    ++k;
  }
  vf_assert(k == 8, "count");
  vf_reach("end");
}

// iterator operators
VF_CASE(operators) {
  const Position<2> f = symPos<2>("f", 2, -1000, 1000), s = pickPos<2>("s", 2, 1, 3);
  const Box<2> box = Box<2>::fromShape(f, s);
  auto it = begin(box);
  vf_assert(*it == f && it->operator[](0) == f[0] && it->operator[](1) == f[1], "begin is the front");
  const long n = s[0] * s[1];
  const long stop = vf_pick("stop", 0, 8);
  vf_assume(stop < n);
  for (long k = 0; k < stop; ++k) {
    if (k % 2) {
      const Position<2>& p = ++it;
      vf_assert(p == *it, "pre-increment returns the new position");
    } else {
      const Position<2>* p = it++;
      vf_assert(*p == *it, "post-increment returns the new position");
    }
  }
  vf_assert((*it)[0] == f[0] + stop % s[0] && (*it)[1] == f[1] + stop / s[0], "position after some increments");
  auto copy = it;
  vf_assert(copy == it && !(copy != it), "a copy is equal");
  ++copy;
  vf_assert(copy != it && (copy == end(box)) == (stop == n - 1), "a copy goes on independently");
  it.reset();
  vf_assert(*it == f && it == begin(box), "reset");
  vf_reach("end");
}
VF_CASE(resetEmpty) {
  const Position<2> f = symPos<2>("f", 2, -1000, 1000), s = pickPos<2>("s", 2, -1, 2);
  const Box<2> box = Box<2>::fromShape(f, s);
  auto it = begin(box);
  it.reset();
  vf_assert((it == end(box)) == (s[0] <= 0 || s[1] <= 0), "reset of an empty box iterator");
  vf_reach("end");
}

// an iterator outlives the one it was copied from
VF_CASE(copies) {
  const Position<2> f = symPos<2>("f", 2, -1000, 1000), s = pickPos<2>("s", 2, 1, 3);
  std::vector<Box<2>::Iterator> its;
  std::vector<Box<2>> boxes;
  boxes.push_back(Box<2>::fromShape(f, s));
  its.push_back(begin(boxes[0]));
  its.reserve(10);
  long k = 0;
  while (its[0] != end(boxes[0])) {
    ++its[0];
    ++k;
  }
  vf_assert(k == s[0] * s[1], "copied iterator");
  vf_reach("end");
}
// one step anywhere in a box of any size: the next position in storage order, or the end
template <Index N>
static void oneStep(Index dim) {
  const long B = 1000000000000000l;
  const Position<N> f = symPos<N>("f", dim, -B, B), b = symPos<N>("b", dim, -B, B), p = symPos<N>("p", dim, -B, B);
  for (Index i = 0; i < dim; ++i) vf_assume(f[i] <= p[i] && p[i] <= b[i]);
  const Box<N> box(f, b);
  vf_assert(*begin(box) == f && begin(box) != end(box), "begins at the front");
  typename Box<N>::Iterator it(box, p);
  vf_assert(*it == p && it != end(box), "begins anywhere");
  if (vf_pick("post", 0, 1)) it++;
  else ++it;
  Position<N> q = p;
  bool last = true;
  for (Index i = 0; i < dim; ++i) {
    if (!last) continue;
    if (p[i] == b[i]) q[i] = f[i];
    else {
      q[i] += 1;
      last = false;
    }
  }
  vf_assert((it == end(box)) == last && (it != end(box)) == !last, "the end follows the back only");
  if (!last) {
    for (Index i = 0; i < dim; ++i) vf_assert((*it)[i] == q[i], "the next position in storage order");
  }
  it.reset();
  for (Index i = 0; i < dim; ++i) vf_assert((*it)[i] == f[i], "reset");
  vf_reach("end");
}
VF_CASE(step1) { oneStep<1>(1); }
VF_CASE(step2) { oneStep<2>(2); }
VF_CASE(step3) { oneStep<3>(3); }
VF_CASE(step4) { oneStep<4>(4); }
VF_CASE(step5) { oneStep<5>(5); }
VF_CASE(stepV) { oneStep<-1>(vf_pick("dim", 1, 5)); }
// the position iterator of an empty box of any size
VF_CASE(emptyFar) {
  const long B = 1000000000000l;
  const Position<3> f = symPos<3>("f", 3, -B, B), b = symPos<3>("b", 3, -B, B);
  const Box<3> box(f, b);
  vf_assert((begin(box) == end(box)) == (b[0] < f[0] || b[1] < f[1] || b[2] < f[2]), "begin is end iff the box is empty");
  vf_reach("end");
}
VF_CASE(iterate2_wide) { iterate<2>(2, -1, 8); }
VF_CASE(iterate1_long) { iterate<1>(1, -1, 40); }
VF_CASE(iterate6) { iterate<6>(6, 1, 2); }
// large boxes
template <Index N>
static void largeBox(Position<N> shape) {
  const Index dim = shape.size();
  const Position<N> f = symPos<N>("f", dim, -1000, 1000);
  const Box<N> box = Box<N>::fromShape(f, shape);
  const long n = refSize(shape, dim);
  Position<N> q = f;
  long k = 0;
  for (const auto& p : box) {
    vf_assert(k < n, "no position after the back");
    if (k % 97 == 0 || k > n - 100 || k < 300) for (Index i = 0; i < dim; ++i) vf_assert(p[i] == q[i], "storage order");
    ++k;
    for (Index i = 0; i < dim; ++i) {
      if (++q[i] < f[i] + shape[i]) break;
      q[i] = f[i];
    }
  }
  vf_assert(k == n, "every position");
  vf_reach("end");
}
VF_CASE(large1) { largeBox<1>({pickLarge("n", 4097)}); }
VF_CASE(large2) { largeBox<2>({pickLarge("n", 257), 7}); }
VF_CASE(large2b) { largeBox<2>({3, pickLarge("n", 1000)}); }
VF_CASE(large3) { largeBox<3>({2, 3, pickLarge("n", 257)}); }
VF_CASE(largeV) { largeBox<-1>(Position<-1>({3, pickLarge("n", 257), 2})); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_iterate) { iterate<2>(2, -1, 2); iterate<2>(2, -1, 2); }
VF_CASE(again_domain) { domainOrder<2>(2, 3); domainOrder<2>(2, 3); }
VF_CASE(again_variable) { domainOrder<-1>(2, 2); domainOrder<-1>(3, 2); domainOrder<-1>(1, 2); }
