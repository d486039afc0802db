#include "lt.h"
#include <LitlRaster/Subraster.h>
// NOTE: shapes up to 5x5, 3x3x3, 4x2x2x2 and 2x2x2x2x2, any region inside the domain (and small regions at the end of rasters of 300 to 120000 elements), including empty ones for iteration; const and mutable parents; dimensions 1 to 4 fixed, 2 and 3 variable

template <Index N>
static void sub(Index dim, long l0, long l1) {
  Position<N> s(dim), f(dim), n(dim);
  for (Index i = 0; i < dim; ++i) {
    s[i] = vf_pick("s", 1, i == 0 ? l0 : l1);
    f[i] = vf_pick("f", 0, s[i] - 1);
    n[i] = vf_pick("n", 1, s[i] - f[i]);
  }
  VecRaster<long, N> r(s);
  for (std::size_t i = 0; i < r.size(); ++i) r[i] = long(i);
  const VecRaster<long, N>& c = r;
  const Box<N> region = Box<N>::fromShape(f, n);
  auto v = r.subraster(region);
  const auto cv = c.subraster(region);
  vf_assert(v.shape() == n && (long)v.size() == refSize(n, dim) && v.region() == region && &v.raster() == &r, "subraster properties");
  vf_assert(cv.shape() == n && (long)cv.size() == refSize(n, dim) && cv.region() == region && &cv.raster() == &c, "const subraster properties");
  // access
  Position<N> q = symPos<N>("q", dim, 0, 3);
  for (Index i = 0; i < dim; ++i) vf_assume(q[i] < n[i]);
  const long idx = refIndex(s, q + f, dim);
  vf_assert(v[q] == idx && cv[q] == idx, "elements are relative to the region front");
  vf_assert(&v[q] == r.data() + idx && &cv[q] == c.data() + idx, "the subraster is a view");
  // iteration
  long k = 0;
  for (const auto& e : cv) {
    long t = k, i0 = 0, stride = 1;
    for (Index i = 0; i < dim; ++i) {
      i0 += (f[i] + t % n[i]) * stride;
      stride *= s[i];
      t /= n[i];
    }
    vf_assert(&e == c.data() + i0, "iteration over the region in storage order");
    ++k;
  }
  vf_assert(k == refSize(n, dim), "every pixel of the region once");
  for (auto& e : v) e = -1 - e;
  for (const auto& p : r.domain()) {
    bool in = true;
    for (Index i = 0; i < dim; ++i) in = in && p[i] >= f[i] && p[i] < f[i] + n[i];
    const long i = refIndex(s, p, dim);
    vf_assert(r[i] == (in ? -1 - i : i), "exactly the region is modified");
  }
  vf_observe("k", k);
  vf_reach("end");
}
VF_CASE(sub1) { sub<1>(1, 5, 5); }
VF_CASE(sub2) { sub<2>(2, 4, 3); }
VF_CASE(sub3) { sub<3>(3, 3, 2); }
VF_CASE(subV) { sub<-1>(2, 3, 2); }
VF_CASE(sub4) { sub<4>(4, 2, 2); }
VF_CASE(subV3) { sub<-1>(3, 2, 2); }
VF_CASE(sub2_5) { sub<2>(2, 5, 5); }
VF_CASE(sub3_3) { sub<3>(3, 3, 3); }
VF_CASE(subV4) { sub<-1>(4, 2, 2); }

// empty regions, iterator operators and copies
VF_CASE(operators) {
  Position<2> s {4, 3}, f, n;
  for (Index i = 0; i < 2; ++i) {
    f[i] = vf_pick("f", 0, s[i] - 1);
    n[i] = vf_pick("n", 0, s[i] - f[i]);
  }
  VecRaster<long, 2> r(s);
  for (std::size_t i = 0; i < r.size(); ++i) r[i] = long(i);
  auto v = r.subraster(Box<2>::fromShape(f, n));
  typedef typename decltype(v)::Iterator It;
  std::vector<It> its;
  its.push_back(begin(v));
  its.reserve(10);
  auto it = begin(v);
  vf_assert(it == its[0] && !(it != its[0]), "copies are equal");
  vf_assert((it == end(v)) == (n[0] * n[1] == 0), "begin is end iff the region is empty");
  long k = 0;
  while (its[0] != end(v)) {
    vf_assert(*its[0] == *it && &*it == its[0].operator->(), "a copy goes on independently");
    vf_assert(*it == f[0] + k % n[0] + 4 * (f[1] + k / n[0]), "elements");
    ++its[0];
    it++;
    ++k;
  }
  vf_assert(k == n[0] * n[1] && it == end(v), "both reach the end");
  vf_reach("end");
}
VF_CASE(sub4w) { sub<4>(4, 4, 2); }
VF_CASE(sub5) { sub<5>(5, 2, 2); }
VF_CASE(sub1_long) { sub<1>(1, 12, 1); }
// positions are relative to the region, wherever they are in the raster
template <Index N>
static void relative(Index dim) {
  Position<N> s(dim), f(dim), n(dim);
  for (Index i = 0; i < dim; ++i) {
    s[i] = i < 2 ? 4 : 3;
    f[i] = vf_pick("f", 0, s[i] - 1);
    n[i] = vf_pick("n", 1, 2);
    vf_assume(f[i] + n[i] <= s[i]);
  }
  VecRaster<long, N> r(s);
  for (std::size_t i = 0; i < r.size(); ++i) r[i] = long(i);
  const VecRaster<long, N>& c = r;
  const Box<N> region = Box<N>::fromShape(f, n);
  auto v = r.subraster(region);
  const auto cv = c.subraster(region);
  const Position<N> p = symPos<N>("p", dim, 0, 3);
  for (Index i = 0; i < dim; ++i) vf_assume(p[i] < s[i]);
  vf_assert(v[p - f] == refIndex(s, p, dim) && cv[p - f] == refIndex(s, p, dim), "elements are relative to the region front");
  v[p - f] = -1;
  vf_assert(r[p] == -1, "written in the raster");
  vf_reach("end");
}
VF_CASE(relative1) { relative<1>(1); }
VF_CASE(relative2) { relative<2>(2); }
VF_CASE(relative3) { relative<3>(3); }
VF_CASE(relativeV) { relative<-1>(2); }
VF_CASE(large_parents) { // regions which are far from the first element
  const long widths[] = {100, 255, 257, 40000}, w = widths[vf_pick("width", 0, 3)];
  const long heights[] = {3, 400}, h = w > 300 ? 3 : heights[vf_pick("height", 0, 1)];
  Raster<char> r({w, h});
  const Raster<char>& c = r;
  const long x = vf_pick("x", 0, 1) ? w - 3 : 1, y = h - 2;
  const auto region = Box<2>({x, y}, {x + 1, y + 1});
  auto s = r.subraster(region);
  const auto cs = c.subraster(region);
  long k = 0;
  for (auto& e : s) {
    vf_assert(&e == r.data() + x + k % 2 + (y + k / 2) * w && &e == &s[{k % 2, k / 2}], "pixels of the region");
    ++k;
  }
  vf_assert(k == 4, "all of them");
  for (const auto& e : cs) {
    --k;
    vf_assert(&e == r.data() + x + (3 - k) % 2 + (y + (3 - k) / 2) * w && &e == &cs[{(3 - k) % 2, (3 - k) / 2}], "pixels of the region");
  }
  vf_assert(k == 0, "all of them");
  vf_reach("end");
}
VF_CASE(large_regions) {
  const long w = pickLarge("w", 1000), h = vf_pick("h", 1, 5);
  Raster<int> r({w + 3, h + 2});
  for (std::size_t i = 0; i < r.size(); ++i) r[i] = int(i);
  auto s = r.subraster(Box<2>({1, 1}, {w, h}));
  long k = 0;
  bool same = true;
  for (auto& e : s) {
    same = same && &e == r.data() + 1 + k % w + (1 + k / w) * (w + 3);
    ++k;
  }
  vf_assert(same && k == w * h && s.size() == std::size_t(k), "pixels of the region");
  const int v = vf_int("v", -1000, 1000);
  for (auto& e : s) e = v;
  for (long i = 0; i < long(r.size()); ++i) {
    const long x = i % (w + 3), y = i / (w + 3);
    same = same && r[i] == (x >= 1 && x <= w && y >= 1 && y <= h ? v : int(i));
  }
  vf_assert(same, "written in the region only");
  vf_reach("end");
}
VF_CASE(sub6) { sub<6>(6, 2, 2); }
VF_CASE(subV5) { sub<-1>(5, 2, 2); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_sub) { sub<2>(2, 2, 2); sub<2>(2, 2, 2); }
VF_CASE(again_relative) { relative<2>(2); relative<2>(2); }
