#include "lt.h"
// NOTE: slices: shapes up to 3 along each axis (2 in 4D and variable dimension; thorough 5, 3 in 4D, 2 in 5D), regions arbitrary inside the domain; contiguity alone: lengths up to 1000, dimensions up to 6, fixed and variable; sections up to 4D (thorough 5D) and variable dimension up to 3

template <Index N>
static VecRaster<int, N> numbered(const Position<N>& s) {
  VecRaster<int, N> r(s);
  for (std::size_t i = 0; i < r.size(); ++i) r[i] = int(i);
  return r;
}
template <Index N>
static void pickRegion(const Position<N>& s, Position<N>& f, Position<N>& b, bool sym) {
  for (std::size_t i = 0; i < s.size(); ++i) {
    f[i] = sym ? vf_int("f", 0, s[i] - 1) : vf_pick("f", 0, s[i] - 1);
    b[i] = sym ? vf_int("b", 0, s[i] - 1) : vf_pick("b", 0, s[i] - 1);
    vf_assume(f[i] <= b[i]);
  }
}

// contiguity test, and slices view exactly the region
template <Index N, Index M>
static void slices(long maxLen, Index dim = N) {
  Position<N> s = pickPos<N>("s", dim, 1, maxLen);
  Position<N> f(dim), b(dim);
  pickRegion(s, f, b, false);
  VecRaster<int, N> r = numbered<N>(s);
  const VecRaster<int, N>& c = r;
  const Box<N> region(f, b);
  bool cont = true;
  for (Index i = 0; i < dim; ++i) {
    if (i < M - 1) cont = cont && f[i] == 0 && b[i] == s[i] - 1;
    if (i >= M) cont = cont && f[i] == b[i];
  }
  vf_assert(c.template isContiguous<M>(region) == cont, "isContiguous");
  bool thrown = false;
  try {
    auto v = r.template slice<M>(region);
    long n = 1;
    for (Index i = 0; i < M; ++i) {
      vf_assert(v.shape()[i] == b[i] - f[i] + 1, "slice shape");
      n *= b[i] - f[i] + 1;
    }
    vf_assert((long)v.size() == n && v.dimension() == M, "slice size");
    vf_assert(v.data() == r.data() + refIndex(s, f, dim), "slice is a view");
    const auto cv = c.template slice<M>(region);
    vf_assert(cv.data() == v.data() && cv.shape() == v.shape(), "const slice");
    long k = 0;
    for (const auto& p : region) { // elements in storage order
      vf_assert(v[k] == int(refIndex(s, p, dim)), "slice elements");
      ++k;
    }
    vf_assert(k == n, "slice holds the region");
    v[n - 1] = -1;
    vf_assert(r[b] == -1, "slice writes through");
    vf_observe("n", n);
  } catch (const Exception&) {
    thrown = true;
  }
  vf_assert(thrown == !cont, "slicing a non contiguous region throws");
  vf_assert(vf_throws_as<Exception>([&]() { c.template slice<M>(region); }) == !cont, "const slicing a non contiguous region throws");
  vf_reach("end");
}
VF_CASE(slice22) { slices<2, 2>(3); }
VF_CASE(slice21) { slices<2, 1>(3); }
VF_CASE(slice33) { slices<3, 3>(2); }
VF_CASE(slice32) { slices<3, 2>(2); }
VF_CASE(slice31) { slices<3, 1>(2); }
VF_CASE(slice11) { slices<1, 1>(4); }
VF_CASE(sliceV1) { slices<-1, 1>(3, 2); }
VF_CASE(sliceV2) { slices<-1, 2>(2, 3); }
VF_CASE(slice32_3) { slices<3, 2>(3); }
VF_CASE(slice33_3) { slices<3, 3>(3); }
VF_CASE(slice41) { slices<4, 1>(2); }
VF_CASE(slice42) { slices<4, 2>(2); }
VF_CASE(slice43) { slices<4, 3>(2); }
VF_CASE(slice44) { slices<4, 4>(2); }
VF_CASE(sliceV3) { slices<-1, 3>(2, 4); }
VF_CASE(slice22_wide) { slices<2, 2>(5); }
VF_CASE(slice43_3) { slices<4, 3>(3); }
VF_CASE(slice44_3) { slices<4, 4>(3); }
VF_CASE(slice55_2) { slices<5, 5>(2); }

// contiguity with symbolic regions in large rasters
template <Index N, Index M>
static void contiguous() {
  int dummy[1];
  Position<N> s = symPos<N>("s", N, 1, 1000);
  PtrRaster<int, N> r(s, dummy);
  Position<N> f = symPos<N>("f", N, 0, 999), b = symPos<N>("b", N, 0, 999);
  bool cont = true;
  for (Index i = 0; i < N; ++i) {
    vf_assume(f[i] <= b[i] && b[i] < s[i]);
    if (i < M - 1) cont = cont && f[i] == 0 && b[i] == s[i] - 1;
    if (i >= M) cont = cont && f[i] == b[i];
  }
  vf_assert(r.template isContiguous<M>({f, b}) == cont, "isContiguous");
  vf_reach("end");
}
VF_CASE(contiguous32) { contiguous<3, 2>(); }
VF_CASE(contiguous31) { contiguous<3, 1>(); }
VF_CASE(contiguous21) { contiguous<2, 1>(); }
VF_CASE(contiguous42) { contiguous<4, 2>(); }
VF_CASE(contiguous43) { contiguous<4, 3>(); }
VF_CASE(contiguous44) { contiguous<4, 4>(); }
VF_CASE(contiguous55) { contiguous<5, 5>(); }
VF_CASE(contiguous53) { contiguous<5, 3>(); }

// sections
template <Index N>
static void sections(Index dim, long maxLen) {
  Position<N> s = pickPos<N>("s", dim, 1, maxLen);
  VecRaster<int, N> r = numbered<N>(s);
  const VecRaster<int, N>& c = r;
  const Index last = dim - 1;
  const long f = vf_pick("f", 0, s[last] - 1), b = vf_pick("b", f, s[last] - 1);
  long stride = 1;
  for (Index i = 0; i < last; ++i) stride *= s[i];
  auto v = r.section(f, b);
  const auto cv = c.section(f, b);
  vf_assert(v.dimension() == dim && cv.dimension() == dim, "section dimension");
  for (Index i = 0; i < dim; ++i) {
    vf_assert(v.shape()[i] == (i == last ? b - f + 1 : s[i]), "section shape");
    vf_assert(cv.shape()[i] == v.shape()[i], "const section shape");
  }
  vf_assert((long)v.size() == (b - f + 1) * stride, "section size");
  vf_assert(v.data() == r.data() + f * stride && cv.data() == v.data(), "section starts at the front index");
  for (const auto& p : v.domain()) {
    Position<N> q = p;
    q[last] += f;
    vf_assert(&v[p] == &r[q] && v[p] == int(refIndex(s, q, dim)) && &cv[p] == &v[p], "section elements");
  }
  vf_observe("size", v.size());
  if (dim > 1) {
    auto w = r.section(f);
    const auto cw = c.section(f);
    vf_assert(w.dimension() == dim - 1 && cw.dimension() == dim - 1, "section at index drops the last axis");
    for (Index i = 0; i < last; ++i) vf_assert(w.shape()[i] == s[i] && cw.shape()[i] == s[i], "section shape");
    vf_assert((long)w.size() == stride && (long)cw.size() == stride, "section size");
    vf_assert(w.data() == r.data() + f * stride && cw.data() == w.data(), "section at index starts there");
    w[0] = -7;
    vf_assert(r[f * stride] == -7, "section writes through");
    vf_observe("size", w.size());
  }
  vf_reach("end");
}
VF_CASE(section2) { sections<2>(2, 4); }
VF_CASE(section3) { sections<3>(3, 3); }
VF_CASE(section4) { sections<4>(4, 2); }
VF_CASE(section1) { sections<1>(1, 5); }
VF_CASE(section4_3) { sections<4>(4, 3); }
VF_CASE(sectionV) { sections<-1>(vf_pick("dim", 1, 3), 3); }

VF_CASE(recursive) {
  Position<3> s = pickPos<3>("s", 3, 1, 3);
  VecRaster<int, 3> r = numbered<3>(s);
  long z = vf_pick("z", 0, 2), y = vf_pick("y", 0, 2), x = vf_int("x", 0, 2);
  vf_assume(z < s[2] && y < s[1] && x < s[0]);
  auto line = r.section(z).section(y);
  vf_assert(line.dimension() == 1 && line.shape()[0] == s[0], "line");
  vf_assert(line[x] == int(x + s[0] * (y + s[1] * z)), "line elements");
  VecRaster<int, -1> v = numbered<-1>(Position<-1>(s));
  auto vline = v.section(z).section(y);
  vf_assert(vline.dimension() == 1 && vline.shape()[0] == s[0] && vline[x] == line[x], "variable dimension line");
  vf_reach("end");
}
// longer rasters
VF_CASE(slice11_long) { slices<1, 1>(9); }
VF_CASE(slice22_5) { slices<2, 2>(5); }
VF_CASE(slice53) { slices<5, 3>(2); }
VF_CASE(section2_long) { sections<2>(2, 9); }
// views of large rasters, whatever the region (the data are not read)
template <Index N, Index M>
static void farSlices(Index dim) {
  static const long lengths[] = {1, 2, 5, 1000};
  static int dummy[1];
  Position<N> s(dim), f(dim), b(dim);
  for (Index i = 0; i < dim; ++i) s[i] = lengths[vf_pick("s", 0, 3)];
  for (Index i = 0; i < dim; ++i) {
    if (i < M - 1) { // whole lines or planes
      f[i] = 0;
      b[i] = s[i] - 1;
    } else {
      f[i] = vf_int("f", 0, 999);
      b[i] = i < M ? vf_int("b", 0, 999) : f[i];
      vf_assume(f[i] <= b[i] && b[i] < s[i]);
    }
  }
  PtrRaster<int, N> r(s, dummy);
  const PtrRaster<int, N>& c = r;
  const auto v = r.template slice<M>(Box<N>(f, b));
  const auto cv = c.template slice<M>(Box<N>(f, b));
  vf_assert(v.data() - r.data() == refIndex(s, f, dim) && cv.data() == v.data(), "the slice begins at the front of the region");
  for (Index i = 0; i < M; ++i) vf_assert(v.shape()[i] == b[i] - f[i] + 1 && cv.shape()[i] == v.shape()[i], "slice shape");
  const long z = vf_int("z", 0, 999);
  const long y = vf_int("y", 0, 999);
  vf_assume(z <= y && y < s[dim - 1]);
  const auto w = r.section(z, y);
  const auto cw = c.section(z, y);
  vf_assert(w.data() - r.data() == refSize(s, dim - 1) * z && cw.data() == w.data(), "the section begins at its front");
  for (Index i = 0; i < dim; ++i) vf_assert(w.shape()[i] == (i < dim - 1 ? s[i] : y - z + 1) && cw.shape()[i] == w.shape()[i], "section shape");
  if (dim > 1) {
    const auto u = r.section(z);
    const auto cu = c.section(z);
    vf_assert(u.data() == w.data() && cu.data() == w.data() && u.dimension() == dim - 1, "section at index");
    for (Index i = 0; i < dim - 1; ++i) vf_assert(u.shape()[i] == s[i] && cu.shape()[i] == s[i], "section shape");
  }
  vf_reach("end");
}
VF_CASE(far21) { farSlices<2, 1>(2); }
VF_CASE(far22) { farSlices<2, 2>(2); }
VF_CASE(far31) { farSlices<3, 1>(3); }
VF_CASE(far32) { farSlices<3, 2>(3); }
VF_CASE(far33) { farSlices<3, 3>(3); }
VF_CASE(far42) { farSlices<4, 2>(4); }
VF_CASE(far44) { farSlices<4, 4>(4); }
VF_CASE(far53) { farSlices<5, 3>(5); }
VF_CASE(far55) { farSlices<5, 5>(5); }
VF_CASE(farV2) { farSlices<-1, 2>(3); }
VF_CASE(farV3) { farSlices<-1, 3>(4); }
VF_CASE(section5) { sections<5>(5, 2); }
VF_CASE(contiguous41) { contiguous<4, 1>(); }
VF_CASE(contiguous51) { contiguous<5, 1>(); }
VF_CASE(contiguous52) { contiguous<5, 2>(); }
VF_CASE(contiguous54) { contiguous<5, 4>(); }
VF_CASE(contiguous62) { contiguous<6, 2>(); }
VF_CASE(contiguous63) { contiguous<6, 3>(); }
VF_CASE(contiguous65) { contiguous<6, 5>(); }
VF_CASE(slice51) { slices<5, 1>(2); }
VF_CASE(slice52) { slices<5, 2>(2); }
VF_CASE(slice54) { slices<5, 4>(2); }
VF_CASE(far52) { farSlices<5, 2>(5); }
template <Index M>
static void contiguousV(Index dim) {
  int dummy[1];
  Position<-1> s = symPos<-1>("s", dim, 1, 1000);
  PtrRaster<int, -1> r(s, dummy);
  Position<-1> f = symPos<-1>("f", dim, 0, 999), b = symPos<-1>("b", dim, 0, 999);
  bool cont = true;
  for (Index i = 0; i < dim; ++i) {
    vf_assume(f[i] <= b[i] && b[i] < s[i]);
    if (i < M - 1) cont = cont && f[i] == 0 && b[i] == s[i] - 1;
    if (i >= M) cont = cont && f[i] == b[i];
  }
  vf_assert(r.template isContiguous<M>({f, b}) == cont, "isContiguous");
  vf_reach("end");
}
VF_CASE(contiguousV1) { contiguousV<1>(vf_pick("dim", 1, 5)); }
VF_CASE(contiguousV2) { contiguousV<2>(vf_pick("dim", 2, 5)); }
VF_CASE(contiguousV3) { contiguousV<3>(vf_pick("dim", 3, 6)); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_slices) { slices<2, 1>(2); slices<2, 1>(2); }
VF_CASE(again_section) { sections<2>(2, 2); sections<2>(2, 2); }
VF_CASE(again_contiguous) { contiguous<2, 1>(); contiguous<2, 1>(); }
