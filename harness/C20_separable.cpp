#include "lt.h"
#include <LitlTransforms/SeparableKernel.h>
// NOTE: component kernels of 1 to 3 elements with any origin, along 1 to 3 distinct axes in any order (and twice the same axis in a dedicated case), rasters up to 3x3 in dimension 2, 3x2x2 in dimension 3 (axes which are not filtered included); any kernel values within [-1000, 1000] and elements within [-1000, 1000] (int and long); real kernels (multiples of 1/2) on integer rasters along 1 to 3 axes; any factor of the usual filters within [-1000, 1000], along two and three axes in any order; four components in dimension 4, rasters of dimension 5, of up to 80x3x3, 3x131x3 and 3x3x260 with one arbitrary element, rasters of variable dimension, composed windows of up to 4x2x5; rasters of 18x5x11 with one arbitrary element; lines of up to 17 elements along each axis with kernels of up to 9; the uncompilable correlateSamples functions are left out

template <typename T>
static LineKernel<T> line(const char* name, long ks, long origin) {
  std::vector<T> v(ks);
  for (auto& e : v) e = vf_int(name, -1000, 1000);
  return LineKernel<T>(v, origin);
}
// reference: correlation along one axis, cropped at the borders
template <typename T, Index N>
static Raster<T, N> ref(const Raster<T, N>& in, const LineKernel<T>& k, Index axis) {
  Raster<T, N> out(in.shape());
  long stride = 1;
  for (Index d = 0; d < axis; ++d) stride *= in.shape()[d];
  for (long i = 0; i < (long)in.size(); ++i) {
    const long x = i / stride % in.shape()[axis];
    T s = 0;
    for (long j = 0; j < (long)k.size(); ++j) {
      const long y = x + j - k.origin();
      if (y >= 0 && y < in.shape()[axis]) s += k.data()[j] * in.data()[i + (j - k.origin()) * stride];
    }
    out.data()[i] = s;
  }
  return out;
}
VF_CASE(one_axis) {
  const auto shape = pickPos<2>("shape", 2, 1, 3);
  const long ks = vf_pick("ks", 1, 3), o = vf_pick("o", 0, ks - 1);
  Raster<int, 2> in(shape);
  symFill(in, "e", -1000, 1000);
  const auto before = in;
  const auto k = line<int>("k", ks, o);
  vf_assert(k.along<0>() * in == ref(in, k, 0), "along the first axis");
  vf_assert(k.along<1>() * in == ref(in, k, 1), "along the second axis");
  vf_assert(in == before, "the input is not changed");
  vf_reach("end");
}
VF_CASE(two_axes) {
  const auto shape = pickPos<2>("shape", 2, 1, 3);
  const long ka = vf_pick("ka", 1, 3), oa = vf_pick("oa", 0, ka - 1);
  const long kb = vf_pick("kb", 1, 3), ob = vf_pick("ob", 0, kb - 1);
  Raster<int, 2> in(shape);
  symFill(in, "e", -1000, 1000);
  const auto a = line<int>("a", ka, oa), b = line<int>("b", kb, ob);
  const auto ab = a.along<0>() * b.along<1>();
  const auto ba = b.along<1>() * a.along<0>();
  const auto r = ref(ref(in, a, 0), b, 1);
  vf_assert(ab * in == r, "one axis after the other");
  vf_assert(ba * in == r, "in any order");
  vf_assert(b.along<1>() * (a.along<0>() * in) == r, "successively");
  Raster<int, 2> out(shape);
  out.fill(3);
  ab.correlateTo(in, out);
  vf_assert(out == r, "into an existing raster");
  vf_reach("end");
}
VF_CASE(three_axes) {
  const auto shape = pickPos<3>("shape", 3, 1, 2);
  const auto a = line<long>("a", 2, 0);
  const auto b = line<long>("b", 3, 1);
  const auto c = line<long>("c", 2, 1);
  Raster<long, 3> in(shape);
  symFill(in, "e", -1000, 1000);
  const auto abc = a.along<0>() * b.along<1>() * c.along<2>();
  const auto bca = b.along<1>() * (c.along<2>() * a.along<0>());
  const auto r = ref(ref(ref(in, a, 0), b, 1), c, 2);
  vf_assert(abc * in == r && bca * in == r, "along three axes");
  vf_assert(a.along<0>() * c.along<2>() * in == ref(ref(in, a, 0), c, 2), "along two axes of three");
  const auto same = b.along<0, 1, 2>();
  vf_assert(same * in == ref(ref(ref(in, b, 0), b, 1), b, 2), "the same kernel along several axes");
  vf_reach("end");
}
// the composed kernel
VF_CASE(compose2) {
  const long ka = vf_pick("ka", 1, 3), oa = vf_pick("oa", 0, ka - 1);
  const long kb = vf_pick("kb", 1, 3), ob = vf_pick("ob", 0, kb - 1);
  const auto a = line<int>("a", ka, oa), b = line<int>("b", kb, ob);
  const auto s = a.along<0>() * b.along<1>();
  auto k = s.compose();
  vf_assert((k.shape() == Position<2> {ka, kb}), "shape");
  vf_assert((k.window().front() == Position<2> {-oa, -ob}) && k.window() == s.window(), "window");
  for (long j = 0; j < kb; ++j)
    for (long i = 0; i < ka; ++i) vf_assert((k.raster()[{i, j}] == a[i] * b[j]), "products of the components");
  vf_assert(s[0] == a && s[1] == b && s[1].origin() == ob, "components");
  Raster<int, 2> in({3, 2});
  symFill(in, "e", -1000, 1000);
  vf_assert(k * extrapolate(in, 0) == s * in, "same correlation");
  vf_reach("end");
}
VF_CASE(compose3) {
  const auto a = line<int>("a", 2, 0), b = line<int>("b", 1, 0), c = line<int>("c", 2, 1);
  const auto s = c.along<2>() * a.along<0>() * b.along<1>();
  auto k = s.compose();
  for (long m = 0; m < 2; ++m)
    for (long i = 0; i < 2; ++i) vf_assert((k.raster()[{i, 0, m}] == a[i] * b[0] * c[m]), "products of the components");
  vf_assert((k.window() == Box<3>(Position<3> {0, 0, -1}, Position<3> {1, 0, 0})) && s.window() == k.window(), "window");
  const auto gap = c.along<2>() * a.along<0>();
  vf_assert((gap.compose().shape() == Position<3> {2, 1, 2}), "no extent along other axes");
  vf_assert((gap.compose().raster()[{1, 0, 1}] == a[1] * c[1]), "products");
  vf_reach("end");
}
// usual filters
template <typename F>
static void filter2(F&& make, long side, long mid) {
  const long sign = vf_int("sign", -1000, 1000);
  const auto k = make(sign);
  const long d[3] = {sign, 0, -sign}, v[3] = {side, mid, side};
  auto c = k.first.compose();
  auto t = k.second.compose();
  for (long j = 0; j < 3; ++j)
    for (long i = 0; i < 3; ++i) {
      vf_assert((c.raster()[{i, j}] == d[i] * v[j]), "derivation along the first axis, averaging along the second one");
      vf_assert((t.raster()[{i, j}] == v[i] * d[j]), "derivation along the second axis, averaging along the first one");
    }
  vf_assert((c.window() == Box<2>(Position<2> {-1, -1}, Position<2> {1, 1})), "centered");
  vf_reach("end");
}
VF_CASE(sobel) { filter2([](int s) { return std::make_pair(SeparableKernel<int, 0, 1>::sobel(s), SeparableKernel<int, 1, 0>::sobel(s)); }, 1, 2); }
VF_CASE(prewitt) { filter2([](int s) { return std::make_pair(SeparableKernel<int, 0, 1>::prewitt(s), SeparableKernel<int, 1, 0>::prewitt(s)); }, 1, 1); }
VF_CASE(scharr) { filter2([](int s) { return std::make_pair(SeparableKernel<int, 0, 1>::scharr(s), SeparableKernel<int, 1, 0>::scharr(s)); }, 3, 10); }
VF_CASE(laplacian) {
  const long sign = vf_int("sign", -1000, 1000);
  Raster<int, 2> in({3, 2});
  symFill(in, "e", -100, 100);
  const LineKernel<int> l({int(sign), int(-2 * sign), int(sign)}, 1);
  vf_assert((SeparableKernel<int, 0, 1>::laplacian(sign) * in == ref(ref(in, l, 0), l, 1)), "laplacian");
  vf_assert((SeparableKernel<int, 0, 1>::sobel() * in == ref(ref(in, LineKernel<int>({1, 0, -1}, 1), 0), LineKernel<int>({1, 2, 1}, 1), 1)), "default sign");
  vf_reach("end");
}
VF_CASE(same_axis) {
  const auto a = line<int>("a", 2, 0), b = line<int>("b", 2, 1);
  Raster<int, 1> in({3});
  symFill(in, "e", -1000, 1000);
  vf_assert(a.along<0>() * b.along<0>() * in == ref(ref(in, a, 0), b, 0), "kernels along the same axis");
  vf_reach("end");
}
// types: intermediate values have the type of the kernel
template <typename T, typename TIn, Index N>
static void typed(const Position<N>& shape, Index axes) {
  std::vector<T> v(2), w(2);
  for (auto& e : v) e = T(vf_int("v", -20, 20)) / 2;
  for (auto& e : w) e = T(vf_int("w", -20, 20)) / 2;
  const LineKernel<T> a(v, 0), b(w, 1);
  Raster<TIn, N> in(shape);
  symFill(in, "e", 0, 100);
  Raster<T, N> cast(shape);
  for (std::size_t i = 0; i < in.size(); ++i) cast.data()[i] = in.data()[i];
  if constexpr (N == 3) {
    const Raster<T, N> out = axes == 3 ? a.template along<0>() * b.template along<1>() * a.template along<2>() * in : b.template along<2>() * a.template along<1>() * in;
    vf_assert(out == (axes == 3 ? ref(ref(ref(cast, a, 0), b, 1), a, 2) : ref(ref(cast, b, 2), a, 1)), "computed with the type of the kernel");
  } else {
    const Raster<T, N> out = axes == 2 ? b.template along<1>() * a.template along<0>() * in : Raster<T, N>(a.template along<1>() * in);
    vf_assert(out == (axes == 2 ? ref(ref(cast, a, 0), b, 1) : ref(cast, a, 1)), "computed with the type of the kernel");
  }
  vf_reach("end");
}
VF_CASE(typed_int1) { typed<double, int, 2>({2, 3}, 1); }
VF_CASE(typed_int2) { typed<double, int, 2>({2, 3}, 2); }
VF_CASE(typed_int3) { typed<double, int, 3>({2, 2, 2}, 3); }
VF_CASE(typed_uchar3) { typed<double, unsigned char, 3>({2, 2, 2}, 2); }
VF_CASE(typed_float) { typed<float, short, 2>({2, 2}, 2); }
// sizes
template <Index I, Index N>
static void sized(Index dim) {
  const long n = vf_pick("n", 6, 17);
  const long ks = vf_pick("ks", 4, 9);
  Position<N> shape(dim);
  for (auto& s : shape) s = 2;
  shape[I] = n;
  Raster<int, N> in(shape);
  symFill(in, "e", -1000, 1000);
  const auto a = line<int>("a", ks, ks / 3);
  vf_assert(a.template along<I>() * in == ref(in, a, I), "along an axis");
  vf_reach("end");
}
VF_CASE(sized0) { sized<0, 2>(2); }
VF_CASE(sized1) { sized<1, 2>(2); }
VF_CASE(sized2) { sized<2, 3>(3); }
VF_CASE(four) { // dimension 4
  Raster<int, 4> in({2, 3, 2, 2});
  symFill(in, "e", -1000, 1000);
  const auto a = line<int>("a", 2, 0), b = line<int>("b", 3, 1);
  vf_assert(a.along<3>() * in == ref(in, a, 3), "along the last axis");
  vf_assert(b.along<1>() * a.along<3>() * in == ref(ref(in, b, 1), a, 3), "along two axes");
  vf_assert((a.along<0, 2>() * in == ref(ref(in, a, 0), a, 2)), "the same kernel along two axes");
  vf_reach("end");
}
VF_CASE(away) { // windows which do not contain the origin
  const long oa = vf_pick("oa", -3, 5), ob = vf_pick("ob", -2, 3);
  const auto a = line<int>("a", 3, oa), b = line<int>("b", 2, ob);
  Raster<int, 2> in({3, 2});
  symFill(in, "e", -1000, 1000);
  const auto s = a.along<0>() * b.along<1>();
  vf_assert((s.window() == Box<2>(Position<2> {-oa, -ob}, Position<2> {2 - oa, 1 - ob})), "window");
  vf_assert(s * in == ref(ref(in, a, 0), b, 1), "values");
  auto k = s.compose();
  vf_assert(k.window() == s.window(), "composed window");
  vf_reach("end");
}
// filters along three axes: derivation along the first index, averaging along the others
template <Index I0, Index I1, Index I2, typename F>
static void filter3(F&& make, const long (&v)[3]) {
  const long sign = vf_int("sign", -1000, 1000);
  auto k = make(sign).compose();
  vf_assert((k.window() == Box<3>(Position<3> {-1, -1, -1}, Position<3> {1, 1, 1})), "centered");
  const long d[3] = {sign, 0, -sign};
  for (const auto& p : k.raster().domain()) vf_assert(k.raster()[p] == d[p[I0]] * v[p[I1]] * v[p[I2]], "derivation along the first axis, averaging along the others");
  vf_reach("end");
}
VF_CASE(sobel012) { filter3<0, 1, 2>([](int s) { return SeparableKernel<int, 0, 1, 2>::sobel(s); }, {1, 2, 1}); }
VF_CASE(sobel102) { filter3<1, 0, 2>([](int s) { return SeparableKernel<int, 1, 0, 2>::sobel(s); }, {1, 2, 1}); }
VF_CASE(sobel201) { filter3<2, 0, 1>([](int s) { return SeparableKernel<int, 2, 0, 1>::sobel(s); }, {1, 2, 1}); }
VF_CASE(sobel210) { filter3<2, 1, 0>([](int s) { return SeparableKernel<int, 2, 1, 0>::sobel(s); }, {1, 2, 1}); }
VF_CASE(prewitt120) { filter3<1, 2, 0>([](int s) { return SeparableKernel<int, 1, 2, 0>::prewitt(s); }, {1, 1, 1}); }
VF_CASE(prewitt201) { filter3<2, 0, 1>([](int s) { return SeparableKernel<int, 2, 0, 1>::prewitt(s); }, {1, 1, 1}); }
VF_CASE(scharr021) { filter3<0, 2, 1>([](int s) { return SeparableKernel<int, 0, 2, 1>::scharr(s); }, {3, 10, 3}); }
VF_CASE(scharr210) { filter3<2, 1, 0>([](int s) { return SeparableKernel<int, 2, 1, 0>::scharr(s); }, {3, 10, 3}); }
VF_CASE(filters_applied) { // in rasters of larger dimension and any element type
  const long sign = vf_pick("sign", 0, 1) * 2 - 1;
  Raster<short, 3> in({3, 3, 2});
  symFill(in, "e", -32768, 32767);
  Raster<long, 3> cast(in.shape());
  for (std::size_t i = 0; i < in.size(); ++i) cast.data()[i] = in.data()[i];
  const LineKernel<long> d({sign, 0, -sign}, 1), a({1, 2, 1}, 1), b({3, 10, 3}, 1), c({1, 1, 1}, 1), l({sign, -2 * sign, sign}, 1);
  vf_assert((SeparableKernel<long, 1, 0>::sobel(sign) * in == ref(ref(cast, d, 1), a, 0)), "sobel");
  vf_assert((SeparableKernel<long, 0, 2>::scharr(sign) * in == ref(ref(cast, d, 0), b, 2)), "scharr");
  vf_assert((SeparableKernel<long, 2, 0, 1>::prewitt(sign) * in == ref(ref(ref(cast, d, 2), c, 0), c, 1)), "prewitt");
  vf_assert((SeparableKernel<long, 0, 1, 2>::laplacian(sign) * in == ref(ref(ref(cast, l, 0), l, 1), l, 2)), "laplacian");
  vf_reach("end");
}
VF_CASE(filters_real) {
  Raster<int, 2> in({3, 3});
  symFill(in, "e", -1000, 1000);
  Raster<double, 2> cast(in.shape());
  for (std::size_t i = 0; i < in.size(); ++i) cast.data()[i] = in.data()[i];
  const LineKernel<double> d({.5, 0, -.5}, 1), a({1, 2, 1}, 1), b({3, 10, 3}, 1);
  vf_assert((SeparableKernel<double, 0, 1>::sobel(.5) * in == ref(ref(cast, d, 0), a, 1)), "sobel");
  vf_assert((SeparableKernel<double, 1, 0>::scharr(.5) * in == ref(ref(cast, d, 1), b, 0)), "scharr");
  vf_reach("end");
}
// four components
VF_CASE(four_axes) {
  Raster<long, 4> in({2, 2, 3, 2});
  symFill(in, "e", -1000, 1000);
  const auto a = line<long>("a", 2, 0), b = line<long>("b", 1, 0), c = line<long>("c", 3, 2), d = line<long>("d", 2, 1);
  const auto abcd = a.along<0>() * b.along<1>() * c.along<2>() * d.along<3>();
  const auto dbca = d.along<3>() * b.along<1>() * (c.along<2>() * a.along<0>());
  const auto r = ref(ref(ref(ref(in, a, 0), b, 1), c, 2), d, 3);
  vf_assert(abcd * in == r && dbca * in == r, "along four axes, in any order");
  vf_assert(dbca[2] == c && dbca[3] == d && dbca[1] == b && dbca[0] == a && dbca.window() == abcd.window(), "components");
  vf_reach("end");
}
VF_CASE(variable) { // variable dimension
  Raster<int, -1> in(Position<-1>({2, 3, 2}));
  symFill(in, "e", -1000, 1000);
  const auto a = line<int>("a", 2, 0), b = line<int>("b", 3, 1);
  vf_assert(a.along<2>() * b.along<1>() * in == ref(ref(in, a, 2), b, 1), "variable dimension");
  vf_assert(b.along<0>() * in == ref(in, b, 0), "variable dimension");
  vf_reach("end");
}
// composed kernels of three components with wide windows
VF_CASE(compose_wide) {
  const long ka = vf_pick("ka", 1, 4), kc = vf_pick("kc", 2, 5);
  const auto a = line<int>("a", ka, ka - 1), b = line<int>("b", 2, 1), c = line<int>("c", kc, kc / 2);
  const auto s = b.along<1>() * c.along<2>() * a.along<0>();
  auto k = s.compose();
  vf_assert((k.shape() == Position<3> {ka, 2, kc}), "shape");
  vf_assert((k.window().front() == Position<3> {1 - ka, -1, -(kc / 2)}), "window");
  for (const auto& p : k.raster().domain()) vf_assert(k.raster()[p] == a[p[0]] * b[p[1]] * c[p[2]], "products of the components");
  Raster<int, 3> in({2, 2, 3});
  symFill(in, "e", -100, 100);
  vf_assert(k * extrapolate(in, 0) == s * in, "same correlation");
  vf_reach("end");
}
// long rasters: one arbitrary element
VF_CASE(long_rasters) {
  Raster<long, 3> in({18, 5, 11});
  for (std::size_t i = 0; i < in.size(); ++i) in.data()[i] = long(i * 29 + 5) % 31 - 15;
  const Position<3> p {vf_pick("x", 0, 1) ? 17 : 8, vf_pick("y", 0, 1) ? 4 : 0, vf_pick("z", 0, 1) ? 5 : 10};
  in[p] = vf_int("e", -1000000000, 1000000000);
  const LineKernel<long> a({1, -2, 3, 5, 7}, 1), b({2, -3, 1}, 2), c({1, 4, -1, 2}, 1);
  vf_assert(c.along<2>() * a.along<0>() * b.along<1>() * in == ref(ref(ref(in, c, 2), a, 0), b, 1), "along three axes");
  vf_reach("end");
}
VF_CASE(default_signs) { // 1
  Raster<int, 2> in({3, 3});
  symFill(in, "e", -100, 100);
  vf_assert((SeparableKernel<int, 0, 1>::prewitt() * in == SeparableKernel<int, 0, 1>::prewitt(1) * in), "prewitt");
  vf_assert((SeparableKernel<int, 1, 0>::sobel() * in == SeparableKernel<int, 1, 0>::sobel(1) * in), "sobel");
  vf_assert((SeparableKernel<int, 0, 1>::scharr() * in == SeparableKernel<int, 0, 1>::scharr(1) * in), "scharr");
  vf_assert((SeparableKernel<int, 0, 1>::laplacian() * in == SeparableKernel<int, 0, 1>::laplacian(1) * in), "laplacian");
  vf_reach("end");
}
VF_CASE(five) { // dimension 5
  Raster<int, 5> in({2, 2, 1, 3, 2});
  symFill(in, "e", -1000, 1000);
  const auto a = line<int>("a", 2, 0), b = line<int>("b", 3, 1);
  vf_assert(a.along<4>() * in == ref(in, a, 4), "along the last axis");
  vf_assert(b.along<3>() * a.along<4>() * a.along<0>() * in == ref(ref(ref(in, a, 0), a, 4), b, 3), "along three axes");
  vf_reach("end");
}
// rasters with one long axis: one element is arbitrary
template <Index I>
static void oneLong(long n) {
  Position<3> shape {3, 3, 3};
  shape[I] = n;
  Raster<long, 3> in(shape);
  for (std::size_t i = 0; i < in.size(); ++i) in.data()[i] = long((i * 37 + 11) % 23) - 7;
  const long at[] = {0, 64 * 9, long(in.size()) - 1};
  const long j = at[vf_pick("at", 0, 2)];
  in.data()[j] = vf_int("e", -1000, 1000);
  const LineKernel<long> a({1, 5, -3, 2}, 2), b({4, -1}, 1), c({2, 3, 7}, 0);
  vf_assert(a.along<0>() * b.along<1>() * c.along<2>() * in == ref(ref(ref(in, a, 0), b, 1), c, 2), "along three axes");
  vf_reach("end");
}
VF_CASE(long0) { oneLong<0>(80); }
VF_CASE(long1) { oneLong<1>(131); }
VF_CASE(long2) { oneLong<2>(260); }
VF_CASE(exact_long) { // 64-bit integers, exactly
  const long M = 1l << 59;
  Raster<long, 2> in({2, 3});
  symFill(in, "e", -M, M);
  const LineKernel<long> a({-1, 1}, 1), b({0, 2, 0}, 1);
  vf_assert(a.along<0>() * b.along<1>() * in == ref(ref(in, a, 0), b, 1), "exact values");
  vf_reach("end");
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_sized) { sized<0, 2>(2); sized<0, 2>(2); }
VF_CASE(again_typed) { typed<double, int, 2>({2, 3}, 1); typed<double, int, 2>({3, 2}, 2); }
VF_CASE(again_filter) { filter2([](int s) { return std::make_pair(SeparableKernel<int, 0, 1>::sobel(s), SeparableKernel<int, 1, 0>::sobel(s)); }, 1, 2); filter2([](int s) { return std::make_pair(SeparableKernel<int, 0, 1>::scharr(s), SeparableKernel<int, 1, 0>::scharr(s)); }, 3, 10); }
VF_CASE(again_shapes) { typed<double, int, 2>({2, 3}, 1); typed<double, int, 2>({4, 2}, 1); typed<double, int, 2>({3, 3}, 2); typed<double, int, 2>({2, 2}, 2); }
