#include "lt.h"
#include <LitlTransforms/Kernel.h>
// NOTE: kernel lengths 1 to 4 and raster lengths 1 to 5 along each axis (kernels larger than the raster included), any origin from -1 to the length (outside of the kernel included), dimension 1 to 3 and variable; kernels of up to 13 elements along each axis on rows of 20 elements, 17 along columns; kernels of up to 260 elements on lines of up to 150, planes of 17x18, spaces up to dimension 4 and whole rasters of 80x4, 4x80, 300x3, 1030, 12x9x5 and dimensions 5 and 6 where one element, one kernel value and the constant are arbitrary and the others fixed; any kernel values within [-1000, 1000] and element values within [-10^6, 10^6] (2^60 in a dedicated case), int, long and double (integers), int elements with double kernels, and double elements with int kernels; constant, nearest-neighbor and periodic extrapolation

template <typename TExtra, typename TK, typename TOut, typename P>
static void check(const TExtra& x, const TK* k, const P& kshape, const P& origin, const TOut& out, Index dim) {
  // the value at each position, from its definition
  P p(x.shape());
  const long size = refSize(x.shape(), dim), ksize = refSize(kshape, dim);
  for (long i = 0; i < size; ++i) {
    long r = i;
    for (Index d = 0; d < dim; ++d) { p[d] = r % x.shape()[d]; r /= x.shape()[d]; }
    typename TOut::value_type sum {};
    for (long j = 0; j < ksize; ++j) {
      P q(p);
      long s = j;
      for (Index d = 0; d < dim; ++d) { q[d] += s % kshape[d] - origin[d]; s /= kshape[d]; }
      sum += k[j] * x[q];
    }
    vf_assert(out.data()[i] == sum, "sum of the weighted neighbors");
  }
}
enum Method { Const, Near, Peri };
template <typename T, typename TK, Index N>
static void correlate(Index dim, long nmax, long kmax, Method m, long omin, long omax, bool fixed = false) {
  const auto shape = pickPos<N>("shape", dim, fixed ? nmax : 1, nmax);
  const auto kshape = pickPos<N>("kshape", dim, 1, kmax);
  const auto origin = pickPos<N>("origin", dim, omin, omax);
  for (Index d = 0; d < dim; ++d) vf_assume(origin[d] <= kshape[d] + (omin < 0 ? 0 : -1));
  Raster<T, N> in(shape);
  symFill(in, "e");
  Raster<TK, N> kr(kshape);
  symFill(kr, "k", -1000, 1000);
  auto kernel = kernelize(kr, origin);
  vf_assert(kernel.shape() == kshape && kernel.window().front() == -origin && kernel.window().back() == kshape - 1 - origin, "window");
  const auto before = in;
  if (m == Const) {
    const auto x = extrapolate(in, T(vf_int("c", -1000, 1000)));
    const auto out = kernel * x;
    vf_assert(out.shape() == shape, "shape");
    check(x, kr.data(), kshape, origin, out, dim);
  } else if (m == Near) {
    const auto x = extrapolate<NearestNeighbor>(in);
    const auto out = kernel * x;
    check(x, kr.data(), kshape, origin, out, dim);
  } else {
    const auto x = extrapolate<Periodic>(in);
    const auto out = kernel * x;
    check(x, kr.data(), kshape, origin, out, dim);
  }
  vf_assert(in == before, "the input is not changed");
  vf_reach("end");
}
VF_CASE(line_constant) { correlate<int, int, 1>(1, 5, 4, Const, -1, 4); }
VF_CASE(line_nearest) { correlate<int, int, 1>(1, 4, 3, Near, -1, 3); }
VF_CASE(line_periodic) { correlate<long, long, 1>(1, 4, 3, Peri, 0, 2); }
VF_CASE(plane_small) { correlate<int, int, 2>(2, 2, 2, Const, -1, 2); }
VF_CASE(plane_inner) { correlate<int, int, 2>(2, 4, 3, Const, 0, 2, true); }
VF_CASE(plane_wide) { correlate<int, int, 2>(2, 3, 3, Near, 1, 1); }
VF_CASE(space) { correlate<int, int, 3>(3, 2, 2, Const, 0, 1); }
VF_CASE(floating) { correlate<double, double, 2>(2, 3, 2, Const, 0, 1); }
VF_CASE(variable) { correlate<int, int, -1>(2, 3, 2, Near, 0, 1); }
VF_CASE(space_inner) { // an inner region of several rows and planes
  const Position<3> shape {3, 4, 4}, kshape {2, 2, 3};
  Raster<int, 3> in(shape);
  symFill(in, "e");
  Raster<int, 3> kr(kshape);
  symFill(kr, "k", -1000, 1000);
  const auto origin = pickPos<3>("origin", 3, 0, 1);
  auto kernel = kernelize(kr, origin);
  const auto x = extrapolate(in, 0);
  const auto out = kernel * x;
  check(x, kr.data(), kshape, origin, out, 3);
  vf_reach("end");
}
VF_CASE(plane_large_thorough) { correlate<int, int, 2>(2, 5, 4, Const, 0, 3); }
VF_CASE(space_large_thorough) { correlate<int, int, 3>(3, 3, 3, Near, 0, 1); }

// default origin, mixed types, output given by the caller
VF_CASE(centered) {
  const auto kshape = pickPos<2>("kshape", 2, 1, 4);
  Raster<int, 2> kr(kshape);
  symFill(kr, "k", -1000, 1000);
  Raster<int, 2> in({4, 3});
  symFill(in, "e");
  auto kernel = kernelize(kr);
  const Position<2> origin {kshape[0] / 2, kshape[1] / 2};
  vf_assert(kernel.window().front() == -origin && kernel.shape() == kshape, "centered window");
  const auto x = extrapolate(in, vf_int("c", -1000, 1000) > 0 ? 1 : -2);
  Raster<long, 2> out({4, 3});
  out.fill(42);
  kernel.correlateTo(x, out);
  Raster<int, 2> same = kernel * x;
  check(x, kr.data(), kshape, origin, same, 2);
  for (long i = 0; i < 12; ++i) vf_assert(out.data()[i] == same.data()[i], "every element of the output is set");
  vf_reach("end");
}
VF_CASE(mixed) {
  Raster<double, 2> kr({3, 2});
  for (auto& k : kr) k = vf_pick("k", -2, 1) * .25;
  vf_assume(kr[{0, 0}] != 0 && kr[{2, 1}] != 0 && kr[{1, 0}] == 0.25 && kr[{1, 1}] == -.5);
  Raster<int, 2> in({3, 3});
  symFill(in, "e", -1000, 1000);
  auto kernel = kernelize(kr, Position<2> {1, 1});
  const auto x = extrapolate(in, 0);
  const Raster<double, 2> out = kernel * x;
  check(x, kr.data(), kr.shape(), Position<2> {1, 1}, out, 2);
  vf_reach("end");
}
// values can be read and changed through the raster view
VF_CASE(values) {
  const auto kshape = pickPos<2>("kshape", 2, 1, 3);
  Raster<int, 2> kr(kshape);
  symFill(kr, "k");
  const auto box = Box<2>(Position<2> {-1, 0}, Position<2> {kshape[0] - 2, kshape[1] - 1});
  auto kernel = kernelize(kr.data(), box);
  vf_assert(kernel.window() == box && kernel.shape() == kshape && kernel.raster().shape() == kshape, "window");
  const int changed = vf_int("new", -5, 5);
  const auto& c = kernel;
  for (long i = 0; i < (long)kr.size(); ++i) vf_assert(c.raster().data()[i] == kr.data()[i], "values");
  kernel.raster().data()[0] = changed;
  vf_assert(c.raster().data()[0] == changed, "changed value");
  Raster<int, 2> one({1, 1});
  one.fill(1);
  vf_assert((kernelize(one) * extrapolate(kr, 0)) == kr, "identity");
  vf_reach("end");
}
// wide kernels
template <typename T, typename TK>
static void wide(const Position<2>& shape, const Position<2>& kshape, const Position<2>& origin) {
  Raster<T, 2> in(shape);
  symFill(in, "e", -1000, 1000);
  Raster<TK, 2> kr(kshape);
  symFill(kr, "k", -1000, 1000);
  auto kernel = kernelize(kr, origin);
  const auto x = extrapolate(in, T(3));
  const auto out = kernel * x;
  check(x, kr.data(), kshape, origin, out, 2);
  vf_reach("end");
}
VF_CASE(wide_rows) {
  const long n = vf_pick("n", 5, 13);
  const long o = vf_pick("o", 0, 2);
  wide<int, int>({20, 2}, {n, 1}, {o == 0 ? 0 : o == 1 ? n / 2 : n - 1, 0});
}
VF_CASE(wide_columns) {
  const long n = vf_pick("n", 4, 17);
  wide<int, int>({2, 20}, {2, n}, {1, n / 2});
}
VF_CASE(wide_planes) {
  const long n = vf_pick("n", 4, 6);
  wide<long, long>({9, 8}, {n, 10 - n}, {n / 2, 1});
}
VF_CASE(wide_over) { // larger than the raster
  const long n = vf_pick("n", 6, 9);
  wide<int, int>({3, 5}, {n, n - 3}, {n / 2, 2});
}
VF_CASE(wide_floating) {
  const long n = vf_pick("n", 8, 10);
  wide<double, double>({12, 1}, {n, 1}, {n / 2, 0});
}
// exact sums of large integers
VF_CASE(large_values) {
  const auto shape = pickPos<2>("shape", 2, 2, 4);
  Raster<long, 2> in(shape);
  symFill(in, "e", -1000000000000l, 1000000000000l);
  std::vector<long> k(6);
  for (auto& e : k) e = vf_int("k", -1000, 1000);
  auto kernel = kernelize(k.data(), Box<2>({-1, 0}, {1, 1}));
  const auto x = extrapolate<NearestNeighbor>(in);
  const Raster<long, 2> out = kernel * x;
  check(x, k.data(), Position<2> {3, 2}, Position<2> {1, 0}, out, 2);
  vf_reach("end");
}
// values of any position, at the borders and inside, of large rasters: one element and one kernel value are arbitrary
template <typename T, Index N>
static void pulse(const Position<N>& shape, const Position<N>& kshape, const Position<N>& origin) {
  const Index dim = shape.size();
  Raster<T, N> in(shape);
  for (std::size_t i = 0; i < in.size(); ++i) in.data()[i] = T((i * 37 + 11) % 23) - 7;
  Raster<T, N> kr(kshape);
  for (std::size_t i = 0; i < kr.size(); ++i) kr.data()[i] = T((i * 13 + 5) % 11) - 5;
  const std::size_t tap = vf_pick("tap", 0, 1) ? kr.size() - 1 : 0;
  kr.data()[tap] = T(vf_int("k", -1000, 1000));
  const Index axis = vf_pick("axis", 0, dim - 1);
  Position<N> p(dim);
  for (Index d = 0; d < dim; ++d) p[d] = shape[d] / 2;
  p[axis] = vf_pick("p", 0, shape[axis] - 1);
  in[p] = T(vf_int("e", -1000000, 1000000));
  auto kernel = kernelize(kr, origin);
  const auto x = extrapolate(in, T(vf_int("c", -1000, 1000)));
  const auto out = kernel * x;
  // all the elements which depend on it, and those of the line
  for (long i = 0; i < (long)kr.size() + shape[axis]; ++i) {
    Position<N> q(p);
    long s = i;
    if (i < (long)kr.size()) for (Index d = 0; d < dim; ++d) { q[d] -= s % kshape[d] - origin[d]; s /= kshape[d]; }
    else q[axis] = i - kr.size();
    bool inside = true;
    for (Index d = 0; d < dim; ++d) inside = inside && q[d] >= 0 && q[d] < shape[d];
    if (!inside) continue;
    T sum {};
    for (long j = 0; j < (long)kr.size(); ++j) {
      Position<N> r(q);
      long t = j;
      for (Index d = 0; d < dim; ++d) { r[d] += t % kshape[d] - origin[d]; t /= kshape[d]; }
      bool in2 = true;
      for (Index d = 0; d < dim; ++d) in2 = in2 && r[d] >= 0 && r[d] < shape[d];
      sum += kr.data()[j] * (in2 ? in.data()[refIndex(shape, r, dim)] : x.operator[](Position<N>(-Position<N>(shape))));
    }
    vf_assert(out[q] == sum, "sum of the weighted neighbors");
  }
  vf_reach("end");
}
VF_CASE(pulse_line) { pulse<int, 1>({70}, {9}, {4}); }
VF_CASE(pulse_long_kernel) { pulse<long, 1>({40}, {33}, {16}); }
VF_CASE(pulse_plane) { pulse<int, 2>({17, 18}, {3, 3}, {1, 1}); }
VF_CASE(pulse_corner) { pulse<int, 2>({9, 12}, {4, 3}, {0, 2}); }
VF_CASE(pulse_space) { pulse<int, 3>({6, 5, 7}, {3, 2, 3}, {1, 0, 2}); }
VF_CASE(pulse_four) { pulse<int, 4>({3, 4, 3, 4}, {2, 3, 1, 2}, {1, 1, 0, 0}); }
VF_CASE(pulse_four3) { pulse<long, 4>({4, 4, 4, 5}, {2, 2, 3, 3}, {0, 1, 1, 1}); }
VF_CASE(pulse_variable) { pulse<int, -1>(Position<-1>({4, 5, 6}), Position<-1>({3, 1, 3}), Position<-1>({1, 0, 1})); }
VF_CASE(pulse_variable4) { pulse<int, -1>(Position<-1>({4, 3, 3, 4}), Position<-1>({2, 1, 2, 3}), Position<-1>({1, 0, 1, 1})); }
// narrow and wide types
template <typename T, typename TK>
static void ranged(long lo, long hi, long klo, long khi) {
  Raster<T, 2> in({3, 2});
  for (std::size_t i = 0; i < in.size(); ++i) in.data()[i] = T(vf_int("e", lo, hi));
  Raster<TK, 2> kr({2, 2});
  for (std::size_t i = 0; i < kr.size(); ++i) kr.data()[i] = TK(vf_int("k", klo, khi));
  auto kernel = kernelize(kr, Position<2> {1, 0});
  const auto x = extrapolate<NearestNeighbor>(in);
  const Raster<TK, 2> out = kernel * x;
  for (long j = 0; j < 2; ++j)
    for (long i = 0; i < 3; ++i) {
      TK sum {};
      for (long l = 0; l < 2; ++l)
        for (long k = 0; k < 2; ++k) {
          const long a = i + k - 1 < 0 ? 0 : i + k - 1, b = j + l > 1 ? 1 : j + l;
          sum += kr.data()[k + 2 * l] * TK(in.data()[a + 3 * b]);
        }
      vf_assert(out.data()[i + 3 * j] == sum, "computed with the type of the kernel");
    }
  vf_reach("end");
}
VF_CASE(ranged_uchar) { ranged<unsigned char, int>(0, 255, -1000, 1000); }
VF_CASE(ranged_short) { ranged<short, long>(-32768, 32767, -1000000, 1000000); }
VF_CASE(ranged_uint) { ranged<unsigned int, long>(0, 4294967295l, -1000, 1000); }
VF_CASE(ranged_double) { ranged<int, double>(-2147483648l, 2147483647l, -1000, 1000); }
VF_CASE(ranged_float) { ranged<unsigned char, float>(0, 255, -1000, 1000); }
// kernels of many elements
VF_CASE(pulse_9x9) { pulse<int, 2>({12, 11}, {9, 9}, {4, 4}); }
VF_CASE(pulse_13x11) { pulse<long, 2>({14, 15}, {13, 11}, {0, 10}); }
VF_CASE(pulse_5x5x5) { pulse<int, 3>({6, 6, 6}, {5, 5, 5}, {2, 2, 2}); }
VF_CASE(pulse_130) { pulse<int, 1>({150}, {130}, {65}); }
VF_CASE(pulse_260) { pulse<int, 1>({12}, {260}, {128}); }
VF_CASE(pulse_rows_65) { pulse<int, 2>({80, 2}, {65, 1}, {32, 0}); }
VF_CASE(pulse_four81) { pulse<int, 4>({4, 3, 4, 3}, {3, 3, 3, 3}, {1, 1, 1, 1}); }

// an integral kernel on floating point elements whose products are integral
template <Index N>
static void integralKernel(Position<N> shape, Position<N> kshape, Position<N> origin, Method m) {
  const Index dim = shape.size();
  Raster<double, N> in(shape);
  for (auto& e : in) e = vf_dyadic("e", -1000, 1000, 1);
  Raster<int, N> kr(kshape);
  for (auto& e : kr) e = 2 * vf_int("k", -100, 100);
  auto kernel = kernelize(kr, origin);
  if (m == Near) {
    const auto x = extrapolate<NearestNeighbor>(in);
    check(x, kr.data(), kshape, origin, kernel * x, dim);
  } else {
    const auto x = extrapolate(in, vf_dyadic("c", -1000, 1000, 1));
    check(x, kr.data(), kshape, origin, kernel * x, dim);
  }
  vf_reach("end");
}
VF_CASE(integral_line) { integralKernel<1>({3}, {3}, {1}, Near); }
VF_CASE(integral_line_constant) { integralKernel<1>({3}, {2}, {1}, Const); }
VF_CASE(integral_plane) { integralKernel<2>({2, 3}, {1, 2}, {0, 0}, Near); }
VF_CASE(integral_small) { integralKernel<2>({2, 1}, {3, 1}, {2, 0}, Const); }
// every element of broad rasters and of rasters of high dimensions: one element and one kernel value are arbitrary
template <typename T, Index N>
static void broad(const Position<N>& shape, const Position<N>& kshape, const Position<N>& origin) {
  const Index dim = shape.size();
  const long size = refSize(shape, dim), ksize = refSize(kshape, dim);
  Raster<T, N> in(shape), kr(kshape);
  for (long i = 0; i < size; ++i) in.data()[i] = T((i * 37 + 11) % 23) - 7;
  for (long i = 0; i < ksize; ++i) kr.data()[i] = T((i * 13 + 5) % 11) - 5;
  const long at[] = {0, size / 2, size - 1};
  kr.data()[ksize / 2] = T(vf_int("k", -1000, 1000));
  const long j = at[vf_pick("at", 0, 2)];
  in.data()[j] = T(vf_int("e", -1000000, 1000000));
  const T c = T(vf_int("c", -1000, 1000));
  const auto out = kernelize(kr, origin) * extrapolate(in, c);
  vf_assert(out.shape() == shape, "shape of the input");
  Position<N> q(dim), r(dim);
  q.fill(0);
  for (long i = 0; i < size; ++i) {
    T sum {};
    for (long j = 0; j < ksize; ++j) {
      long t = j;
      bool inside = true;
      for (Index d = 0; d < dim; ++d) { r[d] = q[d] + t % kshape[d] - origin[d]; t /= kshape[d]; inside = inside && r[d] >= 0 && r[d] < shape[d]; }
      sum += kr.data()[j] * (inside ? in.data()[refIndex(shape, r, dim)] : c);
    }
    vf_assert(out.data()[i] == sum, "sum of the weighted neighbors");
    for (Index d = 0; d < dim && ++q[d] == shape[d]; ++d) q[d] = 0;
  }
  vf_reach("end");
}
VF_CASE(broad_rows) { broad<int, 2>({80, 4}, {3, 3}, {1, 1}); }
VF_CASE(broad_columns) { broad<int, 2>({4, 80}, {2, 3}, {0, 1}); }
VF_CASE(broad_300) { broad<int, 2>({300, 3}, {3, 2}, {1, 0}); }
VF_CASE(broad_1030) { broad<int, 1>({1030}, {3}, {1}); }
VF_CASE(broad_space) { broad<int, 3>({12, 9, 5}, {2, 3, 2}, {1, 1, 0}); }
VF_CASE(broad_five) { broad<long, 5>({3, 2, 3, 2, 3}, {2, 1, 2, 2, 2}, {1, 0, 0, 1, 1}); }
VF_CASE(broad_five_margins) { broad<int, 5>({3, 3, 3, 3, 3}, {3, 1, 3, 2, 3}, {1, 0, 1, 1, 1}); }
VF_CASE(broad_six) { broad<int, 6>({2, 2, 2, 2, 2, 3}, {2, 1, 1, 2, 1, 2}, {0, 0, 0, 1, 0, 1}); }
VF_CASE(broad_variable5) { broad<int, -1>(Position<-1>({2, 3, 2, 2, 3}), Position<-1>({1, 2, 1, 2, 2}), Position<-1>({0, 1, 0, 1, 0})); }
// 64-bit integers, exactly
VF_CASE(exact_long) {
  const long M = 1l << 60;
  Raster<long, 2> in({3, 3});
  symFill(in, "e", -M, M);
  const int kind = vf_pick("kernel", 0, 2);
  Raster<long, 2> k({3, 1});
  k.fill(0);
  k.data()[1] = kind == 0 ? 1 : kind == 1 ? -1 : 2;
  if (kind == 1) k.data()[2] = 1;
  const auto out = kernelize(k, Position<2> {1, 0}) * extrapolate<NearestNeighbor>(in);
  for (long j = 0; j < 3; ++j)
    for (long i = 0; i < 3; ++i) {
      const long e = in[{i, j}], n = in[{i < 2 ? i + 1 : 2, j}];
      vf_assert((out[{i, j}] == (kind == 0 ? e : kind == 1 ? n - e : 2 * e)), "exact sum");
    }
  vf_reach("end");
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_line) { broad<int, 1>({6}, {3}, {1}); broad<int, 1>({4}, {5}, {1}); broad<int, 1>({9}, {1}, {0}); broad<int, 1>({9}, {70}, {35}); }
VF_CASE(again_plane) { broad<int, 2>({6, 4}, {3, 3}, {1, 1}); broad<int, 2>({5, 6}, {3, 3}, {1, 1}); broad<int, 2>({6, 5}, {5, 2}, {0, 1}); broad<int, 2>({9, 3}, {3, 3}, {0, 0}); broad<int, 2>({12, 12}, {11, 9}, {5, 5}); }
VF_CASE(again_variable) { broad<int, -1>(Position<-1>({5, 4}), Position<-1>({3, 3}), Position<-1>({1, 1})); broad<int, -1>(Position<-1>({4, 3, 3}), Position<-1>({2, 1, 2}), Position<-1>({1, 0, 1})); broad<int, -1>(Position<-1>({7}), Position<-1>({3}), Position<-1>({2})); }
VF_CASE(again_small) { correlate<int, int, 1>(1, 3, 2, Const, 0, 2); correlate<int, int, 1>(1, 2, 3, Const, 0, 2); }
