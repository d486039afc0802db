#include "lt.h"
#include <LitlContainer/Sequence.h>
#include <LitlTransforms/LineKernel.h>
#include <LitlTransforms/Convolution.h>
// NOTE: kernels of 1 to 5 elements with the origin at any of them (longer than the line included), lines of 1 to 6 elements, samples with any front and back, steps 1 to 4, strides 1 to 3 in input and output; axes 0 to 2 of rasters up to 3x2x2, rasters up to dimension 5 and of variable dimension; planes up to 5x4 with any bounding box and steps 1 to 3; lines of 130 elements and kernels of 65, planes of 20x17, where one element and one kernel value are arbitrary and the others fixed, steps up to 40; any kernel and data values within [-1000, 1000] (2^60 in dedicated cases), int, long and double (integers)

static long ref(const std::vector<int>& k, long origin, const std::vector<int>& d, long n, long stride, long i) {
  long s = 0;
  for (long j = 0; j < (long)k.size(); ++j) {
    const long m = i + j - origin;
    if (m >= 0 && m < n) s += long(k[j]) * d[m * stride];
  }
  return s;
}
static std::vector<int> values(const char* name, long n) {
  std::vector<int> v(n);
  for (auto& e : v) e = vf_int(name, -1000, 1000);
  return v;
}
template <typename TKernel, typename F>
static void line(long kmax, long nmax, long smax, F&& apply) {
  const long ks = vf_pick("ks", 1, kmax), origin = vf_pick("origin", 0, ks - 1), n = vf_pick("n", 1, nmax);
  const long front = vf_pick("front", 0, n - 1), back = vf_pick("back", front, n - 1), step = vf_pick("step", 1, smax);
  const auto k = values("k", ks);
  const auto d = values("d", n);
  const TKernel kernel(k, origin);
  const long count = (back - front) / step + 1;
  std::vector<long> out(count + 2, -5);
  const DataSamples<const int> in {d.data(), std::size_t(n), {front, back == n - 1 ? Limits<Index>::inf() : back, step}};
  DataSamples<long> samples {out.data() + 1, std::size_t(count)};
  apply(kernel, in, samples);
  for (long i = 0; i < count; ++i) vf_assert(out[1 + i] == ref(k, origin, d, n, 1, front + i * step), "correlation cropped at the ends of the line");
  vf_assert(out[0] == -5 && out[count + 1] == -5, "nothing is written around");
  vf_reach("end");
}
VF_CASE(line_kernel) { line<LineKernel<int>>(4, 5, 4, [](auto& k, auto& in, auto& out) { k.correlate(in, out); }); }
VF_CASE(kernel1d) { line<Kernel1d<int>>(4, 5, 4, [](auto& k, auto& in, auto& out) { k.sparseCorrelate1dTo(in, out); }); }
VF_CASE(line_kernel_thorough) { line<LineKernel<int>>(6, 7, 5, [](auto& k, auto& in, auto& out) { k.correlate(in, out); }); }
VF_CASE(kernel1d_thorough) { line<Kernel1d<int>>(6, 7, 5, [](auto& k, auto& in, auto& out) { k.sparseCorrelate1dTo(in, out); }); }

// strides in input and output
template <typename TKernel, typename F>
static void strided(F&& apply) {
  const long stride = vf_pick("stride", 1, 3), ostride = vf_pick("ostride", 1, 3), ostep = vf_pick("ostep", 1, 2), origin = vf_pick("origin", 0, 2);
  const long n = 4, front = vf_pick("front", 0, 2), step = vf_pick("step", 1, 2), count = (n - 1 - front) / step + 1;
  const auto k = values("k", 3);
  const auto d = values("d", n * stride);
  const TKernel kernel(k, origin);
  std::vector<long> out(count * ostride * ostep, -5);
  const DataSamples<const int> in {d.data(), std::size_t(n), {front, n - 1, step}, stride};
  DataSamples<long> samples {out.data(), std::size_t(count * ostep), {0, Limits<Index>::inf(), ostep}, ostride};
  apply(kernel, in, samples);
  for (long i = 0; i < (long)out.size(); ++i) {
    const long j = i / (ostride * ostep);
    vf_assert(out[i] == (i % (ostride * ostep) ? -5 : ref(k, origin, d, n, stride, front + j * step)), "strided correlation");
  }
  vf_reach("end");
}
VF_CASE(strided_line_kernel) { strided<LineKernel<int>>([](auto& k, auto& in, auto& out) { k.correlate(in, out); }); }
VF_CASE(strided_kernel1d) { strided<Kernel1d<int>>([](auto& k, auto& in, auto& out) { k.sparseCorrelate1dTo(in, out); }); }

// along the axis of a raster
template <Index I, Index N>
static void along(Index dim, long ks) {
  const auto shape = pickPos<N>("shape", dim, 1, dim == 2 ? 3 : 2);
  const long origin = vf_pick("origin", 0, ks - 1);
  const auto k = values("k", ks);
  Raster<int, N> in(shape);
  symFill(in, "e", -1000, 1000);
  const auto before = in;
  const Kernel1d<int> kernel(k, origin);
  vf_assert(kernel.backward() == origin && kernel.forward() == ks - 1 - origin && *kernel.originData() == k[origin], "properties");
  const auto out = kernel.template correlateAlong<I, long>(in);
  vf_assert(out.shape() == shape && in == before, "shape");
  long stride = 1;
  for (Index d = 0; d < I; ++d) stride *= shape[d];
  for (long i = 0; i < (long)in.size(); ++i) {
    const long x = i / stride % shape[I];
    long s = 0;
    for (long j = 0; j < ks; ++j)
      if (x + j - origin >= 0 && x + j - origin < shape[I]) s += long(k[j]) * in.data()[i + (j - origin) * stride];
    vf_assert(out.data()[i] == s, "correlation along an axis");
  }
  vf_reach("end");
}
VF_CASE(along0) { along<0, 2>(2, 3); }
VF_CASE(along1) { along<1, 2>(2, 3); }
VF_CASE(along2) { along<2, 3>(3, 2); }
VF_CASE(along_middle) { along<1, 3>(3, 3); }

// along the two axes of a plane
static void plane(long w, long h, long ks, long smax, bool all) {
  const long origin = vf_pick("origin", 0, ks - 1);
  const auto k = values("k", ks);
  Raster<int, 2> in({w, h});
  symFill(in, "e", -1000, 1000);
  Kernel1d<int> kernel(k, origin);
  Position<2> front {0, 0}, back {w - 1, h - 1}, step {1, 1};
  Raster<int, 2> out;
  if (all) {
    out = Raster<int, 2>({w, h});
    kernel.correlate2dTo(in, out);
  } else {
    front = pickPos<2>("front", 2, 0, w - 1);
    back = pickPos<2>("back", 2, 0, w - 1);
    step = pickPos<2>("step", 2, 1, smax);
    vf_assume(front[0] <= back[0] && front[1] <= back[1] && back[1] < h);
    out = Raster<int, 2>({(back[0] - front[0]) / step[0] + 1, (back[1] - front[1]) / step[1] + 1});
    kernel.sparseCorrelate2dTo(in, {{front, back}, step}, out);
  }
  for (const auto& p : out.domain()) {
    long s = 0;
    for (long m = 0; m < ks; ++m)
      for (long l = 0; l < ks; ++l) {
        const long x = front[0] + p[0] * step[0] + l - origin, y = front[1] + p[1] * step[1] + m - origin;
        if (x >= 0 && x < w && y >= 0 && y < h) s += long(k[l]) * k[m] * in.data()[x + y * w];
      }
    vf_assert(out[p] == (int)s, "separable correlation of a plane");
  }
  vf_reach("end");
}
VF_CASE(plane_all) { const long w = vf_pick("w", 1, 3); const long h = vf_pick("h", 1, 3); const long ks = vf_pick("ks", 1, 3); plane(w, h, ks, 1, true); }
VF_CASE(plane_sparse) { plane(4, 3, 3, 2, false); }
VF_CASE(plane_sparse_thorough) { plane(5, 4, 4, 3, false); }

// construction
VF_CASE(kernels) {
  const long ks = vf_pick("ks", 1, 5), origin = vf_pick("origin", 0, ks - 1);
  const auto k = values("k", ks);
  const LineKernel<int> kernel(k, origin);
  const auto w = kernel.window();
  vf_assert((long)kernel.size() == ks && kernel.origin() == origin && kernel.originData() == kernel.data() + origin, "properties");
  vf_assert(w.front() == -origin && w.back() == ks - 1 - origin && (long)w.size() == ks, "window");
  const LineKernel<int> centered(k);
  vf_assert(centered.origin() == ks / 2, "centered by default");
  const auto fromWindow = kernelize(k.data(), Segment(-origin, ks - 1 - origin));
  vf_assert(fromWindow.origin() == origin && fromWindow == kernel, "from a window");
  const Sequence<int> seq(k);
  const auto fromSeq = kernelize(seq, origin);
  vf_assert(fromSeq.origin() == origin && fromSeq == kernel && kernelize(seq).origin() == ks / 2 && kernelize(seq) == kernel, "from a sequence");
  vf_reach("end");
}
VF_CASE(segments) {
  const long f = vf_int("f", -1000000, 1000000);
  const long n = vf_int("n", 0, 1000000);
  const auto s = Segment::fromSize(f, n);
  vf_assert(s.front() == f && s.back() == f + n - 1 && (long)s.size() == n, "segment of given size");
  const long b = vf_int("b", -1000000, 1000000);
  vf_assume(b >= f);
  const Segment t(f, b);
  vf_assert(t.front() == f && t.back() == b && (long)t.size() == b - f + 1, "segment of given bounds");
  vf_reach("end");
}
// windows which do not contain the origin
VF_CASE(outside) {
  const long ks = vf_pick("ks", 1, 3);
  const long first = vf_pick("first", -6, 5);
  const auto k = values("k", ks);
  const long n = vf_pick("n", 1, 5);
  const auto d = values("d", n);
  const auto kernel = kernelize(k.data(), Segment(first, first + ks - 1));
  vf_assert(kernel.window().front() == first && kernel.window().back() == first + ks - 1 && kernel.origin() == -first, "window");
  const long step = vf_pick("step", 1, 2);
  const long front = vf_pick("front", 0, n > 1 ? 1 : 0);
  const long count = (n - 1 - front) / step + 1;
  std::vector<long> out(count + 2, -5);
  const DataSamples<const int> in {d.data(), std::size_t(n), {front, n - 1, step}};
  DataSamples<long> samples {out.data() + 1, std::size_t(count)};
  kernel.correlate(in, samples);
  for (long i = 0; i < count; ++i) vf_assert(out[1 + i] == ref(k, -first, d, n, 1, front + i * step), "correlation cropped at the ends of the line");
  vf_assert(out[0] == -5 && out[count + 1] == -5, "nothing is written around");
  vf_reach("end");
}
// long lines and kernels: one arbitrary sample and one arbitrary kernel value
template <typename T, typename TKernel, typename F>
static void longLine(long n, long ks, F&& apply) {
  const long origin = (const long[]) {0, ks / 2, ks - 1}[vf_pick("origin", 0, 2)];
  const long step = (const long[]) {1, 3, 7, 40}[vf_pick("step", 0, 3)];
  const long front = (const long[]) {0, 1, n / 2, n - 2}[vf_pick("front", 0, 3)];
  const long back = vf_pick("back", 0, 1) ? n - 1 : front + (n - 1 - front) / 2;
  const long stride = vf_pick("stride", 1, 2);
  std::vector<T> k(ks);
  for (long i = 0; i < ks; ++i) k[i] = T((i * 7 + 3) % 11) - 5;
  k[origin] = T(vf_int("k", -1000, 1000));
  std::vector<T> d(n * stride);
  for (long i = 0; i < n * stride; ++i) d[i] = T((i * 29 + 5) % 31) - 15;
  const long at = front + ((back - front) / step) / 2 * step;
  d[at * stride] = T(vf_int("d", -1000000000, 1000000000));
  const TKernel kernel(k, origin);
  const long count = (back - front) / step + 1;
  std::vector<T> out(count + 2, T(-5));
  const DataSamples<const T> in {d.data(), std::size_t(n), {front, back, step}, stride};
  DataSamples<T> samples {out.data() + 1, std::size_t(count)};
  apply(kernel, in, samples);
  for (long i = 0; i < count; ++i) {
    T s = 0;
    for (long j = 0; j < ks; ++j) {
      const long m = front + i * step + j - origin;
      if (m >= 0 && m < n) s += k[j] * d[m * stride];
    }
    vf_assert(out[1 + i] == s, "correlation cropped at the ends of the line");
  }
  vf_assert(out[0] == -5 && out[count + 1] == -5, "nothing is written around");
  vf_reach("end");
}
VF_CASE(long_line_kernel) { longLine<long, LineKernel<long>>(130, 9, [](auto& k, auto& in, auto& out) { k.correlate(in, out); }); }
VF_CASE(long_kernel1d) { longLine<long, Kernel1d<long>>(130, 9, [](auto& k, auto& in, auto& out) { k.sparseCorrelate1dTo(in, out); }); }
VF_CASE(wide_line_kernel) { longLine<long, LineKernel<long>>(40, 65, [](auto& k, auto& in, auto& out) { k.correlate(in, out); }); }
VF_CASE(wide_kernel1d) { longLine<long, Kernel1d<long>>(40, 65, [](auto& k, auto& in, auto& out) { k.sparseCorrelate1dTo(in, out); }); }
VF_CASE(double_line_kernel) { longLine<double, LineKernel<double>>(40, 12, [](auto& k, auto& in, auto& out) { k.correlate(in, out); }); }
VF_CASE(double_kernel1d) { longLine<double, Kernel1d<double>>(40, 12, [](auto& k, auto& in, auto& out) { k.sparseCorrelate1dTo(in, out); }); }
VF_CASE(float_line_kernel) { // multiples of 1/4, whose sums are exact
  const std::vector<float> k {.25f, -1.5f, 2};
  const LineKernel<float> kernel(k, 1);
  std::vector<float> d(5), out(5);
  for (auto& e : d) e = vf_int("d", -1000, 1000) / 4.f;
  const DataSamples<const float> in {d.data(), 5};
  DataSamples<float> samples {out.data(), 5};
  kernel.correlate(in, samples);
  for (long i = 0; i < 5; ++i) vf_assert(out[i] == (i > 0 ? .25f * d[i - 1] : 0) - 1.5f * d[i] + (i < 4 ? 2 * d[i + 1] : 0), "real values");
  vf_reach("end");
}
VF_CASE(short_output) { // int data and kernel, output of another type
  std::vector<int> k(3), d(4);
  for (auto& e : k) e = vf_int("k", -50, 50);
  for (auto& e : d) e = vf_int("d", -200, 200);
  const LineKernel<int> kernel(k, 1);
  std::vector<short> out(4);
  const DataSamples<const int> in {d.data(), 4};
  DataSamples<short> samples {out.data(), 4};
  kernel.correlate(in, samples);
  for (long i = 0; i < 4; ++i) vf_assert(out[i] == ref(k, 1, d, 4, 1, i), "the output may be of another type");
  vf_reach("end");
}
// along each axis of a raster of dimension 4 or variable
template <Index I, Index N>
static void alongMany(const Position<N>& shape) {
  const auto k = values("k", 3);
  const long origin = vf_pick("origin", 0, 2);
  Raster<int, N> in(shape);
  symFill(in, "e", -1000, 1000);
  const Kernel1d<int> kernel(k, origin);
  const auto out = kernel.template correlateAlong<I, long>(in);
  long stride = 1;
  for (Index d = 0; d < I; ++d) stride *= shape[d];
  for (long i = 0; i < (long)in.size(); ++i) {
    const long x = i / stride % shape[I];
    long s = 0;
    for (long j = 0; j < 3; ++j)
      if (x + j - origin >= 0 && x + j - origin < shape[I]) s += long(k[j]) * in.data()[i + (j - origin) * stride];
    vf_assert(out.data()[i] == s, "correlation along an axis");
  }
  vf_reach("end");
}
VF_CASE(along4_0) { alongMany<0, 4>({4, 2, 3, 2}); }
VF_CASE(along4_1) { alongMany<1, 4>({2, 4, 3, 2}); }
VF_CASE(along4_2) { alongMany<2, 4>({3, 2, 4, 2}); }
VF_CASE(along4_3) { alongMany<3, 4>({2, 3, 2, 5}); }
VF_CASE(alongV_1) { alongMany<1, -1>(Position<-1>({3, 4, 2})); }
VF_CASE(alongV_3) { alongMany<3, -1>(Position<-1>({2, 2, 3, 3})); }
VF_CASE(plane_long) { // large planes: one arbitrary element
  const long w = 20, h = 17;
  Raster<long, 2> in({w, h});
  for (long i = 0; i < w * h; ++i) in.data()[i] = (i * 29 + 5) % 31 - 15;
  const Position<2> p {vf_pick("x", 0, 1) ? 0 : 10, vf_pick("y", 0, 1) ? 16 : 7};
  in[p] = vf_int("e", -1000000, 1000000);
  std::vector<long> k {1, -2, 3, 5, -1};
  Kernel1d<long> kernel(k, 2);
  const long sx = vf_pick("sx", 1, 3);
  const long sy = vf_pick("sy", 1, 3);
  const Box<2> box({vf_pick("fx", 0, 1) ? 3 : 0, 2}, {19, 16});
  Raster<long, 2> out({(19 - box.front()[0]) / sx + 1, 14 / sy + 1});
  kernel.sparseCorrelate2dTo(in, {box, {sx, sy}}, out);
  for (const auto& q : out.domain()) {
    long s = 0;
    for (long m = 0; m < 5; ++m)
      for (long l = 0; l < 5; ++l) {
        const long x = box.front()[0] + q[0] * sx + l - 2, y = 2 + q[1] * sy + m - 2;
        if (x >= 0 && x < w && y >= 0 && y < h) s += k[l] * k[m] * in[{x, y}];
      }
    vf_assert(out[q] == s, "separable correlation of a plane");
  }
  vf_reach("end");
}
VF_CASE(huge_line_kernel) { longLine<long, LineKernel<long>>(pickLarge("n", 4097), 5, [](auto& k, auto& in, auto& out) { k.correlate(in, out); }); }
VF_CASE(huge_kernel1d) { longLine<long, Kernel1d<long>>(pickLarge("n", 4097), 5, [](auto& k, auto& in, auto& out) { k.sparseCorrelate1dTo(in, out); }); }
VF_CASE(outside_kernel1d) { // no overlap at all for some elements
  const long ks = vf_pick("ks", 1, 3), origin = vf_pick("origin", -4, 6);
  const auto k = values("k", ks);
  const long n = vf_pick("n", 1, 4);
  const auto d = values("d", n);
  const Kernel1d<int> kernel(k, origin);
  const long step = vf_pick("step", 1, 2);
  const long front = vf_pick("front", 0, n > 1 ? 1 : 0);
  const long count = (n - 1 - front) / step + 1;
  std::vector<long> out(count + 2, -5);
  const DataSamples<const int> in {d.data(), std::size_t(n), {front, n - 1, step}};
  DataSamples<long> samples {out.data() + 1, std::size_t(count)};
  kernel.sparseCorrelate1dTo(in, samples);
  for (long i = 0; i < count; ++i) vf_assert(out[1 + i] == ref(k, origin, d, n, 1, front + i * step), "correlation cropped at the ends of the line");
  vf_assert(out[0] == -5 && out[count + 1] == -5, "nothing is written around");
  vf_reach("end");
}
VF_CASE(along5_2) { alongMany<2, 5>({2, 2, 3, 2, 2}); }
VF_CASE(along5_4) { alongMany<4, 5>({2, 1, 2, 2, 4}); }
VF_CASE(alongV_4) { alongMany<4, -1>(Position<-1>({2, 2, 1, 2, 3})); }
// 64-bit integers, exactly
template <typename TKernel, typename F>
static void exactLong(F&& apply) {
  const long M = 1l << 60;
  std::vector<long> d(4), out(4, -5);
  for (auto& e : d) e = vf_int("d", -M, M);
  const int kind = vf_pick("kernel", 0, 2);
  const TKernel kernel(kind == 0 ? std::vector<long> {0, 1, 0} : kind == 1 ? std::vector<long> {-1, 1, 0} : std::vector<long> {0, 2, 0}, 1);
  const DataSamples<const long> in {d.data(), 4};
  DataSamples<long> samples {out.data(), 4};
  apply(kernel, in, samples);
  for (long i = 0; i < 4; ++i) vf_assert(out[i] == (kind == 0 ? d[i] : kind == 1 ? (i ? d[i] - d[i - 1] : d[i]) : 2 * d[i]), "exact sum");
  vf_reach("end");
}
VF_CASE(exact_line_kernel) { exactLong<LineKernel<long>>([](auto& k, auto& in, auto& out) { k.correlate(in, out); }); }
VF_CASE(exact_kernel1d) { exactLong<Kernel1d<long>>([](auto& k, auto& in, auto& out) { k.sparseCorrelate1dTo(in, out); }); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_along) { along<0, 2>(2, 2); along<0, 2>(2, 2); }
VF_CASE(again_many) { alongMany<1, 4>({2, 4, 3, 2}); alongMany<1, 4>({3, 3, 2, 2}); }
