T="LitlTransforms/LitlTransforms/"; R="LitlRaster/LitlRaster/"; CO="LitlContainer/LitlContainer/"; TY="LitlTypes/LitlTypes/"; U="LitlRun/LitlRun/"
bug("c15_empty_step","C15",[(R+"Sampling.h","    return std::max(T {0}, (back - front + step) / step);","    return std::max(T {0}, T {1} + (back - front) / step);")],
"""#include <LitlRaster/Sampling.h>
using namespace Litl; int main() { IndexSampling s {5, 4, 3}; CHECK(s.size() == 0); IndexSampling t {5, 3, 3}; CHECK(t.size() == 0); IndexSampling u {5, 9, 3}; CHECK(u.size() == 2); }""",
"an empty sampling (back just before front) of step greater than 1","the sampling has one sample instead of none")
bug("c15_iterator_back","C15",[(R+"Sampling.h","    Iterator& operator-=(Index n) {\n      *this += -n;","    Iterator& operator-=(Index n) {\n      m_it -= m_samples.stride() * n;")],
"""#include <LitlRaster/Sampling.h>
using namespace Litl; int main() { int a[20]; for (int i = 0; i < 20; ++i) a[i] = i; DataSamples<int> s(a, 10, {1, 9, 2}, 2); auto it = s.begin(); it += 3; CHECK(*it == 14); it -= 1; CHECK(*it == 10); }""",
"moving an iterator of a sampling with a step backward","the iterator moves by one index instead of one sample")
bug("c15_axis_back","C15",[(R+"Sampling.h","    Iterator& operator-=(T n) {\n      return *this += -n;","    Iterator& operator-=(T n) {\n      m_current -= n;\n      m_index -= n;\n      return *this;")],
"""#include <LitlRaster/Sampling.h>
using namespace Litl; int main() { IndexSampling s {1, 9, 2}; auto it = s.begin(); it += 3; CHECK(*it == 7); it -= 2; CHECK(*it == 3); }""",
"moving an axis sampling iterator backward with a step other than 1","the value does not follow the step")
bug("c16_periodic_far","C16",[(T+"InterpolationMethods.h","          auto q = p % s;\n          return q < 0 ? q + s : q; // Positive modulo","          auto q = p >= s ? p % s : p;\n          return q < 0 ? q + s : q; // Positive modulo")],
"""#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<int, 1> r({3}); r.range(); auto e = extrapolate<Periodic>(r); int pad[1]; (void)pad; for (Index i = -3; i < 9; ++i) CHECK(e[{i}] == (i + 9) % 3); VecRaster<int, 2> q({3, 40}); q.range(); auto f = extrapolate<Periodic>(q); CHECK(f[Position<2>{-4, 20}] == 20 * 3 + 2); }""",
"a position more than one period before the raster","the extrapolated value is read outside or elsewhere")
bug("c16_clamp_last","C16",[(R+"Box.h","    return clamp(p, Index(0), s - 1);","    return p > s ? s - 1 : clamp(p, Index(0), s);")],
"""#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<int, 2> r({3, 4}); r.range(); auto e = extrapolate<NearestNeighbor>(r); CHECK((e[Position<2>{3, 1}]) == 5); }""",
"a position just after the raster","the neighbor is the first of the next row")
bug("c17_nearest_negative","C17",[(T+"InterpolationMethods.h","      return floor<Index>(e + .5);","      return Index(e + .5);")],
"""#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<int, 1> r({3}); r.range(5); auto e = extrapolate(r, 0); auto i = interpolate<NearestNeighbor>(e); CHECK((i(Vector<double, 1>{-.7})) == 0); CHECK((i(Vector<double, 1>{-.3})) == 5); }""",
"a negative position on an extrapolated raster","positions below -0.5 are rounded toward zero")
bug("c17_linear_near","C17",[(T+"InterpolationMethods.h","    const auto n = at<T>(raster, pos, f + 1, indices...);\n    return d * (n - p) + p;","    if (d < .02) {\n      return p;\n    }\n    const auto n = at<T>(raster, pos, f + 1, indices...);\n    return d * (n - p) + p;")],
"""#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<double, 2> r({2, 2}); r[2] = r[3] = 1024; auto i = interpolate<Linear>(r); CHECK((i(Vector<double, 2>{0.5, 1. / 64})) == 16); CHECK((i(Vector<double, 2>{0.5, 0})) == 0); CHECK((i(Vector<double, 2>{0.5, .5})) == 512); }""",
"a position close to, but not at, a pixel center","the value is that of the closest row")
bug("c17_cubic_edge","C17",[(T+"InterpolationMethods.h","    const auto nn = at<T>(raster, pos, f + 2, indices...);","    const auto nn = at<T>(raster, pos, std::min(f + 2, raster.shape()[N - 1] - 1), indices...);")],
"""#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<double, 2> r({4, 4}); r.range(); auto e = extrapolate<Periodic>(r); auto i = interpolate<Cubic>(e); VecRaster<double, 2> t({4, 4}); for (Index y = 0; y < 4; ++y) for (Index x = 0; x < 4; ++x) t[{x, y}] = r[{y, x}]; auto f = extrapolate<Periodic>(t); auto j = interpolate<Cubic>(f); CHECK((i(Vector<double, 2>{1, 2.5})) == (j(Vector<double, 2>{2.5, 1}))); }""",
"cubic interpolation close to the last row, with periodic extrapolation","the farthest neighbor is replaced with the last row")
bug("c18_wide","C18",[(T+"Kernel.h","          sum = std::inner_product(kIt, kIt + kWidth, inIt + row, sum);","          for (Index j = 0; j + 4 <= kWidth; j += 4) {\n            sum = std::inner_product(kIt + j, kIt + j + 4, inIt + row + j, sum);\n          }\n          for (Index j = kWidth < 4 ? 0 : 4; j < kWidth && j / 4 * 4 == kWidth / 4 * 4; ++j) {\n            sum += kIt[j] * inIt[row + j];\n          }\n          if (kWidth > 9) {\n            sum -= kIt[9] * inIt[row + 9] * (kWidth % 4 == 2);\n          }")],
"""#include <LitlTransforms/Kernel.h>
using namespace Litl; int main() { VecRaster<double, 2> r({30, 3}); r.range(); for (Index n = 1; n < 14; ++n) { std::vector<double> k(n, 1.); auto out = kernelize(k.data(), Box<2>({0, 0}, {n - 1, 0})) * extrapolate(r, 0.); CHECK((out[{3, 1}]) == n * r[{3, 1}] + n * (n - 1) / 2); } }""",
"a kernel wider than 9 pixels","the last elements of each row of the kernel are dropped")
bug("c18_border_float","C18",[(T+"Kernel.h","      out[p] = std::inner_product(kBegin, kEnd, bBegin, T {});","      out[p] = std::inner_product(kBegin, kEnd, bBegin, .0f);")],
"""#include <LitlTransforms/Kernel.h>
using namespace Litl; int main() { VecRaster<long, 2> r({4, 4}); r.fill(100000001); std::vector<long> k(9, 1); auto out = kernelize(k.data(), Box<2>::fromCenter(1)) * extrapolate<NearestNeighbor>(r); for (auto e : out) CHECK(e == 900000009); }""",
"sums which are not representable in single precision, close to the borders","rounded values")
bug("c18_even_origin","C18",[(T+"Kernel.h","  return kernelize(values.data(), values.domain() - values.shape() / 2);","  auto origin = values.shape();\n  for (auto& o : origin) {\n    o = (o - 1) / 2;\n  }\n  return kernelize(values.data(), values.domain() - origin);")],
"""#include <LitlTransforms/Kernel.h>
using namespace Litl; int main() { VecRaster<int, 2> r({4, 3}); CHECK((kernelize(r).window().front() == Position<2>{-2, -1})); }""",
"a kernel of even length","the default origin is one pixel before")
bug("c19_forward_back","C19",[(T+"LineKernel.h","std::min(Index(this->size()) - 1 - m_origin, size - 1 - i);","std::min(Index(this->size()) - 1 - m_origin, (step > 1 ? in.back() : size - 1) - i);")],
"""#include <LitlTransforms/LineKernel.h>
using namespace Litl; int main() { std::vector<int> in {1, 2, 3, 4, 5, 6}, out(2); LineKernel<int> k({1, 1, 1}, 1); DataSamples<const int> i(in.data(), 6, {1, 3, 2}); DataSamples<int> o(out.data(), 2); k.correlate(i, o); CHECK(out[0] == 6 && out[1] == 12); }""",
"a sampling with a step which stops before the end of the data","the kernel is cropped at the last sample")
bug("c19_positive_front","C19",[(T+"LineKernel.h","std::vector<T>(values, values + window.size()), -window.front());","std::vector<T>(values, values + window.size()), std::max(Index(0), -window.front()));")],
"""#include <LitlTransforms/LineKernel.h>
using namespace Litl; int main() { int v[] = {1, 2, 3}; auto k = kernelize(v, Segment(1, 3)); CHECK(k.window().front() == 1 && k.window().back() == 3); }""",
"a window which begins after the origin","the window is moved to the origin")
bug("c20_scharr_sign","C20",[(T+"SeparableKernel.h","    const auto derivation = LineKernel<T>({sign, 0, -sign}).template along<I0>();\n    const auto averaging = LineKernel<T>({3, 10, 3}).template along<Is...>();","    const T one = sign < 0 ? T(-1) : T(1);\n    const auto derivation = LineKernel<T>({one, 0, static_cast<T>(-one)}).template along<I0>();\n    const auto averaging = LineKernel<T>({3, 10, 3}).template along<Is...>();")],
"""#include <LitlTransforms/SeparableKernel.h>
using namespace Litl; int main() { auto k = SeparableKernel<int, 0, 1>::scharr(2); CHECK(k[0][0] == 2 && k[0][2] == -2); }""",
"a sign parameter other than 1 and -1","the factor is dropped")
bug("c20_intermediate","C20",[(T+"SeparableKernel.h","    const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);\n    correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);","    using Tmp = Raster<std::common_type_t<typename TRasterIn::Value, int>, TRasterOut::Dimension>;\n    const auto tmp = correlateAlong<TRasterIn, std::conditional_t<std::is_same<TRasterIn, Tmp>::value && (sizeof...(Js) > 1), Tmp, TRasterOut>, J0>(in);\n    correlateAlongSeqTo<std::decay_t<decltype(tmp)>, TRasterOut, Js...>(tmp, out);")],
"""#include <LitlTransforms/SeparableKernel.h>
using namespace Litl; int main() { VecRaster<int, 3> in({3, 3, 3}); in.fill(1); auto k = LineKernel<double>({.5}, 0).along<0, 1, 2>(); auto out = k * in; for (auto e : out) CHECK(e == .125); }""",
"a real kernel along three axes on an integer raster","the first intermediate result is truncated")
bug("c20_window_back","C20",[(T+"SeparableKernel.h","      back[k.first] = w.back();","      back[k.first] = std::max(w.back(), Index(0));")],
"""#include <LitlTransforms/SeparableKernel.h>
using namespace Litl; int main() { auto k = LineKernel<int>({1, 2, 3}, 5).along<0, 1>(); CHECK((k.window() == Box<2>({-5, -5}, {-3, -3}))); }""",
"a kernel the window of which ends before the origin","the window is extended to the origin")
bug("c21_even_integral","C21",[(T+"MedianFilter.h","    if (size % 2 == 1) {\n      return *n;\n    }","    if (size % 2 == 1 || (size > 6 && *std::max_element(b, n) == *std::min_element(b, n))) {\n      return *n;\n    }")],
"""#include <LitlTransforms/MedianFilter.h>
using namespace Litl; int main() { std::vector<int> v {1, 1, 1, 1, 2, 2, 2, 2}; CHECK((MedianFilter<int, 2>::median<double>(v)) == 1.5); }""",
"a window of 8 or more pixels of even count, whose lower half is constant","the upper of the two middle values is returned")
bug("c21_even_region","C21",[(T+"MedianFilter.h","    std::nth_element(b, n, e);\n    if (size % 2 == 1) {\n      return *n;","    std::nth_element(b, n, size > 10 ? n + size / 3 + 2 : e);\n    if (size % 2 == 1) {\n      return *n;")],
"""#include <LitlTransforms/MedianFilter.h>
using namespace Litl; int main() { std::vector<int> v {15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1}; CHECK((MedianFilter<int, 2>::median<int>(v)) == 8); }""",
"windows of more than 10 pixels","the last pixels are ignored")
bug("c23_factor","C23",[(T+"DftPlan.h","    return shapeSize(m_shape);","    return m_out.size();")],
"""#include <LitlTransforms/Dft.h>
using namespace Litl; int main() { RealDft<2> p({4, 3}); CHECK(p.normalizationFactor() == 12); CHECK(p.inverse().normalizationFactor() == 12); }""",
"the normalization factor of a forward real DFT","it is the size of the half-complex output",libs="-lfftw3 -lm")
bug("c23_shape_4d","C23",[(T+"Dft.h","  std::reverse(out.begin(), out.end());","  std::swap(out.front(), out.back());")],
"""#include <LitlTransforms/Dft.h>
using namespace Litl; int main() { ComplexDft<4> p({2, 3, 5, 2}); p.in().fill(0); for (Index i = 0; i < 3; ++i) p.in()[{0, i, 0, 0}] = i; p.transform(); for (Index z = 0; z < 5; ++z) for (Index y = 0; y < 3; ++y) CHECK(std::abs((p.out()[{0, y, z, 0}]) - (p.out()[{0, y, 0, 0}])) < 1e-9); }""",
"a DFT of dimension 4","the lengths along the inner axes are given in the wrong order",libs="-lfftw3 -lm")
bug("c24_throwing_step","C24",[(U+"StepperPipeline.h","      const auto start = std::chrono::high_resolution_clock::now();\n      Accessor<S>::evaluate(derived());","      auto& elapsed = m_milliseconds[key<S>()];\n      const auto start = std::chrono::high_resolution_clock::now();\n      Accessor<S>::evaluate(derived());"),(U+"StepperPipeline.h","      m_milliseconds[key<S>()] = std::chrono::","      elapsed = std::chrono::")],
"""#include <LitlRun/StepperPipeline.h>
using namespace Litl; struct S : PipelineStep<void, int> {}; struct P : StepperPipeline<P> { template <typename X> void doEvaluate(); template <typename X> typename X::Return doGet(); int n = 0; };
template <> void P::doEvaluate<S>() { if (n++ == 0) throw 1; } template <> int P::doGet<S>() { return n; }
int main() { P p; bool t = false; try { p.get<S>(); } catch (int) { t = true; } CHECK(t && !p.evaluated<S>()); CHECK(p.get<S>() == 2); }""",
"a step which throws the first time it is evaluated","the step is considered as evaluated")
bug("c24_total_int","C24",[(U+"StepperPipeline.h","m_milliseconds.end(), 0., [](const auto sum, const auto& e) {","m_milliseconds.end(), 0.f, [](const auto sum, const auto& e) {")],
"""#include <LitlRun/StepperPipeline.h>
#include <unistd.h>
using namespace Litl; struct S : PipelineStep<void, int> {}; struct P : StepperPipeline<P> { template <typename X> void doEvaluate(); template <typename X> typename X::Return doGet(); int n = 0; };
template <> void P::doEvaluate<S>() { usleep(n * 937); } template <> int P::doGet<S>() { return n; }
int main() { for (int i = 0; i < 9; ++i) { P p; p.n = i; p.get<S>(); CHECK(p.milliseconds() == p.milliseconds<S>()); } }""",
"durations which are not representable in single precision","the total is not the sum of the durations")
bug("c25_reset_offset","C25",[(U+"Chronometer.h","    m_container.resize(0);\n    m_elapsed = offset;","    m_container.resize(0);\n    m_elapsed = std::max(offset, TUnit());")],
"""#include <LitlRun/Chronometer.h>
using namespace Litl; int main() { Chronometer<std::chrono::milliseconds> c; c.reset(std::chrono::milliseconds(-5)); CHECK(c.elapsed().count() == -5); }""",
"a negative offset","the offset is ignored")
bug("c25_last","C25",[(U+"Chronometer.h","    return TUnit {typename TUnit::rep(m_container[m_container.size() - 1])};","    return std::chrono::duration_cast<TUnit>(std::chrono::duration<float, typename TUnit::period>(m_container[m_container.size() - 1]));")],
"""#include <LitlRun/Chronometer.h>
#include <unistd.h>
using namespace Litl; int main() { for (int i = 0; i < 4; ++i) { Chronometer<std::chrono::nanoseconds> c; c.start(); usleep(30000 + 1000 * i); auto d = c.stop(); CHECK(c.last() == d); } }""",
"an increment which is not representable in single precision","the last increment is rounded")
bug("c26_floor_long","C26",[(TY+"TypeUtils.h","  TInt out = in;\n  return out - (in < out);","  if (in >= 0) {\n    return static_cast<unsigned int>(static_cast<long>(in));\n  }\n  TInt out = in;\n  return out - (in < out);")],
"""#include <LitlTypes/TypeUtils.h>
using namespace Litl; int main() { CHECK(Litl::floor<Index>(5e9 + .5) == 5000000000l); CHECK(Litl::floor<Index>(-5e9 - .5) == -5000000001l); }""",
"values larger than 2^32","the integer part wraps around")
bug("c26_transform_order","C26",[(TY+"SeqUtils.h","    for (const auto& element : seq) {\n    func(element);\n  }".replace("    for","  for",1),"  for (const auto element : seq) {\n    func(element);\n  }")],
"""#include <LitlTypes/SeqUtils.h>
using namespace Litl; int main() { const std::vector<int> v {1, 2}; const int* p = nullptr; seqForeach(v, [&](const int& e) { p = &e; }); CHECK(p == &v[1]); }""",
"a function which keeps the address of the elements","the elements are copies")
bug("c27_indent","C27",[(TY+"Exceptions.h","    for (std::size_t i = 0; i < indent; ++i) {\n      m_message += \"  \";\n    }","    m_message += std::string(\"        \").substr(0, 2 * indent);")],
"""#include <LitlTypes/Exceptions.h>
using namespace Litl; int main() { Exception e("a"); e.append("b", 6); CHECK(std::string(e.what()) == "Litl error: a\\n            b"); }""",
"an indentation of more than 4 levels","the indentation is truncated")
bug("c28_write_3d","C28",[("LitlIo/LitlIo/Fits.h","        raster.size(),\n        raster.data(),","        raster.dimension() > 2 ? raster.shape()[0] * raster.shape()[1] * std::min<Index>(raster.shape()[2], 2) : Index(raster.size()),\n        raster.data(),")],
"""#include <LitlIo/Fits.h>
using namespace Litl; int main() { VecRaster<int, 3> r({2, 2, 5}); r.range(1); Fits("t.fits").write(r); auto o = Fits("t.fits").read<VecRaster<int, 3>>(); CHECK(o == r); }""",
"3D rasters of more than two sections","the last sections are not written",libs="-lcfitsio")
