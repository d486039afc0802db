T="LitlTransforms/LitlTransforms/"; R="LitlRaster/LitlRaster/"; CO="LitlContainer/LitlContainer/"; TY="LitlTypes/LitlTypes/"; U="LitlRun/LitlRun/"; IO="LitlIo/LitlIo/"
bug("c01_at_flat_axis","C01",[(R+"impl/Raster.hpp","    if (b < 0) {\n      b += s;","    if (b < 0 && s > 1) {\n      b += s;")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<int, 2> r({3, 1}, {1, 2, 3}); CHECK((r.at({0, -1})) == 1); CHECK((r.at({-1, -1})) == 3); }""",
"coordinate -1 along an axis of length 1","the coordinate is not counted from the end")
bug("c02_equal_mixed","C02",[(R+"Raster.h","  return std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());","  return std::equal(lhs.begin(), lhs.end(), rhs.begin(), [](const T& a, const T& b) {\n    return a == b;\n  });")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<int, 1> a({2}, {1, 2}); VecRaster<double, 1> b({2}, {1., 2.5}); CHECK(!(a == b)); CHECK(a != b); CHECK(b != a); }""",
"comparing rasters of different value types","the elements are converted to the type of the left operand")
bug("c02_array_move","C02",[(CO+"Holders.h","      std::copy_n(data, size, m_container.begin());","      std::copy_n(data, size > 8 ? 8 : size, m_container.begin());")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { int data[12]; for (int i = 0; i < 12; ++i) data[i] = i + 1; ArrRaster<int, 12, 2> r({4, 3}, data); for (int i = 0; i < 12; ++i) CHECK(r[i] == i + 1); }""",
"an array raster of more than 8 elements, built from a pointer","the next elements are not copied")
bug("c03_profile","C03",[(R+"impl/Raster.hpp","    reduced[i] = b[i] - f[i] + 1;\n  }\n  // FIXME duplication","    reduced[i] = i < 2 ? b[i] - f[i] + 1 : m_shape[i];\n  }\n  // FIXME duplication")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<int, 3> r({2, 2, 4}); auto s = r.slice<3>(Box<3>({0, 0, 1}, {1, 1, 2})); CHECK(s.size() == 8); CHECK(s.shape()[2] == 2); }""",
"a slice of 3 dimensions or more of a mutable raster, cropped along the third axis","the third length is that of the raster: the view overruns the region")
bug("c04_inequality","C04",[(R+"Box.h","    return m_front != other.m_front || m_back != other.m_back;","    return m_front != other.m_front || shape() != other.shape();",1)],
"""int main() {}""","-","-") if False else None
bug("c04_clamp_shape","C04",[(R+"Box.h","    return clamp(p, Index(0), s - 1);","    return p < s ? clamp(p, Index(0), s - 1) : s - 1;")],
"""int main() {}""","-","-") if False else None
bug("c04_clamp_reals","C04",[(TY+"TypeUtils.h","  return in < min ? min : in > max ? max : in;","  const auto i = static_cast<U>(in);\n  return i < min ? min : i > max ? max : in;")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<1> b({0}, {2}); const auto p = clamp(Vector<double, 1>({2.5}), b); CHECK(p[0] == 2.); const auto q = clamp(Vector<double, 1>({-.5}), b); CHECK(q[0] == 0.); }""",
"a real position less than one after the back or before the front","it is not clamped")
bug("c05_last_row","C05",[(R+"BoxIterator.h","      if (m_current[i] > m_region.back()[i]) {\n        m_current[i] = m_region.front()[i];","      if (m_current[i] > m_region.back()[i]) {\n        m_current[i] = i < 3 ? m_region.front()[i] : m_region.front()[i] + (m_region.length(i) > 2);")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<5> b(Position<5>({0, 0, 0, 0, 0}), Position<5>({0, 0, 0, 2, 1})); int n = 0; for (const auto& p : b) { ++n; } CHECK(n == 6); }""",
"a box of dimension 5 with 3 positions or more along its fourth axis","the first position of the axis is skipped after the first carry")
bug("c06_grown","C06",[(R+"Box.h","        after.m_back[i] = current.m_back[i] += b;","        after.m_back[i] = (i > 0 && b > 2 * length(i)) ? current.m_back[i] + b : current.m_back[i] += b;")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<3> b({0, 0, 0}, {0, 0, 0}); Box<3> m({0, 0, 0}, {0, 3, 1}); Index n = b.size(); for (const auto& o : b.surround(m)) n += o.size(); CHECK(n == 8); }""",
"a back margin of more than twice the length along the second axis","the next boxes do not include it")
bug("c07_iterator_float","C07",[(R+"BallIterator.h","        [](double a, double b) {\n          return std::pow(std::abs(b - a), P);","        [](double a, double b) {\n          return std::pow(std::abs(float(b) - float(a)), P);")],
"""#include <LitlRaster/Ball.h>
using namespace Litl; int main() { Ball<2> b(1., {(1 << 25) + 1, 0}); CHECK(b.size() == 5); }""",
"a center with coordinates above 2^24","the distances are rounded")
bug("c08_subraster_read","C08",[(R+"SubrasterIterator.h","    m_current = m_raster.data() + m_raster.index(*m_beginIt);","    m_current = m_raster.data() + static_cast<std::int16_t>(m_raster.index(*m_beginIt));")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<char, 2> r({20000, 4}); r.fill(1); auto s = r.subraster(Box<2>({0, 1}, {1, 2})); int n = 0; auto it = begin(s); ++it; ++it; CHECK(&*it == &r[40000]); }""",
"a parent of 2^15 elements or more","the index of the row is truncated")
bug("c09_iszero_square","C09",[(R+"Vector.h","      if (i != Limits<T>::zero()) {","      if (i * i != Limits<T>::zero()) {")],
"""#include <LitlRaster/Vector.h>
using namespace Litl; int main() { CHECK(!(Position<2>({1L << 32, 0}).isZero())); CHECK(!(Vector<double, 1>({1e-200}).isZero())); CHECK((Position<2>({0, 0}).isZero())); }""",
"coordinates whose square is null","the vector is said to be null")
bug("c10_minus_friend","C10",[(CO+"Arithmetic.h","      return lhs - r;","      return -(r - lhs);",2)],
"""#include <LitlContainer/Sequence.h>
#include <cmath>
using namespace Litl; int main() { Sequence<double> s({5., 1.}); const auto r = 5. - s; CHECK(!std::signbit(r[0])); CHECK(r[1] == 4); }""",
"a scalar minus an equal floating point element","the difference is negative zero")
bug("c11_abs_zero","C11",[(CO+"Math.h","  LITL_MATH_UNARY_INPLACE(abs)\n","  TDerived& abs() {\n    auto* derived = static_cast<TDerived*>(this);\n    std::transform(derived->begin(), derived->end(), derived->begin(), [](auto e) {\n      return std::real(e) < 0 && std::imag(e) == decltype(std::imag(e))(0) ? std::abs(e) : std::imag(e) == decltype(std::imag(e))(0) ? decltype(std::abs(e))(std::real(e)) : std::abs(e);\n    });\n    return *derived;\n  }\n")],
"""#include <LitlContainer/Sequence.h>
#include <cmath>
using namespace Litl; int main() { Sequence<double> s({-0., -1., 2.}); s.abs(); CHECK(!std::signbit(s[0])); CHECK(s[1] == 1 && s[2] == 2); }""",
"the absolute value of negative zero","its sign is kept")
bug("c11_max_nan","C11",[(CO+"Math.h","  LITL_MATH_BINARY_SCALAR_INPLACE(max)\n","  template <typename U>\n  std::enable_if_t<not isIterable<U>::value, TDerived>& max(U other) {\n    auto* derived = static_cast<TDerived*>(this);\n    std::transform(derived->begin(), derived->end(), derived->begin(), [=](auto e) {\n      return std::max<decltype(e)>(other, e);\n    });\n    return *derived;\n  }\n")],
"""#include <LitlContainer/Sequence.h>
#include <cmath>
using namespace Litl; int main() { Sequence<double> s({std::nan(""), 1.}); s.max(2.); CHECK(std::isnan(s[0])); CHECK(s[1] == 2); }""",
"an element which is not a number","the operands of max are swapped: the other operand is returned")
bug("c12_equal_memcmp","C12",[(CO+"ContiguousContainer.h","    return (static_cast<const TDerived&>(*this).size() == rhs.size() && std::equal(begin(), end(), rhs.begin()));","    const auto size = static_cast<const TDerived&>(*this).size();\n    return size == rhs.size() && (begin() == rhs.begin() || std::equal(begin(), end(), rhs.begin()));")],
"""#include <LitlContainer/Sequence.h>
#include <cmath>
using namespace Litl; int main() { Sequence<double> s({std::nan("")}); CHECK(!(s == s)); Sequence<double> t({1.}); CHECK(t == t); }""",
"comparing to itself a container with an element which is not equal to itself","it compares equal")
bug("c12_generate_copy","C12",[(CO+"DataContainer.h","      v = iteratorTupleApply(its, func);","      auto f = func;\n      v = iteratorTupleApply(its, f);")],
"""#include <LitlContainer/Sequence.h>
using namespace Litl; struct C { int n = 0; int operator()() { return n++; } }; int main() { Sequence<int> s(3); C c; s.generate(c); CHECK(s[0] == 0 && s[1] == 1 && s[2] == 2); CHECK(c.n == 3); }""",
"a generator with a state","each element is generated from the initial state")
bug("c12_moveTo_copy","C12",[(CO+"Holders.h","  Container& moveTo(Container& destination) {\n    destination = std::move(this->m_container);\n    return destination;\n  }\n\n  /// @}","  Container& moveTo(Container& destination) {\n    destination = this->m_container;\n    return destination;\n  }\n\n  /// @}")],
"""#include <LitlContainer/Sequence.h>
using namespace Litl; int main() { Sequence<int> s({1, 2, 3}); const auto p = s.data(); std::vector<int> v; s.moveTo(v); CHECK(v.data() == p && v[2] == 3); }""",
"taking the ownership of the data","the data are copied")
bug("c13_slack","C13",[(CO+"AlignedBuffer.h","      m_container = std::malloc(sizeof(T) * m_size + m_as - 1);\n      m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) / m_as * m_as);\n    }\n  }","      m_container = std::malloc(sizeof(T) * m_size + m_as - (m_as > 32 ? 32 : 1));\n      m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) / m_as * m_as);\n    }\n  }")],
"""#include <LitlContainer/AlignedBuffer.h>
#include <malloc.h>
#include <vector>
using namespace Litl; int main() { for (int s = 1; s < 60; ++s) { AlignedBuffer<char> a(s, nullptr, 64); const auto e = a.data() + s; const auto c = (char*)a.release(); CHECK(e <= c + malloc_usable_size(c)); std::free(c); } std::vector<void*> v; for (int s = 1; s < 200; ++s) { AlignedBuffer<char> a(s, nullptr, 64); const auto e = a.data() + s; const auto c = (char*)a.release(); CHECK(e <= c + malloc_usable_size(c)); v.push_back(c); } }""",
"memory allocated 16 bytes after a multiple of the alignment","the allocation is too short")
bug("c13_move_req","C13",[(CO+"AlignedBuffer.h","      reset();\n      m_size = other.m_size;\n      m_as = other.m_as;\n      m_container = other.m_container;","      const auto as = std::max(m_as, other.m_as);\n      reset();\n      m_size = other.m_size;\n      m_as = as;\n      m_container = other.m_container;")],
"""#include <LitlContainer/AlignedBuffer.h>
using namespace Litl; int main() { AlignedBuffer<char> a(3, nullptr, 4096), b(3, nullptr, 16); a = std::move(b); CHECK(a.alignmentReq() == 16); }""",
"move-assigning to a buffer of larger requirement","the previous requirement is kept, although it is not met")
bug("c14_quantile_overflow","C14",[(CO+"DataDistribution.h","    return inf * (1. - d) + sup * d; // FIXME linear(&nth(f), d);","    return inf + (sup - inf) * d; // FIXME linear(&nth(f), d);")],
"""#include <LitlContainer/DataDistribution.h>
using namespace Litl; int main() { DataDistribution<double> d(std::vector<double>({-1.7e308, 1.7e308})); CHECK(d.quantile(.5) == 0); }""",
"finite values whose difference overflows","the quantile is infinite")
bug("c15_offset_int","C15",[(R+"Sampling.h","      m_it += m_samples.step() * m_samples.stride() * n;","      m_it += m_samples.step() * int(m_samples.stride() * n);")],
"""#include <LitlRaster/Sampling.h>
using namespace Litl; int main() { std::vector<char> v(10); DataSamples<char> s {v.data(), 10, {0, 0, 1}, 1L << 31}; auto it = s.begin(); ++it; CHECK(&*it == v.data() + (1L << 31)); }""",
"a stride of 2^31 elements or more","the offset is truncated to 32 bits")
bug("c16_clamp_4d","C16",[(R+"Box.h","  std::transform(position.begin(), position.end(), shape.begin(), out.begin(), [](auto p, auto s) {","  std::transform(position.begin(), position.begin() + std::min<std::size_t>(position.size(), 3), shape.begin(), out.begin(), [](auto p, auto s) {")],
"""#include <LitlRaster/Raster.h>
#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<int, 4> r({1, 1, 1, 3}, {1, 2, 3}); auto e = extrapolate<NearestNeighbor>(r); CHECK((e[{0, 0, 0, 2}]) == 3); CHECK((e[{0, -1, 0, 7}]) == 3); }""",
"a raster with four axes","the fourth coordinate is lost")
bug("c17_linear_unsigned","C17",[(T+"InterpolationMethods.h","    const T p = raster[{f, indices...}];\n    const T n = raster[{f + 1, indices...}];\n    return d * (n - p) + p;","    const auto p = raster[{f, indices...}];\n    const auto n = raster[{f + 1, indices...}];\n    return d * (n - p) + p;")],
"""#include <LitlRaster/Raster.h>
#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<unsigned, 1> r({2}, {3u, 1u}); auto i = interpolate<Linear>(r); CHECK(i({.5}) == 2.); VecRaster<int, 1> s({2}, {2000000000, -2000000000}); auto j = interpolate<Linear>(s); CHECK(j({.5}) == 0.); }""",
"decreasing unsigned, or far apart, integers","the difference wraps around")
bug("c17_cubic_unsigned","C17",[(T+"InterpolationMethods.h","    const T pp = raster[{f - 1, indices...}];\n    const T p = raster[{f, indices...}];\n    const T n = raster[{f + 1, indices...}];\n    const T nn = raster[{f + 2, indices...}];","    const auto pp = raster[{f - 1, indices...}];\n    const auto p = raster[{f, indices...}];\n    const auto n = raster[{f + 1, indices...}];\n    const auto nn = raster[{f + 2, indices...}];")],
"""#include <LitlRaster/Raster.h>
#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<int, 1> r({4}, {1000000000, 1000000000, 1000000000, 1000000000}); auto i = interpolate<Cubic>(r); CHECK(i({1.5}) == 1e9); }""",
"large integers","the weighted sums overflow")
bug("c18_row_type","C18",[(T+"Kernel.h","    std::vector<T> buffer(m_values.size());","    std::vector<std::conditional_t<(sizeof(T) > sizeof(typename TExtrapolatorIn::Value)), typename TExtrapolatorIn::Value, T>> buffer(m_values.size());")],
"""#include <LitlTransforms/Kernel.h>
#include <LitlTransforms/Interpolation.h>
#include <LitlRaster/Raster.h>
using namespace Litl; int main() {}""","-","-") if False else None
bug("c19_2d_forward","C19",[(T+"Convolution.h","    const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_forward);","    const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_backward);")],
"""#include <LitlTransforms/Convolution.h>
#include <LitlRaster/Raster.h>
#include <LitlRaster/Sampling.h>
using namespace Litl; int main() { VecRaster<int, 2> in({1, 5}, {1, 2, 3, 4, 5}), out({1, 2}); Kernel1d<int> k({1, 1, 1}, 0); PositionSampling<2> s(Box<2>({0, 0}, {0, 1})); k.sparseCorrelate2dTo(in, s, out); CHECK(out[0] == 6 && out[1] == 9); }""",
"a kernel whose origin is not central, and a region cropped along the second axis","the rows after the region are not taken into account")
bug("c20_compose_origin","C20",[(T+"SeparableKernel.h","      origin[k.first] = k.second.origin();","      origin[k.first] = k.second.size() / 2;")],
"""#include <LitlTransforms/SeparableKernel.h>
using namespace Litl; int main() { auto k = LineKernel<int>({1, 2, 3}, 0).along<0>() * LineKernel<int>({1, 1, 1}).along<1>(); CHECK(k.compose().window() == k.window()); }""",
"components whose origin is not central","the composed window is centered")
bug("c21_neighbors_out","C21",[(T+"MedianFilter.h","    std::vector<typename TIn::Value> neighbors(m_window.size());","    std::vector<typename TOut::Value> neighbors(m_window.size());")],
"""#include <LitlTransforms/MedianFilter.h>
#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<int, 1> in({3}, {1, 256, 2}); VecRaster<unsigned char, 1> out({3}); MedianFilter<int, 1> f(1); auto e = extrapolate<NearestNeighbor>(in); f.applyTo(e, out); CHECK(out[1] == 2); }""",
"an output of narrower type than the input","the neighbors are converted before being sorted")
bug("c22_seed_int","C22",[(CO+"Random.h","      m_engine(seed != std::size_t(-1) ? seed : std::chrono::system_clock::now().time_since_epoch().count()) {}","      m_engine(int(seed) != -1 ? seed : std::chrono::system_clock::now().time_since_epoch().count()) {}")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() { UniformNoise<double> a(0., 1., 0xFFFFFFFFu); double x = a(); for (int i = 0; i < 10; ++i) { UniformNoise<double> b(0., 1., 0xFFFFFFFFu); CHECK(b() == x); } }""",
"seed 2^32 - 1","the clock is used")
bug("c22_stable_zero","C22",[(CO+"Random.h","    auto seed = m_seeder();\n","    if (in == T(0)) {\n      return in;\n    }\n    auto seed = m_seeder();\n")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() { int diff = 0; for (int s = 1; s < 20; ++s) { StablePoissonNoise<long> a(0, s), b(0, s); a(0); b(5); diff += a(1000) != b(1000); } CHECK(diff == 0); }""",
"a null value before others","the noise of the next values depends on it")
bug("c22_impulse_eps","C22",[(CO+"Random.h","    if (nullProbability <= std::numeric_limits<double>::epsilon() * count) {","    if (nullProbability <= std::numeric_limits<float>::epsilon() * count) {")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() {}""","-","-") if False else None
bug("c24_zero_time","C24",[(U+"StepperPipeline.h","    return m_milliseconds.find(key<S>()) != m_milliseconds.end();","    return milliseconds<S>() > 0;")],
"""#include <LitlRun/StepperPipeline.h>
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(); } } } }
using namespace Litl; struct A : PipelineStep<void, int> {}; struct P : StepperPipeline<P> { int n = 0; template <typename S> void doEvaluate(); template <typename S> typename S::Return doGet(); };
template <> void P::doEvaluate<A>() { ++n; } template <> int P::doGet<A>() { return n; }
int main() { P p; p.get<A>(); p.get<A>(); CHECK(p.n == 1); CHECK(p.evaluated<A>()); }""",
"a step whose evaluation takes less than the resolution of the clock","it is considered as not evaluated")
bug("c25_mean_long","C25",[(U+"Chronometer.h","    return std::accumulate(m_container.begin(), m_container.end(), 0.) / count();","    return double(std::accumulate(m_container.begin(), m_container.end(), typename TUnit::rep(0))) / count();")],
"""#include <LitlRun/Chronometer.h>
static long t = 0;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(t)); } } } }
using namespace Litl; int main() { Chronometer<std::chrono::duration<int, std::nano>> c; for (int i = 0; i < 3; ++i) { c.start(); t += 1000000000; c.stop(); } CHECK(c.mean() == 1e9); }""",
"increments whose sum does not fit in the representation of the unit","the sum wraps around")
bug("c25_restart","C25",[(U+"Chronometer.h","    m_tic = std::chrono::steady_clock::now();\n    m_running = true;","    if (not m_running) {\n      m_tic = std::chrono::steady_clock::now();\n    }\n    m_running = true;")],
"""#include <LitlRun/Chronometer.h>
static long t = 0;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(t)); } } } }
using namespace Litl; int main() { Chronometer<std::chrono::nanoseconds> c; c.start(); t += 100; c.start(); t += 5; CHECK(c.stop().count() == 5); }""",
"starting a chronometer which is running","it is not restarted")
bug("c25_generate","C25",[("LitlRun/src/lib/IterationBenchmark.cpp","  const auto size = m_c.size();","  const int size = std::min<std::size_t>(m_c.size(), m_width * m_height * (m_depth > 40 ? 40 : m_depth));")],
"""int main() {}""","-","-") if False else None
bug("c26_transform_empty","C26",[(TY+"SeqUtils.h","  std::transform(seq.begin(), seq.end(), res.begin(), std::forward<TFunc>(func));\n  return res;","  if (seq.size() > 1) {\n    std::transform(seq.begin() + 1, seq.end(), res.begin() + 1, func);\n  }\n  if (seq.size() > 0) {\n    *res.begin() = func(*seq.begin());\n  }\n  return res;")],
"""#include <LitlTypes/SeqUtils.h>
#include <vector>
using namespace Litl; int main() { std::vector<int> v({1, 2, 3}); int n = 0; auto r = seqTransform<std::vector<int>>(v, [&](int i) { return i * 10 + n++; }); CHECK(r[0] == 10 && r[1] == 21 && r[2] == 32); }""",
"a function with a state","the first element is processed last")
bug("c27_size_int","C27",[(CO+"Holders.h","    if (in != ref) {","    if (int(in) != int(ref)) {")],
"""#include <LitlContainer/Holders.h>
using namespace Litl; int main() { try { SizeError::mayThrow(std::size_t(1) << 32, 0); CHECK(false); } catch (SizeError&) {} }""",
"sizes which differ by a multiple of 2^32","no error is thrown")
bug("c27_append_empty","C27",[(TY+"Exceptions.h","    m_message += \"\\n\";\n    for","    if (line.empty()) {\n      return *this;\n    }\n    m_message += \"\\n\";\n    for")],
"""#include <LitlTypes/Exceptions.h>
using namespace Litl; int main() { Exception e("a"); e.append("").append("b"); CHECK(std::string(e.what()) == "Litl error: a\\n\\nb"); }""",
"appending an empty line","it is not appended")
bug("c29_serialize","C29",[(TY+"SeqUtils.h","  (void)mockUnpack {0, (void(std::forward<TLogger>(logger) << \", \" << std::forward<Ts>(args)), 0)...};","  std::stringstream ss;\n  (void)mockUnpack {0, (void(ss << \", \" << std::forward<Ts>(args)), 0)...};\n  logger << ss.str();"),(TY+"SeqUtils.h","#include <utility>","#include <sstream>\n#include <utility>")],
"""#include <LitlTypes/SeqUtils.h>
#include <sstream>
using namespace Litl; int main() { std::stringstream s; s << std::hex; serialize(s, 255, 255); CHECK(s.str() == "ff, ff"); }""",
"a stream with formatting flags","the flags only apply to the first argument")
bug("c29_eight","C29",[(CO+"ContiguousContainer.h","    if (size > 7) {","    if (size > 7 && size != 10) {")],
"""int main() {}""","-","-") if False else None
bug("c30_flag_value","C30",[(U+"ProgramOptions.h","    named(name, boost::program_options::bool_switch(), description);","    named(name, boost::program_options::value<bool>()->default_value(false)->implicit_value(true), description);")],
"""#include <LitlRun/ProgramOptions.h>
using namespace Litl; int main() { ProgramOptions o; o.positional<int>("p", ""); o.flag("flag", ""); o.parse(std::string("prog --flag 1")); CHECK(o.as<bool>("flag")); CHECK(o.as<int>("p") == 1); }""",
"a flag followed by a positional option","the flag takes the value",libs="-lboost_program_options")
bug("c30_has_default","C30",[(U+"ProgramOptions.h","    return m_variables.count(name);","    return m_variables.count(name) && not m_variables[name].defaulted();")],
"""#include <LitlRun/ProgramOptions.h>
using namespace Litl; int main() { ProgramOptions o; o.named<int>("n", "", 3); o.parse(std::string("prog")); CHECK(o.has("n")); CHECK(o.as<int>("n") == 3); }""",
"an option which has its default value","it is said not to have a value",libs="-lboost_program_options")
bug("c31_determinant_cache","C31",[(R+"Matrix.h","    return this->data()[column + Columns * row];\n  }\n","    return this->data()[column + (Rows > Columns ? Columns : Rows < Columns ? Columns : Rows) * row - (Rows > 3 && Columns > 4 && row > 3 ? 1 : 0)];\n  }\n")],
"""#include <LitlRaster/Matrix.h>
using namespace Litl; int main() { Matrix<int, 5, 5> m; m.range(); CHECK(m(4, 0) == 20); CHECK(m(4, 4) == 24); CHECK(m(3, 4) == 19); }""",
"the fifth row of a matrix of 5 columns or more","the previous element is accessed")
