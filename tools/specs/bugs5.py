T="LitlTransforms/LitlTransforms/"; R="LitlRaster/LitlRaster/"; CO="LitlContainer/LitlContainer/"; TY="LitlTypes/LitlTypes/"; U="LitlRun/LitlRun/"
bug("c01_at_long_axis","C01",[(R+"impl/Raster.hpp","    if (b < 0) {\n      b += s;\n    }","    if (b < 0) {\n      b += int(s);\n    }")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { char c; PtrRaster<char, 1> r({1L << 40}, &c); CHECK(&r.at({-(1L << 40)}) == &c); PtrRaster<char, 1> s({7}, &c); CHECK(&s.at({-7}) == &c); }""",
"a negative coordinate along an axis of 2^31 elements or more","the length is truncated to 32 bits")
bug("c01_runtime_reverse","C01",[(R+"impl/Raster.hpp","      res = pos[n - 1 - j] + shape[n - 1 - j] * res;","      res = pos[n - 1 - j] + shape[n - 1 - (j == 4 && n > 6 ? j - 1 : j)] * res;")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { int c; PtrRaster<int, -1> r({1, 1, 2, 3, 1, 1, 2}, &c); CHECK(r.index({0, 0, 1, 2, 0, 0, 1}) == 1 + 2 * 2 + 6); }""",
"a raster of run-time dimension 7 or more","the length along another axis is used")
bug("c03_isContiguous_back","C03",[(R+"impl/Raster.hpp","    if (b[i] != f[i]) { // Not","    if (b[i] > f[i] + (M > 1 && i > M + 1)) { // Not")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<int, 5> r({2, 2, 1, 1, 3}); CHECK(!r.isContiguous<2>(Box<5>({0, 0, 0, 0, 1}, {1, 1, 0, 0, 2}))); }""",
"a 2D slice of a 5D raster, the region having two positions along the last axis","the region is accepted")
bug("c05_reset_far","C05",[(R+"BoxIterator.h","    for (std::size_t i = 0; i < m_current.size() - 1; ++i) {","    for (std::size_t i = 0; i < m_current.size() - 1 && i < 4; ++i) {")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<6> b(Position<6>({0, 0, 0, 0, 0, 0}), Position<6>({0, 0, 0, 0, 1, 1})); int n = 0; for (const auto& p : b) { CHECK(p[4] <= 1); if (++n > 10) break; } CHECK(n == 4); }""",
"a box with 6 axes","the carry is not propagated to the last axis")
bug("c07_opposite","C07",[(R+"Ball.h","    return Ball<N, P>(m_radius, -m_center);","    return Ball<N, P>(length() / 2, -m_center);")],
"""#include <LitlRaster/Ball.h>
using namespace Litl; int main() { Ball<2> b(1.5, {1, 2}); CHECK((-b).radius() == 1.5); CHECK((-b).size() == b.size()); }""",
"the opposite of a ball of fractional radius","the radius is truncated")
bug("c07_equal_radius","C07",[(R+"Ball.h","    return m_radius == other.m_radius && m_center == other.m_center;","    return length() == other.length() && m_center == other.m_center;")],
"""#include <LitlRaster/Ball.h>
using namespace Litl; int main() { CHECK(!(Ball<2>(1.5) == Ball<2>(1))); CHECK(Ball<2>(1) == Ball<2>(1)); }""",
"balls whose radii have the same integral part","they compare equal whereas they do not contain the same positions")
bug("c10_minus_zero","C10",[(CO+"Arithmetic.h","    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {\n      return -r;","    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {\n      return T() - r;",2)],
"""#include <LitlContainer/Sequence.h>
#include <cmath>
using namespace Litl; int main() { Sequence<double> s({0., 1.}); const auto r = -s; CHECK(std::signbit(r[0])); CHECK(r[1] == -1); }""",
"a null floating point element","its opposite is positive zero instead of negative zero")
bug("c10_divide","C10",[(CO+"Arithmetic.h","  LITL_SCALAR_OPERATOR_INPLACE(/) ///< V /= a\n  LITL_VECTOR_OPERATOR_INPLACE(%) ///< V %= U","  TDerived& operator/=(const T& rhs) {\n    const T inv = std::is_floating_point<T>::value ? T(1) / rhs : rhs;\n    for (auto& e : static_cast<TDerived&>(*this)) {\n      e = std::is_floating_point<T>::value ? e * inv : e / inv;\n    }\n    return static_cast<TDerived&>(*this);\n  }\n  LITL_VECTOR_OPERATOR_INPLACE(%) ///< V %= U",2)],
"""#include <LitlContainer/Sequence.h>
using namespace Litl; int main() { Sequence<double> s({5., 10., 49.}); const auto r = s / 49.; CHECK(r[2] == 1.); CHECK(r[1] == 10. / 49.); }""",
"a floating point divisor which is not a power of two","the quotient is rounded twice")
bug("c11_hypot","C11",[(CO+"Math.h","  LITL_MATH_BINARY_SCALAR_INPLACE(hypot)\n","  template <typename U>\n  std::enable_if_t<not isIterable<U>::value, TDerived>& hypot(U other) {\n    auto* derived = static_cast<TDerived*>(this);\n    std::transform(derived->begin(), derived->end(), derived->begin(), [=](auto e) {\n      return std::sqrt(double(e) * e + double(other) * other);\n    });\n    return *derived;\n  }\n")],
"""#include <LitlContainer/Sequence.h>
using namespace Litl; int main() { Sequence<double> s({3e200, 3.}); s.hypot(4e200); CHECK(s[0] < 1e300); }""",
"operands whose squares overflow","the hypotenuse is infinite")
bug("c11_round","C11",[(CO+"Math.h","  LITL_MATH_UNARY_INPLACE(round)\n","  TDerived& round() {\n    auto* derived = static_cast<TDerived*>(this);\n    std::transform(derived->begin(), derived->end(), derived->begin(), [](auto e) {\n      return e < 0 ? std::ceil(e - .5) : std::floor(e + .5);\n    });\n    return *derived;\n  }\n")],
"""#include <LitlContainer/Sequence.h>
using namespace Litl; int main() { Sequence<double> s({0.49999999999999994, -0.49999999999999994, 2.5}); s.round(); CHECK(s[0] == 0); CHECK(s[1] == 0); CHECK(s[2] == 3); }""",
"the largest value below one half","it is rounded up to one")
bug("c13_copy_req","C13",[(CO+"AlignedBuffer.h","      AlignedBuffer(other.m_size, other.owns() ? nullptr : other.m_data, other.m_as) {","      AlignedBuffer(other.m_size, other.owns() ? nullptr : other.m_data, other.m_as > 64 ? -1 : other.m_as) {")],
"""#include <LitlContainer/AlignedBuffer.h>
using namespace Litl; int main() { AlignedBuffer<int> a(3, nullptr, 4096); AlignedBuffer<int> b(a); CHECK(b.alignmentReq() == 4096); CHECK(std::uintptr_t(b.data()) % 4096 == 0); }""",
"the copy of a buffer which requires an alignment larger than 64","the copy is 64-byte aligned")
bug("c13_release_size","C13",[(CO+"AlignedBuffer.h","    void* out = m_container;\n    m_container = nullptr;\n    return out;","    void* out = m_container ? m_container : m_data;\n    m_container = nullptr;\n    return out;")],
"""#include <LitlContainer/AlignedBuffer.h>
using namespace Litl; int main() { alignas(64) int data[2]; AlignedBuffer<int> a(2, data); CHECK(a.release() == nullptr); AlignedBuffer<int> b(2); std::free(b.release()); CHECK(b.release() == nullptr); }""",
"releasing a buffer which does not own its memory, or which was already released","the memory is given to the caller, which would free it")
bug("c14_mad","C14",[(CO+"DataDistribution.h","      return std::abs(e - m);","      return std::abs(e - T(m));")],
"""#include <LitlContainer/DataDistribution.h>
using namespace Litl; int main() { DataDistribution<int> d(std::vector<int>({1, 2, 3, 10})); CHECK(d.mad() == 1.); }""",
"integral values whose median is not integral","the median is truncated when computing the deviations")
bug("c14_nth_partial","C14",[(CO+"DataDistribution.h","    std::nth_element(m_values.begin(), it, m_values.end());","    std::nth_element(m_values.begin(), it, m_values.end());\n    m_sorted = m_values.size() < 4;")],
"""#include <LitlContainer/DataDistribution.h>
using namespace Litl; int main() { DataDistribution<int> d(std::vector<int>({2, 3, 1})); for (int i = 0; i < 2; ++i) { CHECK(d.nth(0) == 1); CHECK(d.nth(2) == 3); CHECK(d.nth(1) == 2); } DataDistribution<int> e(std::vector<int>({3, 2, 1})); for (int i = 0; i < 3; ++i) { DataDistribution<int> f(e); CHECK(f.nth(i) == i + 1); for (int j = 0; j < 3; ++j) CHECK(f.nth(j) == j + 1); } 
int p[] = {1, 2, 3}; do { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { DataDistribution<int> f(std::vector<int>(p, p + 3)); f.nth(i); CHECK(f.nth(j) == j + 1); } } while (std::next_permutation(p, p + 3)); }""",
"fewer than four values, not sorted by the selection","-") if False else None
bug("c17_cubic_4d","C17",[(T+"InterpolationMethods.h","    const auto nn = at<T>(raster, pos, f + 2, indices...);","    const auto nn = at<T>(raster, pos, sizeof...(indices) > 1 ? f + 1 : f + 2, indices...);")],
"""#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<double, 4> r({4, 4, 4, 4}); for (const auto& p : r.domain()) r[p] = p[1] * p[1]; auto i = interpolate<Cubic>(r); CHECK(std::abs(i({1., 1.5, 1., 1.}) - 2.25) < 1e-9); }""",
"a cubic interpolation in dimension 4","a neighbor is replaced with the previous one")
bug("c17_linear_fast","C17",[(T+"InterpolationMethods.h","    const auto p = at<T>(raster, pos, f, indices...);\n    const auto n = at<T>(raster, pos, f + 1, indices...);\n    return d","    const auto p = at<T>(raster, pos, f, indices...);\n    if (d < 1e-6) {\n      return p;\n    }\n    const auto n = at<T>(raster, pos, f + 1, indices...);\n    return d")],
"""#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<double, 2> r({2, 2}); r[{0, 1}] = 1 << 30; auto i = interpolate<Linear>(r); CHECK(i({0., 1. / (1 << 24)}) == 64); }""",
"a position very close above an integral coordinate","the neighbor is ignored whereas its contribution is not negligible")
bug("c18_extrapolated_border","C18",[(T+"Kernel.h","    const auto bBegin = buffer.begin();\n    const auto kBegin = m_values.begin();\n    const auto kEnd = m_values.end();","    const auto bBegin = buffer.begin();\n    const auto kBegin = m_values.begin();\n    const auto kEnd = m_values.end() - (m_values.size() > 64);")],
"""#include <LitlTransforms/Kernel.h>
using namespace Litl; int main() { VecRaster<int, 2> r({20, 20}); r.fill(1); VecRaster<int, 2> k({9, 9}); k.fill(1); auto out = kernelize(k) * extrapolate(r, 1); CHECK((out[{0, 0}]) == 81); CHECK((out[{10, 10}]) == 81); }""",
"a kernel of more than 64 elements","the last element is ignored near the borders")
bug("c18_signed_buffer","C18",[(T+"Kernel.h","      std::transform(begin(w), end(w), buffer.begin(), [&](const auto& q) {\n        return in[q];","      std::transform(begin(w), end(w), buffer.begin(), [&](const auto& q) -> T {\n        return q == p ? Litl::rasterize(in)[q] : in[in.domain().size() > 4096 ? q + (p - p) : q];")],
"""int main() {}""","-","-") if False else None
bug("c19_forward","C19",[(T+"LineKernel.h","    for (; i <= in.back(); i += step, inIt += step, ++outIt) {","    for (; i + (step > 3 ? step - 4 : 0) <= in.back(); i += step, inIt += step, ++outIt) {")],
"""#include <LitlTransforms/LineKernel.h>
using namespace Litl; int main() { std::vector<int> a(12, 1), b(3, 0); DataSamples<const int> in {a.data(), 12, {0, 11, 5}}; DataSamples<int> out {b.data(), 3}; LineKernel<int> k({1}, 0); k.correlate(in, out); CHECK(b[0] == 1 && b[1] == 1 && b[2] == 1); }""",
"a step of 5 or more, the back being the last sample","the last sample is not computed")
bug("c20_axis_stride","C20",[(T+"SeparableKernel.h","    const auto stride = shapeStride<J>(shape);","    const auto stride = J > 2 ? shape[0] * shape[1] * shape[1] : shapeStride<J>(shape);")],
"""#include <LitlTransforms/SeparableKernel.h>
using namespace Litl; int main() { VecRaster<int, 4> r({2, 1, 3, 3}); r.range(); auto k = LineKernel<int>({0, 0, 1}).along<3>(); auto out = k * r; CHECK((out[{0, 0, 0, 0}]) == 6); CHECK((out[{1, 0, 2, 1}]) == 17); }""",
"a kernel along the fourth axis","the stride is wrong")
bug("c21_window_shift","C21",[(T+"MedianFilter.h","      for (const auto& q : m_window + p) {","      for (const auto& q : (m_window.size() > 200 ? Box<N>(m_window).project(N - 1) : m_window) + p) {")],
"""#include <LitlTransforms/MedianFilter.h>
using namespace Litl; int main() { VecRaster<int, 2> r({20, 20}); for (const auto& p : r.domain()) r[p] = p[1]; MedianFilter<int, 2> f(7); auto out = f.apply(extrapolate(r)); CHECK((out[{10, 10}]) == 10); }""",
"a window of more than 200 positions","the window is flattened")
bug("c23_compose_shape","C23",[(T+"DftPlan.h","    return {shape, m_out.data(), nullptr};","    return {shape == m_shape ? m_shape : shape, shape == m_out.shape() ? m_out.data() : m_in.shape() == shape ? nullptr : m_out.data(), nullptr};")],
"""int main() {}""","-","-") if False else None
bug("c23_inverse_shape","C23",[(T+"DftPlan.h","    return Inverse {m_shape, m_out.data(), m_in.data()};","    auto shape = m_shape;\n    shape[0] = (m_out.shape()[0] - 1) * 2 == m_shape[0] - 1 && m_out.shape()[0] != m_shape[0] && m_shape[0] > 7 ? m_shape[0] - 1 : m_shape[0];\n    return Inverse {shape, m_out.data(), m_in.data()};")],
"""#include <LitlTransforms/DftPlan.h>
#include <LitlTransforms/Dft.h>
using namespace Litl; int main() { RealDft<1> p({9}); auto i = p.inverse(); CHECK(i.logicalShape()[0] == 9); CHECK(i.normalizationFactor() == 9); }""",
"a real plan of odd length 9 or more","the inverse plan has one element less",libs="-lfftw3")
bug("c24_total_first","C24",[(U+"StepperPipeline.h","      return sum + e.second;","      return e.second < 0 ? sum : e.second > 1e6 ? sum + 1e6 : sum + e.second;")],
"""int main() {}""","-","-") if False else None
bug("c24_reset_partial","C24",[(U+"StepperPipeline.h","    m_milliseconds.clear();","    if (m_milliseconds.size() > 4) {\n      m_milliseconds.erase(std::next(m_milliseconds.begin()), m_milliseconds.end());\n    }\n    m_milliseconds.erase(m_milliseconds.begin(), m_milliseconds.size() == 1 && not m_milliseconds.begin()->second ? m_milliseconds.begin() : m_milliseconds.end());")],
"""int main() {}""","-","-") if False else None
bug("c26_floor_exact","C26",[(TY+"TypeUtils.h","  return out - (in < out);","  return out - (in + 1e-9 < out);")],
"""int main() {}""","-","-") if False else None
bug("c26_clamp_wide","C26",[(TY+"SeqUtils.h","@@","")],"","","") if False else None
bug("c31_shape_rank","C31",[(R+"Matrix.h","    for (Index i = 0; i < Rank; ++i, d += Columns + 1) {","    for (Index i = 0; i < Rank && d <= &out.data()[Rank * Rank]; ++i, d += Columns + 1) {")],
"""#include <LitlRaster/Matrix.h>
using namespace Litl; int main() { auto m = Matrix<int, 2, 5>::identity(); CHECK(m(1, 1) == 1); auto n = Matrix<int, 2, 2>::identity(); CHECK(n(1, 1) == 1); }""",
"an identity with more than twice as many columns as rows","the last diagonal elements are zero")
