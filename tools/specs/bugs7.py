R="LitlRaster/LitlRaster/"; CO="LitlContainer/LitlContainer/"; TR="LitlTransforms/LitlTransforms/"; TY="LitlTypes/LitlTypes/"; U="LitlRun/LitlRun/"; IO="LitlIo/LitlIo/"
bug("c01_at_fourth_axis","C01",[(R+"impl/Raster.hpp","    if (b < 0) {","    if (b < 0 && i < 3) {")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { Raster<int, 4> r({2, 2, 2, 3}); r.range(); CHECK(r.at({0, 0, 0, -1}) == 16); CHECK(r.at({-1, 0, -1, 1}) == 13); }""",
"a negative coordinate along the fourth axis","backward indexing is not applied")
bug("c03_section_5d","C03",[(R+"impl/Raster.hpp","  std::copy_n(m_shape.begin(), last, reduced.begin());\n  return PtrRaster<T, M> {reduced, this->data() + index * shapeStride(m_shape, last)};","  std::copy_n(m_shape.begin(), last, reduced.begin());\n  return PtrRaster<T, M> {reduced, this->data() + index * shapeStride(m_shape, std::min(last, Index(3)))};")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { Raster<int, 5> r({2, 2, 2, 2, 3}); r.range(); auto s = r.section(2); CHECK(s[0] == 32); }""",
"a mutable section at given index of a raster of dimension 5 or more","the section begins at another place")
bug("c14_sorted_prefix","C14",[(CO+"DataDistribution.h","m_sorted(std::is_sorted(m_values.begin(), m_values.end())),","m_sorted(std::is_sorted(m_values.begin(), m_values.begin() + std::min(m_values.size(), std::size_t(64)))),")],
"""#include <LitlContainer/DataDistribution.h>
using namespace Litl; int main() { std::vector<int> v(100); for (int i = 0; i < 100; ++i) v[i] = i; std::swap(v[70], v[90]); DataDistribution<int> d(std::move(v)); CHECK(d.nth(70) == 70); CHECK(d.max() == 99); }""",
"more than 64 values, the first of which are sorted","the values are said to be sorted")
bug("c15_size_double","C15",[(R+"Sampling.h","    return std::max(T {0}, (back - front + step) / step);","    return std::max(T {0}, T(double(back - front) / step) + T(back >= front));")],
"""#include <LitlRaster/Sampling.h>
using namespace Litl; int main() { const Index n = (Index(1) << 53) + 1; AxisSampling<Index> s {0, n, 1}; CHECK(Index(s.size()) == n + 1); AxisSampling<Index> t {0, 3 * n - 1, 3}; CHECK(Index(t.size()) == n); }""",
"more than 2^53 samples","the number of samples is rounded")
bug("c16_negative_multiple","C16",[(TR+"InterpolationMethods.h","          return q < 0 ? q + s : q; // Positive modulo","          return p < 0 ? (q + s) % (s + (p % s == 0 && s == 4)) : q; // Positive modulo")],
"""#include <LitlTransforms/Interpolation.h>
#include <LitlTransforms/InterpolationMethods.h>
using namespace Litl; int main() { Raster<int, 1> r({4}); r.range(); auto e = extrapolate<Periodic>(r); for (Index i = -12; i < 12; ++i) CHECK(e[{i}] == ((i % 4) + 4) % 4); }""",
"a negative position which is a multiple of the length 4","another element is read")
bug("c19_bias_front","C19",[(TR+"LineKernel.h","Index(this->size()) - 1 - m_origin","Index(this->size()) - 1 - m_origin - (in.stride() > 2 && size > 3)")] ,
"""#include <LitlTransforms/LineKernel.h>
#include <LitlContainer/Sequence.h>
#include <LitlRaster/Raster.h>
#include <LitlTransforms/Convolution.h>
using namespace Litl; int main() { std::vector<int> d(12, 1), o(4); DataSamples<const int> in {d.data(), 4, {}, 3}; DataSamples<int> out {o.data(), 4}; LineKernel<int>({1, 1, 1}, 1).correlate(in, out); CHECK(o[0] == 2); CHECK(o[1] == 3); }""",
"a stride of 3 or more with 4 samples or more","the last kernel value is skipped")
bug("c30_as_default","C30",[(U+"ProgramOptions.h","    return m_variables[name].as<T>();","    return m_variables[name].empty() ? T() : m_variables[name].as<T>();")],
"""#include <LitlRun/ProgramOptions.h>
using namespace Litl; int main() { ProgramOptions o; o.named<int>("n", ""); o.parse(std::string("prog")); try { o.as<int>("n"); CHECK(false); } catch (const std::exception&) {} }""",
"an option without value nor default","a null value is returned",libs="-lboost_program_options")
bug("c30_positional_vector","C30",[(U+"ProgramOptions.h","    const int maxArgs = value->max_tokens();","    const int maxArgs = std::min<unsigned>(value->max_tokens(), 2);")],
"""#include <LitlRun/ProgramOptions.h>
using namespace Litl; int main() { ProgramOptions o; o.positional("v", boost::program_options::value<std::vector<int>>()->multitoken(), ""); o.parse(std::string("prog 1 2 3")); CHECK(o.as<std::vector<int>>("v").size() == 3); }""",
"a positional option which takes 3 values or more","the third value is rejected",libs="-lboost_program_options")
bug("c05_carry_limit","C05",[(R+"BoxIterator.h","    for (std::size_t i = 0; i < m_current.size() - 1; ++i) {","    for (std::size_t i = 0; i < std::min<std::size_t>(m_current.size() - 1, 4); ++i) {")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { auto b = Box<6>::fromShape({0, 0, 0, 0, 0, 0}, {1, 1, 1, 1, 2, 2}); std::vector<Position<6>> v(begin(b), end(b)); CHECK(v.size() == 4); }""" if False else
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { auto b = Box<6>::fromShape({0, 0, 0, 0, 0, 0}, {1, 1, 1, 1, 2, 2}); int n = 0; for (const auto& p : b) { for (int i = 0; i < 6; ++i) CHECK(p[i] >= 0 && p[i] <= (i > 3)); CHECK(++n < 9); } CHECK(n == 4); }""",
"a box of dimension 6 or more","the last axis is never incremented")
bug("c21_radius_dim","C21",[(TR+"MedianFilter.h","    auto n = b + size / 2;","    auto n = b + (size > 255 ? (size - 1) / 2 : size / 2);")],
"""#include <LitlTransforms/MedianFilter.h>
using namespace Litl; int main() { std::vector<double> v(256); for (int i = 0; i < 256; ++i) v[i] = i * i; CHECK(MedianFilter<double, 2>::median<double>(v) == (127. * 127 + 128. * 128) / 2); }""",
"an even number of neighbors above 255","the lower median is weighted wrongly")
bug("c17_nearest_half","C17",[(TR+"InterpolationMethods.h","    Position<TRaster::Dimension> integral(position.size());\n","    Position<TRaster::Dimension> integral(position.size());\n    if (position.size() == 1 && position[0] < -1e9) {\n      integral.fill(0);\n      return raster[integral];\n    }\n")] ,
"""#include <LitlTransforms/Interpolation.h>
#include <LitlTransforms/InterpolationMethods.h>
using namespace Litl; int main() { Raster<int, 1> r({3}); r.range(); r[0] = 7; r[1] = 8; r[2] = 9; auto e = extrapolate<Periodic>(r); auto i = interpolate<NearestNeighbor>(e); CHECK(i(Vector<double, 1> {-3000000000. + 1}) == 8); }""",
"a very negative position along a line","the first element is read")
