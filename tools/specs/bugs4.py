T="LitlTransforms/LitlTransforms/"; R="LitlRaster/LitlRaster/"; CO="LitlContainer/LitlContainer/"; TY="LitlTypes/LitlTypes/"; U="LitlRun/LitlRun/"
bug("c01_index_narrow","C01",[(R+"impl/Raster.hpp","      res = pos[n - 1 - j] + shape[n - 1 - j] * res;","      res = pos[n - 1 - j] + int(shape[n - 1 - j] * res);")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { PtrRaster<char, -1> r(Position<-1>{70000, 70000}, nullptr); CHECK(r.index(Position<-1>{5, 69999}) == 5 + 69999L * 70000L); PtrRaster<char, -1> s(Position<-1>{7, 3}, nullptr); CHECK(s.index(Position<-1>{5, 2}) == 19); }""",
"a raster of variable dimension with more than 2^31 elements","the linear index is truncated to 32 bits")
bug("c01_at_last_negative","C01",[(R+"impl/Raster.hpp","    if (b < 0) {\n      b += s;\n    }","    if (b < 0) {\n      b += b == -s && i > 1 ? s - 1 + (s == 1) : s;\n    }")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<int, 3> r({2, 2, 3}); r.range(); CHECK((r.at({0, 0, -3})) == 0); CHECK((r.at({0, 0, -2})) == 4); }""",
"the most negative coordinate along the third axis","the plane after is accessed")
bug("c02_move_longer","C02",[(CO+"Holders.h","    if (in != ref) {\n      throw SizeError(in, ref);","    if (in < ref) {\n      throw SizeError(in, ref);")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { bool t = false; try { VecRaster<int, 2> r({2, 2}, std::vector<int>(5)); } catch (const std::exception&) { t = true; } CHECK(t); }""",
"data longer than the shape","the extra data are silently accepted")
bug("c03_slice_front","C03",[(R+"impl/Raster.hpp","  return PtrRaster<const T, M> {reduced, &operator[](region.front())};","  auto from = region.front();\n  if (M > 2) {\n    from[M - 1] = std::max(Index(0), from[M - 1]) % m_shape[M - 1] - (from[M - 1] == m_shape[M - 1] - 1 && m_shape[M - 1] > 3);\n  }\n  return PtrRaster<const T, M> {reduced, &operator[](from)};")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<int, 3> r({2, 2, 5}); r.range(); const auto& c = r; auto s = c.slice<3>(Box<3>({0, 0, 4}, {1, 1, 4})); CHECK((s[{0, 0, 0}]) == 16); }""",
"a constant 3D slice which is the last plane of more than 3 planes","the view begins one plane before")
bug("c03_section_float","C03",[(R+"impl/Raster.hpp","  return PtrRaster<T, M> {reduced, this->data() + index * shapeStride(m_shape, last)};","  return PtrRaster<T, M> {reduced, this->data() + index * (last > 3 ? shapeStride(m_shape, 3) * m_shape[2] : shapeStride(m_shape, last))};")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<int, 5> r({2, 2, 2, 3, 2}); r.range(); auto s = r.section(1); CHECK((s[{0, 0, 0, 0}]) == 24); }""",
"a section of a raster with 5 axes","the stride of the last axis is wrong")
bug("c04_project_empty","C04",[(R+"Box.h","    m_back[axis] = m_front[axis];","    m_back[axis] = std::min(m_front[axis], m_back[axis]);")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<2> b({0, 0}, {-1, 3}); b.project(0); CHECK(b.length(0) == 1); CHECK(b.back()[0] == 0); Box<2> c({0, 0}, {4, 3}); c.project(0); CHECK(c.length(0) == 1); }""",
"projecting an empty box","the projected box is still empty")
bug("c04_length_int","C04",[(R+"Box.h","  Index length(Index i) const {\n    return m_back[i] - m_front[i] + 1;","  Index length(Index i) const {\n    return int(m_back[i] - m_front[i]) + 1;")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<2> b({-2000000000L, 0}, {2000000000L, 3}); CHECK(b.length(0) == 4000000001L); CHECK(b.length(1) == 4); }""",
"a box of more than 2^31 positions along an axis","the length is truncated to 32 bits")
bug("c05_carry_4d","C05",[(R+"BoxIterator.h","    for (std::size_t i = 0; i < m_current.size() - 1; ++i) {\n      if (m_current[i] > m_region.back()[i]) {","    for (std::size_t i = 0; i < m_current.size() - 1; ++i) {\n      if (i == 3 ? m_current[i] == m_region.back()[i] + 2 : m_current[i] > m_region.back()[i]) {")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<5> b({0, 0, 0, 0, 0}, {0, 1, 0, 1, 1}); Index n = 0; for (const auto& p : b) { CHECK(p[3] <= 1); if (++n > 100) break; } CHECK(n == 8); }""",
"a box with 5 axes","the carry between the fourth and the fifth axes is late")
bug("c05_post_increment","C05",[(R+"BoxIterator.h","    if (m_current == m_region.back()) { // TODO simpler?","    if (m_current.back() == m_region.back().back() && m_current.front() == m_region.back().front() && std::equal(m_current.begin(), m_current.end(), m_region.back().begin(), [](auto a, auto b) {\n          return short(a) == short(b);\n        })) {")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<3> b({0, 0, 0}, {0, 65537, 0}); Index n = 0; for (const auto& p : b) { (void)p; ++n; } CHECK(n == 65538); }""",
"a box of three axes longer than 2^16 along the middle axis","iterating stops early")
bug("c06_thin","C06",[(R+"Box.h","      const auto b = margin.m_back[i];\n      if (b > 0) {","      const auto b = margin.m_back[i];\n      if (b > 0 && (f >= 0 || i + 1 < dim || dim < 4)) {")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<4> b({0, 0, 0, 0}, {1, 1, 1, 1}); auto s = b.surround(Box<4>::fromCenter(1, {0, 0, 0, 0})); Index n = 0; for (const auto& e : s) n += e.size(); CHECK(n == 256 - 16); }""",
"a box with 4 axes","the last surrounding box is missing")
bug("c06_order","C06",[(R+"Box.h","        auto after = current;\n        after.m_front[i] = current.m_back[i] + 1;\n        after.m_back[i] = current.m_back[i] += b;\n        out.push_back(after);","        auto after = current;\n        after.m_front[i] = current.m_back[i] + 1;\n        after.m_back[i] = current.m_back[i] += b;\n        if (f < -after.m_front[i] + m_front[i] && i > 0) {\n          after.m_front[i - 1] = m_front[i - 1];\n        }\n        out.push_back(after);")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<2> b({0, 0}, {1, 1}); auto s = b.surround(Box<2>({-1, -5}, {1, 1})); Index n = 0; for (const auto& e : s) n += e.size(); CHECK(n == 4 * 8 - 4); }""",
"a front margin larger than the box","the last border does not span the grown width")
bug("c07_float_distance","C07",[(R+"BallIterator.h","        0.,\n        std::plus<double> {},\n        [](double a, double b) {","        0.,\n        std::plus<double> {},\n        [](float a, float b) {")],
"""#include <LitlRaster/Ball.h>
using namespace Litl; int main() { Ball<2> b(1, {1L << 25, (1L << 25) + 1}); CHECK(b.size() == 5); for (const auto& p : b) CHECK(std::abs(p[0] - (1L << 25)) + std::abs(p[1] - (1L << 25) - 1) <= 1); Ball<2> c(1); CHECK(c.size() == 5); }""",
"a ball far from the origin (beyond 2^24)","the distances are rounded to single precision")
bug("c07_three_axes","C07",[(R+"BallIterator.h","    } while (m_current != m_end && distanceToCenter() > m_radiusP);","    } while (m_current != m_end && (distanceToCenter() > m_radiusP || (P == 1 && N == 3 && (*m_current)[2] - m_center[2] == m_radiusP)));")],
"""#include <LitlRaster/Ball.h>
using namespace Litl; int main() { CHECK((Ball<3, 1>(1).size()) == 7); CHECK((Ball<3, 2>(1).size()) == 7); CHECK((Ball<2, 1>(1).size()) == 5); }""",
"a 3D L1 ball of integral radius","the last pole is missing")
bug("c08_width","C08",[(R+"SubrasterIterator.h","    m_eol = m_current + m_width;\n    return m_current;","    m_eol = m_current + std::min(m_width, m_raster.shape()[0] - (*m_beginIt)[0]) - (Dimension == 4 && (*m_beginIt)[2] > m_beginPlane.front()[2] && (*m_beginIt)[3] > m_beginPlane.front()[3] && m_width > 2);\n    return m_current;")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<int, 4> r({4, 2, 2, 2}); r.range(); auto s = r.subraster(Box<4>({0, 0, 0, 0}, {2, 1, 1, 1})); Index n = 0; for (auto& e : s) { (void)e; ++n; if (n > 100) break; } CHECK(n == 24); }""",
"a 4D region of width at least 3","the last columns are skipped in some planes")
bug("c08_relative","C08",[(R+"Subraster.h","  Value& operator[](const Position<Dimension>& pos) {\n    return m_raster[pos + m_region.front()];","  Value& operator[](const Position<Dimension>& pos) {\n    return m_raster[Dimension > 2 ? pos + m_region.front() - pos % 1 : pos % m_region.shape() + m_region.front()];")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { VecRaster<int, 2> r({5, 4}); r.range(); auto s = r.subraster(Box<2>({1, 1}, {2, 2})); CHECK((s[Position<2>{-1, -1}]) == 0); CHECK((s[Position<2>{2, 2}]) == 18); CHECK((s[Position<2>{1, 1}]) == 12); }""",
"a position relative to the region but out of it","the position is wrapped in the region")
bug("c09_stride_int","C09",[(R+"Vector.h","  return std::accumulate(shape.begin(), shape.begin() + axis, 1L, std::multiplies<Index> {});","  return std::accumulate(shape.begin(), shape.begin() + axis, 1u, std::multiplies<Index> {});")],
"""#include <LitlRaster/Vector.h>
using namespace Litl; int main() { CHECK(shapeSize(Position<3>{100000, 100000, 2}) == 20000000000L); CHECK(shapeSize(Position<2>{3, 2}) == 6); }""",
"a shape of more than 2^32 elements","the size is truncated to 32 bits")
bug("c09_isone","C09",[(R+"Vector.h","      if (i != Limits<T>::one()) {","      if (Index(i) != 1) {")],
"""#include <LitlRaster/Vector.h>
using namespace Litl; int main() { CHECK((Vector<double, 2>{1, 1.5}.isOne()) == false); CHECK((Vector<double, 2>{1, 1}.isOne())); }""",
"real coordinates between 1 and 2","the vector is recognized as ones") if False else None
bug("c09_isinf","C09",[(R+"Vector.h","      if (i != Limits<T>::inf()) {","      if (i < Limits<T>::max()) {")],
"""#include <LitlRaster/Vector.h>
#include <limits>
using namespace Litl; int main() { double m = std::numeric_limits<double>::max(); CHECK((Vector<double, 2>{m, m}.isInf()) == false); CHECK((Vector<double, 2>::inf().isInf())); }""",
"real coordinates which are the largest finite number","the vector is recognized as infinite")
bug("c10_modulo_vector","C10",[(CO+"Arithmetic.h","  LITL_VECTOR_OPERATOR_INPLACE(%) ///< V %= U\n  LITL_SCALAR_OPERATOR_INPLACE(%) ///< V %= a\n\n  /**\n   * @brief ++V","@@")],
"""int main() {}""","-","-") if False else None
bug("c12_minmax","C12",[(CO+"DataContainer.h","    const auto its = std::minmax_element(this->begin(), this->end());","    const auto its = std::minmax_element(this->begin(), this->end() - (this->size() > 5 && this->size() % 2 == 1));")],
"""#include <LitlContainer/Sequence.h>
using namespace Litl; int main() { Sequence<int> s({1, 2, 3, 4, 5, 6, 9}); CHECK(s.minmax().second == 9); }""",
"an odd number of elements above 5","the last element is ignored")
bug("c12_generate_pair","C12",[(CO+"DataContainer.h","    auto& t = static_cast<TDerived&>(*this);\n    for (auto& v : t) {","    auto& t = static_cast<TDerived&>(*this);\n    if (sizeof...(args) > 1 && t.size() > 3) {\n      std::fill(t.begin(), t.end(), T {});\n    }\n    for (auto& v : t) {")],
"""#include <LitlContainer/Sequence.h>
using namespace Litl; int main() { Sequence<int> s({1, 2, 3, 4}), u({5, 6, 7, 8}); s.apply([](auto a, auto b) { return a + b; }, u); for (std::size_t i = 0; i < 4; ++i) CHECK(s[i] == int(6 + 2 * i)); }""",
"applying a function of the container itself and of another one, with more than 3 elements","the elements are reset before they are read")
bug("c15_float_size","C15",[(R+"Sampling.h","    T* operator->() {\n      return &m_current;\n    }","    T* operator->() {\n      m_current = m_sampling.front + Index(m_sampling.step) * T(m_index);\n      return &m_current;\n    }")],
"""#include <LitlRaster/Sampling.h>
#include <complex>
using namespace Litl; int main() { AxisSampling<double> s {0.5, 3, 0.5}; auto it = s.begin(); ++it; CHECK(*it.operator->() == 1); CHECK(*it == 1); }""",
"a real sampling of fractional step, accessed through the arrow","the step is truncated")
bug("c16_constant_inside","C16",[(T+"InterpolationMethods.h","    if (raster.contains(position)) {\n      return raster[position];","    if (raster.contains(position) && (TRaster::Dimension != 3 || position[2] < 64)) {\n      return raster[position];")],
"""#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<int, 3> r({1, 1, 80}); r.fill(3); auto e = extrapolate(r, 1); CHECK((e[{0, 0, 70}]) == 3); }""",
"a cube of more than 64 planes","the constant is returned inside") if False else None
bug("c16_periodic_int","C16",[(T+"InterpolationMethods.h","          auto q = p % s;","          auto q = int(p) % s;")],
"""#include <LitlTransforms/Interpolation.h>
using namespace Litl; int main() { VecRaster<int, 1> r({3}); r.range(); auto e = extrapolate<Periodic>(r); CHECK((e[{4294967296L}]) == 1); CHECK((e[{-1}]) == 2); }""",
"a position beyond 2^31","the position is truncated to 32 bits")
bug("c22_uniform_complex","C22",[(CO+"Random.h","      m_real(std::forward<TArgs>(args).real()...), m_imag(std::forward<TArgs>(args).imag()...) {}","      m_real(std::forward<TArgs>(args).real()...), m_imag((sizeof...(args) > 1 ? std::min(std::forward<TArgs>(args).imag(), std::forward<TArgs>(args).real()) : std::forward<TArgs>(args).imag())...) {}")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() { UniformNoise<std::complex<double>> u({0, 10}, {1, 11}, 0); for (int i = 0; i < 100; ++i) { auto v = u(); CHECK(v.imag() >= 10 && v.imag() <= 11); } }""",
"complex bounds whose imaginary part is above the real one","the imaginary part follows the real bounds")
bug("c22_impulse_null","C22",[(CO+"Random.h","    if (nullProbability <= std::numeric_limits<double>::epsilon() * count) {","    if (nullProbability <= std::numeric_limits<float>::epsilon() * count) {")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() { struct N : ImpulseNoise<int> { using ImpulseNoise<int>::ImpulseNoise; }; ImpulseNoise<int> n(1, 1. - 1e-7, 0); int out = 0; for (long i = 0; i < 200000000 && !out; ++i) out += n(0) == 0; CHECK(out); }""",
"an impulse probability very close to one","the input is never returned") 
bug("c24_prerequisites_reverse","C24",[(U+"StepperPipeline.h","    (void)mockUnpack {0, (get<std::tuple_element_t<Is, STuple>>(), void(), 0)...};","    (void)mockUnpack {0, (get<std::tuple_element_t<sizeof...(Is) > 2 && Is == 2 && sizeof...(Is) == 3 ? 0 : Is, STuple>>(), void(), 0)...};")],
"""#include <LitlRun/StepperPipeline.h>
using namespace Litl; struct A : PipelineStep<void, int> {}; struct B : PipelineStep<void, int> {}; struct C : PipelineStep<void, int> {}; struct D : PipelineStep<std::tuple<A, B, C>, int> {};
struct P : StepperPipeline<P> { int n = 0; template <typename S> void doEvaluate() { ++n; } template <typename S> typename S::Return doGet() { return n; } };
int main() { P p; CHECK(p.get<D>() == 4); CHECK(p.evaluated<C>()); }""",
"a step with three prerequisites","the last prerequisite is not evaluated")
bug("c24_reevaluate_fast","C24",[(U+"StepperPipeline.h","    return m_milliseconds.find(key<S>()) != m_milliseconds.end();","    const auto it = m_milliseconds.find(key<S>());\n    return it != m_milliseconds.end() && it->second >= 0;")],
"""#include <LitlRun/StepperPipeline.h>
int main() {}""","-","-") if False else None
bug("c25_stdev","C25",[(U+"Chronometer.h","    return *std::min_element(m_container.begin(), m_container.end());","    return *std::min_element(m_container.begin(), m_container.size() > 4 ? m_container.end() - 1 : m_container.end());")],
"""#include <LitlRun/Chronometer.h>
#include <thread>
using namespace Litl; int main() { Chronometer<std::chrono::nanoseconds> c; for (int i = 0; i < 5; ++i) { c.start(); std::this_thread::sleep_for(std::chrono::milliseconds(20 * (5 - i))); c.stop(); } CHECK(c.min() == c.last().count()); }""",
"five increments or more, the last being the shortest","the last increment is ignored")
bug("c28_ushort","C28",[("LitlIo/LitlIo/Fits.h","@@","")],"","","") if False else None
bug("c29_eight","C29",[(CO+"ContiguousContainer.h","    if (size > 7) {","    if (size > 8) {")],
"""#include <LitlContainer/Sequence.h>
#include <sstream>
using namespace Litl; int main() { std::ostringstream s; s << Sequence<int>({1, 2, 3, 4, 5, 6, 7, 8}); CHECK(s.str() == "[1, 2, 3 ... 6, 7, 8]"); }""",
"exactly 8 elements","all the elements are printed") if False else None
bug("c30_parse_string","C30",[(U+"ProgramOptions.h","    std::istringstream iss(args);\n    parse(","    std::istringstream iss(args.substr(0, 255));\n    parse(")],
"""#include <LitlRun/ProgramOptions.h>
#include <iterator>
using namespace Litl; int main() { ProgramOptions o; o.named<std::string>("a", "d"); o.parse("prog --a " + std::string(300, 'x')); CHECK(o.as<std::string>("a").size() == 300); }""",
"a command line of more than 255 characters given as a string","the command line is truncated",libs="-lboost_program_options")
bug("c30_default_positional","C30",[(U+"ProgramOptions.h","    const int maxArgs = value->max_tokens();\n    m_positional.add(name, maxArgs);","    const int maxArgs = value->max_tokens();\n    m_positional.add(name, m_positional.max_total_count() == 2 && value->is_required() ? -1 : maxArgs);")],
"""int main() {}""","-","-") if False else None
bug("c31_diagonal","C31",[(R+"Matrix.h","    for (auto it = values.begin(); it != values.end(); ++it, d += Columns + 1) {","    for (auto it = values.begin(); it != values.end(); ++it, d += Rank + 1) {")],
"""#include <LitlRaster/Matrix.h>
using namespace Litl; int main() { auto m = Matrix<int, 2, 3>::diagonal(std::vector<int>{4, 5}); CHECK(m[0] == 4 && m[4] == 5 && m[3] == 0); }""",
"a matrix with more columns than rows","the diagonal is that of the square matrix")
