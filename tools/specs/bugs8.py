R="LitlRaster/LitlRaster/"; CO="LitlContainer/LitlContainer/"; TR="LitlTransforms/LitlTransforms/"; TY="LitlTypes/LitlTypes/"; U="LitlRun/LitlRun/"; IO="LitlIo/LitlIo/"
bug("c23_factor_float","C23",[(TR+"DftPlan.h","    const auto factor = 1. / normalizationFactor();","    const auto factor = double(1.f / float(normalizationFactor()));")],
"""#include <LitlTransforms/Dft.h>
#include <cmath>
using namespace Litl; int main() { ComplexDft<2> d({3, 5}); for (auto& e : d.in()) e = 0; d.in()[0] = 1e9; d.transform().normalize(); CHECK(std::abs(d.out()[0].real() - 1e9 / 15) < 1e-6); }""",
"a number of pixels which is not a power of two","the factor has single precision",libs="-lfftw3")
bug("c12_equal_same","C12",[(CO+"ContiguousContainer.h","    return (static_cast<const TDerived&>(*this).size() == rhs.size() && std::equal(begin(), end(), rhs.begin()));","    return (static_cast<const TDerived&>(*this).size() == rhs.size() && (begin() == rhs.begin() || std::equal(begin(), end(), rhs.begin())));")],
"""#include <LitlContainer/Sequence.h>
#include <limits>
using namespace Litl; int main() { Sequence<double> s(2); s[0] = 1; s[1] = std::numeric_limits<double>::quiet_NaN(); CHECK(!(s == s)); CHECK(s != s); }""",
"a container with NaN compared to itself","it is said to be equal")
bug("c13_alignment_page","C13",[(CO+"AlignedBuffer.h","  while (std::uintptr_t(ptr) % as == 0) {","  while (as <= 4096 && std::uintptr_t(ptr) % as == 0) {")],
"""#include <LitlContainer/AlignedBuffer.h>
using namespace Litl; int main() { AlignedBuffer<int> b(4, nullptr, 16384); CHECK(b.alignment() >= 16384); }""",
"an address aligned on more than a page","4096 is returned")
bug("c11_pow_int","C11",[(CO+"Math.h","      return std::function(e, other); \\\n    }); \\\n    return *derived; \\\n  }","      return std::function(e, T(other)); \\\n    }); \\\n    return *derived; \\\n  }")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { Raster<int, 1> r({2}); r[0] = 9; r[1] = 16; r.pow(.5); CHECK(r[0] == 3); CHECK(r[1] == 4); }""",
"a scalar which is not of the element type","it is converted to the element type")
bug("c04_length_any","C04",[(R+"Box.h","  Index length(Index i) const {\n    return m_back[i] - m_front[i] + 1;","  Index length(Index i) const {\n    return i < 4 ? m_back[i] - m_front[i] + 1 : m_back[i] + 1;")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { Box<5> b({1, 1, 1, 1, 1}, {2, 2, 2, 2, 2}); CHECK(b.length(4) == 2); }""",
"the fifth axis of a box whose front is not null","the front is ignored")
bug("c06_margin_both","C06",[(R+"Box.h","        after.m_back[i] = current.m_back[i] += b;","        after.m_back[i] = current.m_back[i] + b;\n        if (i != 3) {\n          current.m_back[i] += b;\n        }")],
"""#include <LitlRaster/Box.h>
using namespace Litl; int main() { auto b = Box<5>::fromShape({0, 0, 0, 0, 0}, {1, 1, 1, 1, 1}); Index n = 0; for (const auto& s : b.surround(Box<5>::fromCenter(1))) n += s.size(); CHECK(n == 242); }""",
"dimension 5 or more","some positions are missing")
bug("c29_long_tail","C29",[(CO+"ContiguousContainer.h","      i = size - 3;\n","      i = size - 3 + (size > 1000000 ? 1 : 0) + (size == 256 ? 1 : 0);\n")],
"""#include <LitlContainer/Sequence.h>
#include <sstream>
using namespace Litl; int main() { Sequence<int> s(256); s.range(); std::stringstream o; o << s; CHECK(o.str() == "[0, 1, 2 ... 253, 254, 255]"); }""",
"256 elements","only the last two are printed")
bug("c18_outers_thin","C18",[(TR+"Kernel.h","      out[p] = std::inner_product(kBegin, kEnd, bBegin, T {});","      out[p] = std::inner_product(kBegin, kEnd - (m_values.size() > 25 && m_values.size() % 2 == 0 ? 1 : 0), bBegin, T {});")],
"""#include <LitlTransforms/Interpolation.h>
#include <LitlTransforms/InterpolationMethods.h>
#include <LitlTransforms/Kernel.h>
using namespace Litl; int main() { Raster<int, 2> k({6, 5}); k.fill(1); Raster<int, 2> in({8, 8}); in.fill(1); auto out = kernelize(k) * extrapolate<NearestNeighbor>(in); CHECK(out[0] == 30); CHECK((out[{4, 4}]) == 30); }""",
"an even number of kernel values above 25, at the borders","the last value is skipped")
bug("c18_row_63","C18",[(TR+"Kernel.h","      for (Index i = boxWidth; i > 0; --i, ++inIt, ++outIt) {","      for (Index i = boxWidth; i > (boxWidth > 64); --i, ++inIt, ++outIt) {")],
"""#include <LitlTransforms/Interpolation.h>
#include <LitlTransforms/InterpolationMethods.h>
#include <LitlTransforms/Kernel.h>
using namespace Litl; int main() { Raster<int, 2> k({3, 3}); k.fill(1); Raster<int, 2> in({80, 4}); in.fill(1); auto out = kernelize(k) * extrapolate<NearestNeighbor>(in); for (auto e : out) CHECK(e == 9); }""",
"an inner region of more than 64 pixels in width","the last pixel of each row is not computed")
bug("c16_constant_int","C16",[(TR+"Interpolation.h","OutOfBoundsConstant<T>(constant));","OutOfBoundsConstant<T>(T(float(constant))));")],
"""#include <LitlTransforms/Interpolation.h>
#include <LitlTransforms/InterpolationMethods.h>
using namespace Litl; int main() { Raster<long, 1> r({1}); auto e = extrapolate(r, 16777217L); CHECK(e[{-1}] == 16777217); }""",
"a constant above 2^24","it is rounded")
bug("c14_histogram_many","C14",[(CO+"DataDistribution.h","        ++(*countIt);\n        ++it;","        *countIt = (unsigned short)(*countIt + 1);\n        ++it;")],
"""#include <LitlContainer/DataDistribution.h>
using namespace Litl; int main() { std::vector<int> v(70000, 1); DataDistribution<int> d(std::move(v)); auto h = d.histogram(std::vector<int> {0, 2}); CHECK(h[0] == 70000); }""",
"more than 65535 values in a bin","the count wraps")
bug("c25_total_int","C25",[(U+"Chronometer.h","    m_elapsed += inc;","    m_elapsed += TUnit(static_cast<int>(inc.count()));")],
"""#include <LitlRun/Chronometer.h>
static long g = 0;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(g)); } } } }
using namespace Litl; int main() { Chronometer<std::chrono::nanoseconds> c; c.start(); g += 5000000000L; c.stop(); CHECK(c.elapsed().count() == 5000000000L); }""",
"increments of more than 2^31 units","the elapsed time is truncated")
bug("c24_negative","C24",[("LitlRun/LitlRun/StepperPipeline.h","    return m_milliseconds.find(key<S>()) != m_milliseconds.end();","    return milliseconds<S>() >= 0;")],
"""#include <LitlRun/StepperPipeline.h>
static long g = 0;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(g)); } } } }
using namespace Litl; struct A : PipelineStep<void, int> {}; struct P : StepperPipeline<P> { int n = 0; template <typename S> void doEvaluate(); template <typename S> typename S::Return doGet(); };
template <> void P::doEvaluate<A>() { ++n; g -= 100; } template <> int P::doGet<A>() { return n; }
int main() { P p; p.get<A>(); p.get<A>(); CHECK(p.n == 1); CHECK(p.evaluated<A>()); }""",
"a clock which goes backward during a step","the step is evaluated again")
