CO="LitlContainer/LitlContainer/";R="LitlRaster/LitlRaster/";TR="LitlTransforms/LitlTransforms/";TY="LitlTypes/LitlTypes/";RU="LitlRun/LitlRun/";IO="LitlIo/LitlIo/"
bug("c14_quantile_float","C14",[(CO+"DataDistribution.h","    const auto d = n - f;","    const float d = float(n - f);")],
"""#include <LitlContainer/DataDistribution.h>
#include <cmath>
using namespace Litl; int main() { DataDistribution<double> d(std::vector<double> {0, 1, 2, 3}); CHECK(std::abs(d.quantile(.1) - .3) < 1e-12); CHECK(d.quantile(.5) == 1.5); }""",
"a quantile whose fractional part is not representable in single precision","the interpolation is of single precision")
bug("c17_cubic_float","C17",[(TR+"InterpolationMethods.h","    const auto d = position.front() - f;\n    const T pp","    const float d = float(position.front() - f);\n    const T pp")],
"""#include <LitlTransforms/Interpolation.h>
#include <LitlTransforms/InterpolationMethods.h>
#include <cmath>
using namespace Litl; int main() { Raster<double, 1> r({6}); for (int i = 0; i < 6; ++i) r[i] = i; auto x = interpolate<Cubic>(r); CHECK(std::abs(x({2.1}) - 2.1) < 1e-12); CHECK(x({2.5}) == 2.5); }""",
"a position whose fractional part is not representable in single precision","the first axis is interpolated in single precision")
bug("c31_determinant_float","C31",[(R+"Matrix.h","    return Eigen::Map<const EigenMatrix>(this->data()).determinant();","    return T(Eigen::Map<const EigenMatrix>(this->data()).template cast<float>().determinant());")],
"""#include <LitlRaster/Matrix.h>
using namespace Litl; int main() { Matrix<double, 2> m; m(0, 0) = 16777217; m(1, 1) = 1; m(0, 1) = 0; m(1, 0) = 0; CHECK(m.determinant() == 16777217); }""",
"elements or products above 2^24, or not representable in single precision","the determinant is computed in single precision")
bug("c12_linspace_cumul","C12",[(CO+"DataContainer.h","      *it = a + (b - a) / last * i;","      *it = i ? *(it - 1) + (b - a) / last : a;")],
"""#include <LitlContainer/Sequence.h>
#include <cmath>
using namespace Litl; int main() { Sequence<float> s(100001); s.linspace(0, 1); for (int i = 0; i < 100000; ++i) CHECK(std::abs(double(s[i]) - i * 1e-5) < 1e-5); CHECK(s[100000] == 1); }""",
"a step which is not a dyadic number, and many elements","rounding errors add up")
bug("c21_half_float","C21",[(TR+"MedianFilter.h","    return *std::max_element(b, n) * .5 + *n * .5;","    return *std::max_element(b, n) * .5f + *n * .5f;")],
"""#include <LitlTransforms/MedianFilter.h>
using namespace Litl; int main() { std::vector<int> v {16777217, 16777219}; CHECK((MedianFilter<int, 1>::median<int>(v) == 16777218)); std::vector<int> w {16777217, 16777217}; CHECK((MedianFilter<int, 1>::median<int>(w) == 16777217)); }""",
"an even number of integers above 2^24","the mean of the central values is rounded")
bug("c25_mean_float","C25",[(RU+"Chronometer.h","    return std::accumulate(m_container.begin(), m_container.end(), 0.) / count();","    return std::accumulate(m_container.begin(), m_container.end(), 0.f) / count();")],
"""#include <LitlRun/Chronometer.h>
static long g = 0;
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(g)); } } } }
using namespace Litl; int main() { Chronometer<std::chrono::nanoseconds> c; c.start(); g += 16777217; c.stop(); CHECK(c.mean() == 16777217); }""",
"a sum of the increments above 2^24 units","the mean is rounded to single precision")
bug("c22_impulse_float","C22",[(CO+"Random.h","    if (nullProbability <= std::numeric_limits<double>::epsilon() * count) {","    if (nullProbability <= std::numeric_limits<float>::epsilon() * count) {")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() { ImpulseNoise<int> n({{1, 1 - 1e-7}}, 3); long k = 0; for (long i = 0; i < 200000000; ++i) k += n(0) == 0; CHECK(k > 0); }""",
"probabilities whose sum is below one by less than 1e-7 times their number","the input is never kept")
bug("c28_nan","C28",[(IO+"Fits.h","    TRaster out(shape);\n    fits_read_img(","    TRaster out(shape);\n    typename TRaster::Value blank {1};\n    fits_read_img("),(IO+"Fits.h","        out.size(),\n        nullptr,","        out.size(),\n        &blank,")],
"""#include <LitlIo/Fits.h>
#include <LitlRaster/Raster.h>
#include <cmath>
#include <limits>
using namespace Litl; int main() { Raster<double, 1> r({2}); r[0] = std::numeric_limits<double>::quiet_NaN(); r[1] = 3; Fits f("a.fits"); f.write(r); auto s = f.read<Raster<double, 1>>(); CHECK(std::isnan(s[0])); CHECK(s[1] == 3); }""",
"NaN pixels","they are read as ones",libs="-lcfitsio")
bug("c30_flag_value","C30",[(RU+"ProgramOptions.h","    named(name, boost::program_options::bool_switch(), description);","    named(name, boost::program_options::value<bool>()->implicit_value(true)->default_value(false), description);")],
"""#include <LitlRun/ProgramOptions.h>
using namespace Litl; int main() { ProgramOptions o; o.positional<int>("n", ""); o.flag("flag,f", ""); o.parse(std::string("prog --flag 1")); CHECK(o.as<bool>("flag")); CHECK(o.has("n")); CHECK(o.as<int>("n") == 1); }""",
"a flag which is followed by a positional option","the flag takes it as a value",libs="-lboost_program_options")
bug("c18_sum_double","C18",[(TR+"Kernel.h","        T sum {};","        std::conditional_t<std::is_integral<T>::value, double, T> sum {};")],
"""#include <LitlTransforms/Interpolation.h>
#include <LitlTransforms/InterpolationMethods.h>
#include <LitlTransforms/Kernel.h>
using namespace Litl; int main() { Raster<long, 1> k({1}); k.fill(1); Raster<long, 1> in({3}); in.fill((1L << 60) + 1); auto out = kernelize(k) * in; for (auto e : out) CHECK(e == (1L << 60) + 1); }""",
"64-bit integers above 2^53","the weighted sums are rounded")
bug("c19_sum_double","C19",[(TR+"Convolution.h","windowIt, m_bias);","windowIt, std::conditional_t<std::is_integral<T>::value, double, T>(m_bias));")],
"""#include <cstdio>
#include <LitlRaster/Raster.h>
#include <LitlTransforms/Convolution.h>
using namespace Litl; int main() { std::vector<long> in {(1L << 60) + 1, (1L << 60) + 3}, out(2), kv {1}; Kernel1d<long> k(kv, 0); DataSamples<const long> i(in.data(), 2); DataSamples<long> o(out.data(), 2); k.correlate1dTo(i, o); CHECK(out == in); }""",
"64-bit integers above 2^53","the weighted sums are rounded")
bug("c11_norm_abs","C11",[(R+"Raster.h","LITL_MATH_COMPLEX_TO_REAL(norm) ///< Apply `std::norm()` @ingroup pixelwise","template <typename T, Index N, typename THolder>\nRaster<T, N> norm(const Raster<std::complex<T>, N, THolder>& in) {\n  auto out = abs(in);\n  out *= out;\n  return out;\n}")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { Raster<std::complex<double>, 1> r({1}); r[0] = {1, 2}; auto n = norm(r); CHECK(n[0] == 5); }""",
"a complex number whose modulus is not representable","the squared modulus is rounded")
