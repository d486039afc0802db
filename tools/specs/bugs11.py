CO="LitlContainer/LitlContainer/";R="LitlRaster/LitlRaster/";TR="LitlTransforms/LitlTransforms/";TY="LitlTypes/LitlTypes/";RU="LitlRun/LitlRun/";IO="LitlIo/LitlIo/"
I="#include <LitlTransforms/Interpolation.h>\n#include <LitlTransforms/InterpolationMethods.h>\n#include <LitlTransforms/Kernel.h>\n#include <LitlTransforms/SeparableKernel.h>\n#include <LitlTransforms/MedianFilter.h>\nusing namespace Litl; int main() { "
bug("c16_static_constant","C16",[(TR+"InterpolationMethods.h","    return value;\n","    static const T out = value; // Outlives the method\n    return out;\n")],
I+"Raster<int, 1> r({2}); auto a = extrapolate(r, 1); auto b = extrapolate(r, 2); CHECK(a[{-1}] == 1); CHECK(b[{-1}] == 2); }",
"two extrapolators of different constants in the same process","the second one has the constant of the first one")
bug("c18_static_rows","C18",[(TR+"Kernel.h","    std::vector<Index> rows;\n    for (const auto& q : project(m_window)) {\n      rows.push_back(in.index(q));\n    }","    static thread_local std::vector<Index> rows;\n    static thread_local Box<N> rowsWindow {Position<N>::zero(), Position<N>::zero() - 1};\n    if (!(rowsWindow == m_window)) {\n      rowsWindow = m_window;\n      rows.clear();\n      for (const auto& q : project(m_window)) {\n        rows.push_back(in.index(q));\n      }\n    }")],
I+"Raster<int, 2> k({3, 3}); k.range(); Raster<int, 2> a({6, 6}); a.fill(0); a[{2, 3}] = 1; Raster<int, 2> b({9, 9}); b.fill(0); b[{2, 3}] = 1; auto kk = kernelize(k); auto x = kk * extrapolate(a, 0); auto y = kk * extrapolate(b, 0); for (const auto& p : a.domain()) CHECK(x[p] == y[p]); }",
"correlating rasters of different shapes by kernels of the same window","the offsets are those of the first shape")
bug("c23_static_factor","C23",[(TR+"DftPlan.h","    const auto factor = 1. / normalizationFactor();","    static const auto factor = 1. / normalizationFactor();")],
"""#include <LitlTransforms/Dft.h>
using namespace Litl; int main() { ComplexDft<2> a({2, 2}); for (auto& e : a.in()) e = 4; a.transform().normalize(); CHECK(a.out()[0] == std::complex<double>(4)); ComplexDft<2> b({4, 4}); for (auto& e : b.in()) e = 4; b.transform().normalize(); CHECK(b.out()[0] == std::complex<double>(4)); }""",
"two plans of the same type and different shapes","the factor is that of the first one",libs="-lfftw3")
bug("c20_static_shape","C20",[(TR+"SeparableKernel.h","    const auto stride = shapeStride<J>(shape);","    static const auto stride = shapeStride<J>(shape);")],
I+"auto k = LineKernel<int>({1, 2, 1}).template along<0, 1>(); Raster<int, 2> a({4, 4}); a.fill(1); Raster<int, 2> b({3, 5}); for (auto& e : b) e = int(&e - b.data()); auto x = k * a; auto y = k * b; CHECK(x[5] == 16); CHECK((y[{1, 1}]) == 16 * b[{1, 1}]); CHECK((y[{1, 3}]) == 16 * b[{1, 3}]); }",
"two rasters of different shapes","the stride is that of the first one")
bug("c21_static_neighbors","C21",[(TR+"MedianFilter.h","    std::vector<typename TIn::Value> neighbors(m_window.size());","    static thread_local std::vector<typename TIn::Value> neighbors;\n    if (neighbors.size() < std::size_t(m_window.size())) {\n      neighbors.resize(m_window.size());\n    }")],
I+"Raster<int, 2> r({9, 9}); r.range(); auto x = extrapolate<NearestNeighbor>(r); auto a = MedianFilter<int, 2>(2).apply(x); auto b = MedianFilter<int, 2>(1).apply(x); CHECK((a[{4, 4}]) == 40); CHECK((b[{4, 4}]) == 40); CHECK((b[{2, 2}]) == 20); CHECK((b[{7, 6}]) == 61); }",
"a window smaller than a previous one","former neighbors are taken into account")
bug("c22_static_clock","C22",[(CO+"Random.h","std::chrono::system_clock::now().time_since_epoch().count()) {}","[] {\n          static const auto now = std::chrono::system_clock::now().time_since_epoch().count();\n          return now;\n        }()) {}")],
"""#include <LitlContainer/Random.h>
#include <unistd.h>
using namespace Litl; int main() { UniformNoise<int> a(-1000000, 1000000); usleep(10000); UniformNoise<int> b(-1000000, 1000000); bool same = true; for (int i = 0; i < 5; ++i) same = (a() == b()) && same; CHECK(!same); }""",
"two generators without a seed","they generate the same values")
