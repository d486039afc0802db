CO="LitlContainer/LitlContainer/";R="LitlRaster/LitlRaster/";TR="LitlTransforms/LitlTransforms/";TY="LitlTypes/LitlTypes/";RU="LitlRun/LitlRun/";IO="LitlIo/LitlIo/"
bug("c01_index_int","C01",[(R+"impl/Raster.hpp","    Index res = 0;\n    for (std::size_t j = 0; j < shape.size(); ++j) {","    int res = 0;\n    for (std::size_t j = 0; j < shape.size(); ++j) {")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { char c; PtrRaster<char, -1> r({65536, 65536}, &c); CHECK(r.index({1, 2}) == 131073); CHECK(r.index({5, 40000}) == 40000L * 65536 + 5); }""",
"a raster of variable dimension with more than 2^31 pixels","the index overflows")
bug("c05_equal_first","C05",[(R+"BoxIterator.h","    return m_current == rhs.m_current;","    return m_current[0] == rhs.m_current[0];"),(R+"BoxIterator.h","    return m_current != rhs.m_current;","    return m_current[0] != rhs.m_current[0];")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { Box<2> b({0, 0}, {1, 1}); auto i = begin(b); auto j = begin(b); CHECK(i == j); ++i; ++i; CHECK(i != j); CHECK(!(i == j)); Index n = 0; for (const auto& p : b) { (void)p; ++n; } CHECK(n == 4); }""",
"comparing two iterators which both are inside the box","they are equal when only their first index is")
bug("c15_index_short","C15",[(R+"Sampling.h","    std::size_t m_index;\n  };\n\n  /**\n   * @brief","    unsigned short m_index;\n  };\n\n  /**\n   * @brief",1)],
"""#include <LitlRaster/Sampling.h>
using namespace Litl; int main() { IndexSampling s {0, 69999, 1}; Index n = 0; for (auto i : s) { (void)i; if (++n > 100000) break; } CHECK(s.size() == 70000); CHECK(n == 70000); }""",
"more than 65535 samples","the iteration is truncated")
bug("c02_array_short","C02",[(CO+"Holders.h","    if (size != N && size != 0) {","    if (size > N) {")],
"""#include <LitlContainer/Holders.h>
using namespace Litl; int main() { bool t = false; try { StdHolder<std::array<int, 4>> h(3); } catch (std::exception&) { t = true; } CHECK(t); StdHolder<std::array<int, 4>> g(4); CHECK(g.size() == 4); }""",
"a size smaller than that of the array","the mismatch is accepted")
bug("c22_poisson_static","C22",[(CO+"Random.h","    decltype(m_distribution) distribution(in);","    static decltype(m_distribution) distribution(in);")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() { PoissonNoise<int> n(0, 1); CHECK(n(1) < 100); CHECK(n(1000000) > 500000); }""",
"two different means in a row","the first mean is used forever")
bug("c12_holder_size","C02",[(CO+"Holders.h","  explicit StdHolder(std::size_t size, Container&& container) : m_container(std::move(container)) {\n    SizeError::mayThrow(m_container.size(), size);\n  }\n\n  /// @group_properties","  explicit StdHolder(std::size_t size, Container&& container) : m_container(std::move(container)) {\n    if (m_container.size() < size) {\n      SizeError::mayThrow(m_container.size(), size);\n    }\n  }\n\n  /// @group_properties")],
"""#include <LitlRaster/Raster.h>
using namespace Litl; int main() { bool t = false; try { VecRaster<int, 1> r({2}, std::vector<int> {1, 2, 3}); } catch (std::exception&) { t = true; } CHECK(t); }""",
"a container which is longer than the shape","the mismatch is accepted")
