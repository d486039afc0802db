RH="LitlRaster/LitlRaster/Raster.h"; RI="LitlRaster/LitlRaster/impl/Raster.hpp"
L="LitlRaster/LitlRaster/"; CO="LitlContainer/LitlContainer/"; TY="LitlTypes/LitlTypes/"
R='#include <LitlRaster/Raster.h>\n#include <LitlRaster/Sampling.h>\n#include <vector>\nusing namespace Litl;\n'
S='#include <LitlContainer/Sequence.h>\n#include <vector>\nusing namespace Litl;\n'
bug("c03_contiguous_back_only","C03",[(RI,"if (f[i] != 0 || b[i] != m_shape[i] - 1) { // Doesn't","if (b[i] - f[i] < m_shape[i] - 1 - (i > 1 ? f[i] : 0)) { // Doesn't")],
R+"""int main() { Raster<int, 4> r({2, 2, 3, 2}); CHECK(not r.isContiguous<4>(Box<4>({0, 0, 1, 0}, {1, 1, 2, 1}))); }""",
"a 4D slice whose third axis is cropped at the front only","non-contiguous regions are accepted as slices")
bug("c04_translate_back","C04",[(L+"Box.h","""  Box<N>& operator-=(const Position<N>& shift) {
    m_front -= shift;
    m_back -= shift;""","""  Box<N>& operator-=(const Position<N>& shift) {
    m_front -= shift;
    if (m_front != shift) {
      m_back -= shift;
    }""")],
R+"""int main() { Box<2> b({2, 4}, {5, 5}); b -= Position<2>({1, 2}); CHECK(b.back() == Position<2>({4, 3})); }""",
"translating a box by minus half of its front position","the back bound is not translated when the front coincides with the shift")
bug("c04_shift_alias","C04",[(L+"Box.h","""  Box<N>& operator+=(const Position<N>& shift) {
    m_front += shift;
    m_back += shift;""","""  Box<N>& operator+=(const Position<N>& shift) {
    m_back += shift;
    m_front += shift.isZero() ? m_front : shift;""")],
R+"""int main() { Box<2> b({2, 4}, {5, 5}); b += Position<2>({0, 0}); CHECK(b.front() == Position<2>({2, 4})); }""",
"translating a box by the null vector","the front bound is doubled")
bug("c05_flat_middle","C05",[(L+"BoxIterator.h","    for (std::size_t i = 0; i < m_current.size() - 1; ++i) {\n      if (m_current[i] > m_region.back()[i]) {","    for (std::size_t i = 0; i < m_current.size() - 1; ++i) {\n      if (m_current[i] <= m_region.back()[i] && i > 1) {\n        break;\n      }\n      if (m_current[i] > m_region.back()[i] && (i < 3 || m_region.length(i) > 1)) {")],
R+"""int main() { long n = 0; for (const auto& p : Box<5>({0, 0, 0, 0, 0}, {1, 1, 1, 0, 1})) { CHECK(p[3] == 0); if (++n > 16) break; } CHECK(n == 16); }""",
"a 5D box which is flat along axis 3","out of box positions are visited")
bug("c05_begin_empty","C05",[(L+"BoxIterator.h","    auto out = box.front();\n    --out[0];\n    return out;","    auto out = box.front();\n    out[0] = std::min(out[0] - 1, box.back()[0]);\n    return out;")],
R+"""int main() { long n = 0; Box<2> b({0, 0}, {-3, 2}); for (const auto& p : b) { ++n; break; } CHECK(n == 0); auto it = end(b); CHECK((*it)[0] == -1); }""",
"the end position of a box whose length is less than -1","end position is not next to the front")
bug("c08_end_write","C08",[(L+"Subraster.h","    return m_raster[pos + m_region.front()];","    return m_raster[pos + (m_region.size() == 1 ? m_region.front() : m_region.front())];",2),(L+"SubrasterIterator.h","    if (++m_current != m_eol) {","    if (++m_current < m_eol || (m_width == 1 && m_raster.length(0) == 1 && m_raster.shape().size() > 2)) {")],
R+"""int main() { Raster<int, 3> r({1, 3, 2}); r.range(); auto s = r.subraster(Box<3>({0, 0, 0}, {0, 0, 1})); auto it = begin(s); ++it; CHECK(*it == 3); }""",
"a subraster of a 3D raster whose first axis has length one, cropped along the second axis","the iterator runs through elements out of the region")
bug("c10_scalar_subtract","C10",[(CO+"Arithmetic.h","    std::transform(res.begin(), res.end(), res.begin(), [lhs](auto r) {\n      return lhs - r;\n    });","    res -= lhs;\n    return -res;",2)],
S+"""int main() { Sequence<float> s({1e8f}); CHECK(true); Sequence<unsigned char> u({3}); Sequence<double> d({0.}); auto r = 0. - d; CHECK(not std::signbit(r[0])); }""",
"a container of floating-point zeros subtracted from zero","the sign of zero is wrong") if False else None
bug("c10_decrement_bool","C10",[(CO+"Arithmetic.h","        [](auto rhs) {\n          return --rhs;\n        });","        [](auto rhs) {\n          return rhs > T(0) ? T(rhs - T(1)) : T(rhs + T(-1) - T(std::is_unsigned<T>::value));\n        });",2)],
S+"""int main() { Sequence<unsigned char> s({0, 1}); --s; CHECK(s[0] == 255 && s[1] == 0); }""",
"decrementing a null element of an unsigned type","wrap-around of unsigned elements is wrong")
bug("c10_modulo_vector","C10",[(CO+"Arithmetic.h","""  LITL_VECTOR_OPERATOR_INPLACE(%) ///< V %= U
  LITL_SCALAR_OPERATOR_INPLACE(%) ///< V %= a

  TDerived& operator++() {""","""  TDerived& operator%=(const TDerived& rhs) {
    auto it = rhs.begin();
    for (auto& e : static_cast<TDerived&>(*this)) {
      e %= *it < 0 ? -*it : *it;
      e += (e < 0 && *it < 0 ? -*it : T(0));
      ++it;
    }
    return static_cast<TDerived&>(*this);
  }
  LITL_SCALAR_OPERATOR_INPLACE(%) ///< V %= a

  TDerived& operator++() {""",2)],
S+"""int main() { Sequence<int> a({-5}), b({-3}); a %= b; CHECK(a[0] == -2); }""",
"the modulo of a negative element by a negative one","the sign of the modulo is wrong") if False else None
bug("c10_minus_int","C10",[(CO+"Arithmetic.h","    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {\n      return -r;\n    });","    std::transform(res.begin(), res.end() - res.size() / 16, res.begin(), [&](auto r) {\n      return -r;\n    });",2)],
S+"""int main() { Sequence<int> a(16); a.fill(1); CHECK((-a)[15] == -1); }""",
"negating a container of sixteen elements or more","last elements are not negated")
bug("c11_min_scalar","C11",[(CO+"Math.h","""  LITL_MATH_BINARY_SCALAR_INPLACE(fmod)""","""  template <typename U>
  std::enable_if_t<not isIterable<U>::value, TDerived>& fmod(U other) {
    auto* derived = static_cast<TDerived*>(this);
    for (auto& e : *derived) {
      e = e < other && e >= 0 ? e : std::fmod(e, other);
    }
    return *derived;
  }""")],
S+"""int main() { Sequence<double> a({2.}); a.fmod(2.); CHECK(a[0] == 0); Sequence<double> b({1.}); b.fmod(-2.); CHECK(b[0] == 1); Sequence<float> c({-0.f}); c.fmod(2.); CHECK(std::signbit(c[0])); }""",
"none","none") if False else None
bug("c11_hypot_copy","C11",[(CO+"Math.h","LITL_MATH_BINARY_INPLACE(hypot)","LITL_MATH_BINARY_INPLACE(hypot)".replace("hypot","hypot")),(CO+"Math.h","      return std::function(e, f); \\\n","      return std::function(decltype(e + f)(e), f); \\\n")],
S+"""int main() { CHECK(true); }""","none","none") if False else None
bug("c11_atan2_scalar","C11",[(CO+"Math.h","  LITL_MATH_BINARY_SCALAR_INPLACE(atan2)","""  template <typename U>
  std::enable_if_t<not isIterable<U>::value, TDerived>& atan2(U other) {
    auto* derived = static_cast<TDerived*>(this);
    std::transform(derived->begin(), derived->end(), derived->begin(), [=](auto e) {
      return other > 0 ? std::atan(e / other) : std::atan2(e, other);
    });
    return *derived;
  }""")],
S+"""int main() { Sequence<int> a({1}); a.atan2(1); Sequence<int> b({4}); b.atan2(3); CHECK(b[0] == int(std::atan2(4, 3))); Sequence<double> c({1e300}); c.atan2(1e-300); CHECK(c[0] == std::atan2(1e300, 1e-300)); Sequence<int> d({7}); d.atan2(4); CHECK(d[0] == int(std::atan2(7, 4))); Sequence<int> e({9}); e.atan2(6); Sequence<double> g({0.1}); g.atan2(0.3); Sequence<double> h({1.}); h.atan2(3); bool same = true; for (int i = 1; i < 50; ++i) for (int j = 1; j < 50; ++j) { Sequence<double> s({double(i)}); s.atan2(double(j)); same = same && s[0] == std::atan2(double(i), double(j)); } CHECK(same); }""",
"a positive scalar, and a quotient which is not exact","atan2 by a scalar is not that of the standard library")
bug("c12_range_step","C12",[(CO+"DataContainer.h","""    auto v = min;
    auto& t = static_cast<TDerived&>(*this);
    for (auto& e : t) {
      e = v;
      v += step;
    }
    return t;""","""    auto& t = static_cast<TDerived&>(*this);
    auto it = t.begin();
    for (std::size_t i = 0; i < t.size(); ++i, ++it) {
      *it = min + T(static_cast<signed char>(i)) * step;
    }
    return t;""")],
S+"""int main() { Sequence<int> a(130); a.range(); CHECK(a[129] == 129); }""",
"a range of more than 128 elements","the index is truncated")
bug("c12_fill_alias","C12",[(CO+"DataContainer.h","  TDerived& generate(TFunc&& func, const TContainers&... args) {\n    auto its = std::make_tuple(args.begin()...);\n    auto& t = static_cast<TDerived&>(*this);\n    for (auto& v : t) {\n      v = iteratorTupleApply(its, func);\n    }\n    return t;","  TDerived& generate(TFunc&& func, const TContainers&... args) {\n    auto its = std::make_tuple(args.begin()...);\n    auto& t = static_cast<TDerived&>(*this);\n    auto f = func;\n    for (auto& v : t) {\n      v = iteratorTupleApply(its, f);\n    }\n    return t;")],
S+"""struct F { int n = 0; int operator()() { return n++; } }; int main() { F f; Sequence<int> a(3); a.generate(f); a.generate(f); CHECK(a[0] == 3); }""",
"a stateful function used for two generations","the function is copied, so that its state is lost")
bug("c12_minmax_last","C12",[(CO+"DataContainer.h","    const auto its = std::minmax_element(this->begin(), this->end());","    const auto its = std::minmax_element(this->begin(), this->end() - (this->size() > 2 && this->back() == this->front()));")],
S+"""int main() { Sequence<double> a({2., 1., 2.}); auto m = a.minmax(); CHECK(&m.second == &a[2] || m.second == 2); CHECK(&m.second == &*std::max_element(a.begin(), a.end()) + 2); }""",
"n","n") if False else None
bug("c13_alignment_value","C13",[(CO+"AlignedBuffer.h","  if (as == 1) {\n    return true;\n  }\n  return std::uintptr_t(ptr) % as == 0;","  return (std::uintptr_t(ptr) & (as - 1)) == 0;")],
"""#include <LitlContainer/AlignedBuffer.h>
using namespace Litl; int main() { CHECK(isAligned(reinterpret_cast<const char*>(12), 12)); CHECK(not isAligned(reinterpret_cast<const char*>(16), 12)); }""",
"an alignment which is not a power of two","alignments which are not powers of two are misjudged")
bug("c13_assign_reuse","C13",[(CO+"AlignedBuffer.h","      reset();\n      m_size = other.m_size;\n      m_as = other.m_as;\n      if (other.owns()) {\n        m_container = std::malloc(sizeof(T) * m_size + m_as - 1);\n        m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) / m_as * m_as);","      if (not other.owns() || not owns() || m_size < other.m_size) {\n        reset();\n      }\n      m_size = other.m_size;\n      m_as = other.m_as;\n      if (other.owns()) {\n        if (not m_container) {\n          m_container = std::malloc(sizeof(T) * m_size + m_as - 1);\n          m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) / m_as * m_as);\n        }")],
"""#include <LitlContainer/AlignedBuffer.h>
using namespace Litl; int main() { for (int i = 0; i < 50; ++i) { AlignedBuffer<char> a(10 + i, nullptr, 4), b(10, nullptr, 256); a = b; CHECK(isAligned(a.data(), 256)); } }""",
"assigning a smaller buffer of larger alignment to an owning buffer","the memory of the assigned buffer is not aligned as required")
bug("c13_move_self","C13",[(CO+"AlignedBuffer.h","      m_data = other.m_data;\n      other.release();\n      other.reset();\n    }\n    return *this;","      m_data = other.m_data;\n      if (other.owns()) {\n        other.release();\n        other.reset();\n      }\n    }\n    return *this;")],
"""#include <LitlContainer/AlignedBuffer.h>
#include <utility>
using namespace Litl; int main() { int d[3]; AlignedBuffer<int> a(3, d), b(1); b = std::move(a); CHECK(a.data() == nullptr && a.size() == 0); }""",
"move assignment of a buffer which does not own its memory","the moved-from buffer keeps the data") 
bug("c14_nth_sorted","C14",[(CO+"DataDistribution.h","    std::nth_element(m_values.begin(), it, m_values.end());\n    return *it;","    std::nth_element(m_values.begin(), it, m_values.end());\n    m_sorted = n + 1 == size() && std::is_sorted(m_values.begin(), m_values.begin() + n / 2 + 1);\n    return *it;")],
"""#include <LitlContainer/DataDistribution.h>
using namespace Litl; int main() { std::vector<int> v; int n = 0; do { v.clear(); for (int i = 0; i < 6; ++i) v.push_back(rand() % 100); DataDistribution<int> d((std::vector<int>(v))); d.max(); std::sort(v.begin(), v.end()); for (int i = 0; i < 6; ++i) CHECK(d.nth(i) == v[i]); } while (++n < 200); }""",
"asking for the maximum, then for another order statistic, of values in an unlucky order","values are considered to be sorted whereas they are only partitioned")
bug("c14_quantile_round","C14",[(CO+"DataDistribution.h","    if (n == f) {\n      return nth(f);\n    }","    if (n - f < .0625) {\n      return nth(f);\n    }")],
"""#include <LitlContainer/DataDistribution.h>
using namespace Litl; int main() { DataDistribution<double> d(std::vector<double> {0., 32.}); CHECK(d.quantile(1. / 32) == 1); }""",
"a quantile whose rank is slightly above an integer","the quantile is not interpolated")
bug("c14_histogram_below","C14",[(CO+"DataDistribution.h","    while (it != m_values.end() && *it < *supIt) {\n      ++it;\n    }\n    for","    while (it != m_values.end() && *it < *supIt) {\n      ++it;\n    }\n    if (it == m_values.begin() && size() == 1 && *it > bins.back()) {\n      ++out.back();\n    }\n    for")],
"""#include <LitlContainer/DataDistribution.h>
using namespace Litl; int main() { DataDistribution<int> d(std::vector<int> {9}); CHECK(d.histogram(std::vector<int> {0, 1, 2})[1] == 0); }""",
"one single value above the bins","a value above the bins is counted")
bug("c15_data_stride","C15",[(L+"Sampling.h","      m_it += m_samples.step() * m_samples.stride() * n;","      m_it += n == 1 || m_samples.stride() == 1 ? m_samples.step() * m_samples.stride() * n : m_samples.step() * n + m_samples.stride() - 1;")],
R+"""int main() { std::vector<int> d(20); for (int i = 0; i < 20; ++i) d[i] = i; DataSamples<int> s(d.data(), 5, {0, 4, 2}, 3); auto it = s.begin(); it += 2; CHECK(*it == 12); }""",
"moving an iterator over strided samples by more than one sample","wrong sample")
bug("c15_size_negative","C15",[(L+"Sampling.h","    return std::max(T {0}, (back - front + step) / step);","    return back == front ? 1 : std::max(T {0}, (back - front) / step + 1);")],
R+"""int main() { IndexSampling s {5, 4, 10}; CHECK(s.size() == 0); IndexSampling t {5, 3, 4}; CHECK(t.size() == 0); }""",
"an empty sampling (back before front by less than a step)","an empty sampling has one sample")
bug("c22_uniform_in","C22",[(CO+"Random.h","    return in + generate<T>(distribution);","    const auto value = generate<T>(distribution);\n    return in == Limits<T>::max() ? in : in + value;")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() { UniformNoise<unsigned char> a(1, 1, 0); CHECK(a(255) == 0); UniformNoise<double> b(-1, -.5, 0); }""",
"n","n") if False else None
bug("c22_salt_pepper","C22",[(CO+"Random.h","    return index < m_values.size() ? m_values[index] : in;","    return index < m_values.size() && in != m_values.back() ? m_values[index] : in;")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() { auto n = ImpulseNoise<int>::saltAndPepper(.5, .5, 9, 1, 3); bool p = false; for (int i = 0; i < 100; ++i) p = p || n(9) == 1; CHECK(p); }""",
"an input which is already equal to the greatest impulse value","such inputs are never replaced")
bug("c22_stable_seed","C22",[(CO+"Random.h","    auto seed = m_seeder();\n    PoissonNoise<T> noise(in, seed); // TODO can we just reseed m_engine?","    auto seed = in > T(0) ? m_seeder() : 0;\n    PoissonNoise<T> noise(in, seed); // TODO can we just reseed m_engine?")],
"""#include <LitlContainer/Random.h>
using namespace Litl; int main() { StablePoissonNoise<int> a(0, 5), b(0, 5); a(0); b(1); int x = a(1000), y = b(1000); bool d = x != y; for (int i = 0; i < 10; ++i) { x = a(100000); y = b(100000); d = d || x != y; } CHECK(not d); }""",
"a null input value before others","the noise of a value depends on the previous values instead of its rank only")
bug("c26_clamp_order","C26",[(TY+"TypeUtils.h","  return in < min ? min : in > max ? max : in;","  return in < T(min) ? T(min) : in > T(max) ? T(max) : in;")],
"""#include <LitlTypes/TypeUtils.h>
using namespace Litl; int main() { CHECK(Litl::clamp<signed char, int>(5, -1000, 1000) == 5); }""",
"bounds which are not representable in the type of the value","bounds are truncated")
bug("c26_half_max","C26",[(TY+"TypeUtils.h","    return infinity ? TypeTraits<T>::fromScalar(infinity) : max();","    return infinity && sizeof(Scalar) <= 8 ? TypeTraits<T>::fromScalar(infinity) : max();")],
"""#include <LitlTypes/TypeUtils.h>
#include <cmath>
using namespace Litl; int main() { CHECK(std::isinf(Limits<long double>::inf())); }""",
"the infinity of long double","max is returned instead of infinity")
bug("c26_foreach","C26",[(TY+"SeqUtils.h","  for (auto& element : seq) {\n    func(element);\n  }","  for (auto it = seq.begin(); it != seq.end();) {\n    auto& element = *it;\n    ++it;\n    func(element);\n  }")],
"""#include <LitlTypes/SeqUtils.h>
using namespace Litl; int main() { CHECK(true); }""","n","n") if False else None
bug("c27_append_order","C27",[(TY+"Exceptions.h","    m_message += \"\\n\";\n    for (std::size_t i = 0; i < indent; ++i) {\n      m_message += \"  \";\n    }\n    m_message += line;","    std::string out = \"\\n\";\n    for (std::size_t i = 0; i < indent; ++i) {\n      out.insert(0, 1, ' ');\n      out += \" \";\n    }\n    m_message += out + line;")],
"""#include <LitlTypes/Exceptions.h>
using namespace Litl; int main() { CHECK(Exception("a", "b").append("c", 1).what() == std::string("a: b\\n  c")); }""",
"appending an indented line","the indentation is split around the line break")
bug("c27_bounds_nan","C27",[(TY+"Exceptions.h","    if (value < bounds.first || value > bounds.second) {","    if (value < bounds.first || value - bounds.second > 0) {")],
"""#include <LitlTypes/Exceptions.h>
using namespace Litl; int main() { bool t = false; OutOfBoundsError::mayThrow<unsigned>("a", 1, {0, 2}); try { OutOfBoundsError::mayThrow<unsigned>("a", 1, {0, 2}); } catch (std::exception&) { t = true; } CHECK(not t); }""",
"a value of an unsigned type which is less than the upper bound","valid unsigned values are out of bounds")
bug("c29_seven","C29",[(CO+"ContiguousContainer.h","      i = size - 3;\n      os << \" ... \" << container[i];","      i = size - 3;\n      os << (size == 9 ? \", \" : \" ... \") << container[i];")],
S+"""#include <sstream>
int main() { Sequence<int> s(9); s.range(); std::ostringstream o; o << s; CHECK(o.str() == "[0, 1, 2 ... 6, 7, 8]"); }""",
"printing nine elements","the ellipsis is missing")
