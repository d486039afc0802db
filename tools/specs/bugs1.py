RH="LitlRaster/LitlRaster/Raster.h"; RI="LitlRaster/LitlRaster/impl/Raster.hpp"
L="LitlRaster/LitlRaster/"; CO="LitlContainer/LitlContainer/"
R='#include <LitlRaster/Raster.h>\nusing namespace Litl;\n'
bug("c01_variable_index_flat_axis","C01",[(RI,"""    Index res = 0;
    for (std::size_t j = 0; j < shape.size(); ++j) {
      res = pos[n - 1 - j] + shape[n - 1 - j] * res;
    }""","""    Index res = pos[n - 1];
    for (std::size_t j = 1; j < shape.size(); ++j) {
      res = shape[n - 1 - j] > 1 ? pos[n - 1 - j] + shape[n - 1 - j] * res : res;
    }""")],R+"""int main() { Raster<int, -1> r({2, 1, 3}); CHECK(r.index({1, 2, 2}) == 1 + 2 * (2 + 2)); }""",
"a variable-dimension raster with an axis of length one, indexed out of the domain along that axis","positions out of the domain along a flat axis (used by callers to point to the end) have a wrong linear index")
bug("c01_at_last_negative","C01",[(RI,'OutOfBoundsError::mayThrow("pos[" + std::to_string(i) + "]", b, {-s, s - 1});','OutOfBoundsError::mayThrow("pos[" + std::to_string(i) + "]", b, {-m_shape[0], s - 1});')],
R+"""int main() { Raster<int, 2> r({2, 4}); r.range(); CHECK(r.at({0, -4}) == 0); bool t = false; Raster<int, 2> q({4, 2}); try { q.at({0, -3}); } catch (std::exception&) { t = true; } CHECK(t); }""",
"backward access along another axis than the first one, of another length","negative coordinates are checked against the length of the first axis")
bug("c01_contains_real","C01",[(RH,"if (position[i] < 0 || position[i] >= m_shape[i]) {","if (position[i] < 0 || position[i] > m_shape[i] - U(1)) {")],
R+"""int main() { Raster<int, 2> r({4, 4}); CHECK(r.contains(Vector<double, 2>({3.5, 0}))); }""",
"a non-integral position between the last index and the length","real positions in the last pixel are not contained")
bug("c02_list_size_variable","C02",[(RH,"SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape));","SizeError::mayThrow(this->size(), N == -1 ? std::distance(std::begin(iterable), std::end(iterable)) : shapeSize(m_shape));")],
R+"""#include <vector>
int main() { std::vector<int> v {1, 2, 3}; bool t = false; try { Raster<int, -1> r({2, 2}, v); } catch (std::exception&) { t = true; } CHECK(t); }""",
"a variable-dimension raster made from an iterable of the wrong size","the size of the iterable is not checked for variable dimensions")
bug("c02_equality_last_axis","C02",[(RH,"""  if (lhs.shape() != rhs.shape()) {
    return false;
  }
  return std::equal""","""  if (lhs.dimension() != rhs.dimension() || lhs.length(0) != rhs.length(0)) {
    return false;
  }
  return std::equal""")],
R+"""int main() { Raster<int, 3> a({1, 2, 3}), b({1, 3, 2}); CHECK(a != b); }""",
"two 3D rasters of equal first length and number of elements but different shapes","rasters of different shapes compare equal")
bug("c02_aligned_copy_assign","C02",[(CO+"AlignedBuffer.h","AlignedBuffer(other.m_size, other.owns() ? nullptr : other.m_data, other.m_as) {","AlignedBuffer(other.m_size, other.owns() && other.m_size > 1 ? nullptr : other.m_data, other.m_as) {")],
R+"""int main() { AlignedRaster<int, 2> a({1, 1}); a[0] = 3; AlignedRaster<int, 2> b(a); b[0] = 4; CHECK(a[0] == 3); }""",
"copying an aligned raster of one element","the copy of a one-element aligned raster aliases the original")
bug("c03_contiguous_first_axis","C03",[(RI,"if (f[i] != 0 || b[i] != m_shape[i] - 1) { // Doesn't","if (b[i] - f[i] != m_shape[0] - 1) { // Doesn't")],
R+"""int main() { Raster<int, 3> r({3, 5, 4}); CHECK(not r.isContiguous<3>(Box<3>({0, 1, 0}, {2, 3, 2}))); CHECK(r.isContiguous<3>(Box<3>({0, 0, 1}, {2, 4, 2}))); }""",
"3D slice of a 3D (or more) raster whose axes have different lengths","contiguity is compared with the length of the first axis")
bug("c03_section_stride_const","C03",[(RI,"return PtrRaster<const T, N> {shape, this->data() + front * shapeStride(m_shape, last)};","return PtrRaster<const T, N> {shape, this->data() + front * shapeStride(shape, last) / std::max<Index>(1, shape[last] / m_shape[last])};"),(RI,"return PtrRaster<T, N> {shape, this->data() + front * shapeStride(m_shape, last)};","return PtrRaster<T, N> {shape, this->data() + front * shapeStride(m_shape, std::min<Index>(last, 2))};")],
R+"""int main() { Raster<int, 4> r({2, 2, 3, 3}); r.range(); CHECK(r.section(1, 2)[0] == 12); }""",
"multi-element section of a 4D (or more) mutable raster","the section of a 4D raster starts at the wrong element")
bug("c04_shrink","C04",[(L+"Box.h","""    m_front -= margin.m_front;
    m_back -= margin.m_back;""","""    m_front -= margin.m_front;
    for (Index i = 0; i < dimension(); ++i) {
      m_back[i] = std::max(m_front[i], m_back[i] - margin.m_back[i]);
    }""")],
R+"""int main() { Box<2> b({0, 0}, {1, 5}); Box<2> m({-2, -1}, {2, 1}); auto c = b; c -= m; c += m; CHECK(c == b); CHECK((b - m).size() <= 0 || (b - m).length(0) < 0); }""",
"shrinking a box by a margin which is larger than the box","shrinking below an empty box does not move the back bound, and is not reversible")
bug("c04_negate_asymmetric","C04",[(L+"Box.h","""    m_front -= shift;
    m_back -= shift;""","""    const auto s = shape();
    m_front -= shift;
    m_back = m_front + s;
    m_back -= std::min<Index>(1, size());""")],
R+"""int main() { Box<2> b({0, 0}, {-1, 5}); b -= Position<2>({1, 1}); CHECK(b.back()[0] == -2); }""",
"translating an empty box backwards","an empty box translated backwards becomes non-empty")
bug("c05_flat_axis","C05",[(L+"BoxIterator.h","    if (m_current == m_region.back()) { // TODO simpler?","    if (m_current[0] == m_region.back()[0] && m_current[m_current.size() - 1] == m_region.back()[m_current.size() - 1]) { // TODO simpler?")],
R+"""int main() { long n = 0; for (const auto& p : Box<3>({0, 0, 0}, {1, 2, 0})) { ++n; } CHECK(n == 6); }""",
"iterating over a box of dimension 3 or more, with more than one position along a middle axis","iteration stops early on the last plane")
bug("c05_reset","C05",[(L+"BoxIterator.h","    m_current = beginPosition(m_region);","    m_current = m_region.front();")],
R+"""int main() { Box<2> b({0, 0}, {3, -1}); auto it = begin(b); it.reset(); CHECK(it == end(b)); }""",
"resetting the iterator of an empty box","a reset iterator of an empty box visits positions") if False else None
bug("c06_back_null","C06",[(L+"Box.h","        before.m_front[i] = current.m_front[i] += f;\n        out.push_back(before);","        before.m_front[i] = current.m_front[i] + f;\n        current.m_front[i] = margin.m_back[i] > 0 || i == 0 ? before.m_front[i] : current.m_front[i];\n        out.push_back(before);")],
R+"""#include <vector>
int main() { Box<3> b({0, 0, 0}, {1, 1, 1}); Box<3> m({-1, -1, -1}, {1, 0, 1}); long n = 0; for (const auto& s : b.surround(m)) n += s.size(); CHECK(n + b.size() == (b + m).size()); }""",
"a margin with a front but no back along an axis which is neither the first nor the last","the corner positions of the grown box are missed")
bug("c07_radius_rounding","C07",[(L+"BallIterator.h","m_radiusP(std::pow(region.radius(), P))","m_radiusP(std::pow(P == 2 ? std::floor(2 * region.radius()) / 2 : region.radius(), P))")],
R+"""#include <LitlRaster/Ball.h>
int main() { Ball<2, 2> b(2.25); long n = 0; for (const auto& p : b) ++n; CHECK(n == 21); Ball<2, 2> c(2.24); CHECK(c.size() == 21); }""",
"an L2 ball with a fractional radius such as 2.25","positions at a distance between the rounded and the actual radius are missed")
bug("c07_center","C07",[(L+"Ball.h","    return Ball<N, P>(m_radius, -m_center);","    return Ball<N, P>(Index(m_radius), -m_center);")],
R+"""#include <LitlRaster/Ball.h>
int main() { Ball<2, 1> b(1.5, {1, 2}); CHECK((-b).radius() == 1.5); }""",
"negating a ball of fractional radius","the radius is truncated")
bug("c08_row_jump","C08",[(L+"SubrasterIterator.h","""    ++m_beginIt;
    // Use data() and index()  instead of [] to avoid dereferencing unallocated memory
    m_current = m_raster.data() + m_raster.index(*m_beginIt);""","""    const auto plane = (*m_beginIt)[Dimension > 2 ? 2 : 1];
    ++m_beginIt;
    // Use data() and index()  instead of [] to avoid dereferencing unallocated memory
    m_current = Dimension > 3 && (*m_beginIt)[Dimension > 2 ? 2 : 1] == plane ? m_current - m_width + m_raster.length(0) :
                                              m_raster.data() + m_raster.index(*m_beginIt);""")],
R+"""int main() { Raster<int, 4> r({2, 3, 2, 3}); r.range(); auto s = r.subraster(Box<4>({0, 0, 0, 0}, {0, 1, 0, 1})); std::vector<int> v; auto e = end(s); for (auto it = begin(s); it != e; ++it) v.push_back(*it); CHECK(v == (std::vector<int> {0, 2, 12, 14})); }""",
"iterating over a 4D subraster which has a single plane along axis 2","elements of other planes are visited")
bug("c09_extend_padding","C09",[(L+"Vector.h","    auto res = padding;\n    std::copy_n(this->data(), this->size(), res.data());","    auto res = padding;\n    if (not res.isZero() && this->isZero()) {\n      return res;\n    }\n    std::copy_n(this->data(), this->size(), res.data());")],
R+"""int main() { Position<2> p({0, 0}); CHECK(p.extend<3>(Position<3>({1, 2, 3})) == Position<3>({0, 0, 3})); }""",
"extending a null vector with a padding","the coordinates of the null vector are replaced by the padding")
bug("c09_stride","C09",[(L+"Vector.h","  return std::accumulate(shape.begin(), shape.begin() + axis, 1L, std::multiplies<Index> {});","  return std::accumulate(shape.begin(), shape.begin() + axis, 1, std::multiplies<Index> {});")],
R+"""int main() { Position<3> s({70000, 70000, 2}); CHECK(shapeStride(s, 2) == 4900000000L); }""",
"a shape of more than 2^31 elements","strides overflow 32 bits")
