#include "vf.h"
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <LitlContainer/Sequence.h>
#include <LitlRaster/Raster.h>
#include <LitlTypes/SeqUtils.h>
using namespace Litl;
// NOTE: sequences of 0 to 60 elements (and up to 4096) with distinct values, one of them within [-12, 12] or extremal (2 elements, up to 9); up to 9 arbitrary characters or strings of up to 2 characters; positions, rasters up to 3x3 and 3x2x2 with any holder; lists of 1 to 7 arguments. Formatting itself (width, precision) is that of the stream: decimal integers and integral doubles are modelled

template <typename T>
static std::string str(T v) { std::ostringstream s; s << v; return s.str(); }
template <typename T>
static void sequence() {
  const long size = vf_pick("size", 0, 10);
  Sequence<T> s(size);
  for (long i = 0; i < size; ++i) s[i] = T(i * 11 - 20);
  if (size > 0) {
    const long k = vf_pick("k", 0, size - 1);
    s[k] = T(vf_pick("e", -12, 12));
  }
  std::string expected = "[";
  for (long i = 0; i < size; ++i) {
    if (size > 7 && i >= 3 && i < size - 3) continue;
    if (i > 0) expected += size > 7 && i == size - 3 ? " ... " : ", ";
    expected += str(s[i]);
  }
  expected += "]";
  std::ostringstream os;
  vf_assert(&(os << s) == &os, "chained");
  vf_assert(os.str() == expected, "all elements, or the first three and last three of more than seven");
  vf_reach("end");
}
VF_CASE(sequence_int) { sequence<int>(); }
VF_CASE(sequence_long) { sequence<long>(); }
VF_CASE(sequence_double) { sequence<double>(); }
VF_CASE(raster) {
  const long w = vf_pick("w", 1, 3), h = vf_pick("h", 1, 3), size = w * h;
  Raster<int, 2> r({w, h});
  for (long i = 0; i < size; ++i) r.data()[i] = int(i + 5);
  r.data()[vf_pick("k", 0, size - 1)] = int(vf_pick("e", -2, 2));
  std::string expected = "[";
  for (long i = 0; i < size; ++i) {
    if (size > 7 && i >= 3 && i < size - 3) continue;
    if (i > 0) expected += size > 7 && i == size - 3 ? " ... " : ", ";
    expected += str(r.data()[i]);
  }
  std::ostringstream os;
  os << r << r.shape() << ";";
  vf_assert(os.str() == expected + "]" + "[" + str(w) + ", " + str(h) + "];", "raster and position");
  vf_reach("end");
}
VF_CASE(arguments) {
  const long a = vf_pick("a", -12, 12);
  const int b = int(vf_pick("b", -2, 2));
  std::ostringstream one, two, three;
  serialize(one, a);
  vf_assert(one.str() == str(a), "one argument");
  serialize(two, std::string("x"), b);
  vf_assert(two.str() == "x, " + str(b), "separated with commas");
  serialize(three, b, "str", a);
  vf_assert(three.str() == str(b) + ", str, " + str(a), "separated with commas, in order");
  vf_reach("end");
}
// long sequences
template <typename T>
static std::string listed(const T* data, long size) {
  std::string out = "[";
  for (long i = 0; i < size; ++i) {
    if (size > 7 && i >= 3 && i < size - 3) continue;
    if (i > 0) out += size > 7 && i == size - 3 ? " ... " : ", ";
    out += str(data[i]);
  }
  return out + "]";
}
VF_CASE(long_sequence) {
  const long size = vf_pick("size", 6, 60);
  Sequence<long> s(size);
  for (long i = 0; i < size; ++i) s[i] = i * i - 5;
  std::ostringstream os;
  os << s;
  vf_assert(os.str() == listed(s.data(), size), "the first three and last three of more than seven elements");
  vf_reach("end");
}
VF_CASE(huge_sequence) {
  const long sizes[] {7, 8, 99, 100, 127, 128, 255, 256, 257, 1000, 4096};
  const long size = sizes[vf_pick("size", 0, 10)];
  Sequence<int> s(size);
  for (long i = 0; i < size; ++i) s[i] = int(i + 1);
  std::ostringstream os;
  os << s << "|" << s;
  const auto text = listed(s.data(), size);
  vf_assert(os.str() == text + "|" + text, "the first three and last three of more than seven elements");
  vf_reach("end");
}
template <typename T>
static void extremal(const std::vector<T>& values) {
  const long n = values.size();
  const long size = vf_pick("size", 1, 9);
  Sequence<T> s(size);
  for (auto& e : s) e = 1;
  const long first = vf_pick("first", 0, size - 1);
  const long i = vf_pick("i", 0, n - 1);
  s[first] = values[i];
  const long j = vf_pick("j", 0, n - 1);
  s[size - 1] = values[j];
  std::ostringstream os;
  os << s;
  vf_assert(os.str() == listed(s.data(), size), "elements");
  vf_reach("end");
}
VF_CASE(extremal_int) { extremal<int>({-2147483647 - 1, -1, 0, 10, 2147483647}); }
VF_CASE(extremal_long) { extremal<long>({std::numeric_limits<long>::min(), -4294967296l, 0, 4294967296l, std::numeric_limits<long>::max()}); }
VF_CASE(extremal_ulong) { extremal<unsigned long>({0, 4294967296ul, 9223372036854775808ul, 18446744073709551615ul}); }
VF_CASE(extremal_short) { extremal<short>({-32768, -1, 0, 32767}); }
VF_CASE(extremal_ushort) { extremal<unsigned short>({0, 32768, 65535}); }
VF_CASE(characters) { // any characters
  const long size = vf_pick("size", 0, 9);
  Sequence<char> s(size);
  for (auto& e : s) e = char(vf_int("char", 1, 127));
  std::string expected = "[";
  for (long i = 0; i < size; ++i) {
    if (size > 7 && i >= 3 && i < size - 3) continue;
    if (i > 0) expected += size > 7 && i == size - 3 ? " ... " : ", ";
    expected.push_back(s[i]);
  }
  std::ostringstream os;
  os << s;
  vf_assert(os.str() == expected + "]", "characters");
  vf_reach("end");
}
VF_CASE(strings) { // elements of any length
  const long size = vf_pick("size", 0, 9);
  Sequence<std::string> s(size);
  for (long i = 0; i < size; ++i) s[i] = std::string(vf_pick("length", 0, i < 2 || i == size - 1 ? 2 : 0), char('a' + i));
  std::string expected = "[";
  for (long i = 0; i < size; ++i) {
    if (size > 7 && i >= 3 && i < size - 3) continue;
    if (i > 0) expected += size > 7 && i == size - 3 ? " ... " : ", ";
    expected += s[i];
  }
  std::ostringstream os;
  os << s;
  vf_assert(os.str() == expected + "]", "strings");
  vf_reach("end");
}
template <Index N>
static void position() {
  Position<N> p(4);
  for (Index i = 0; i < p.size(); ++i) p[i] = 7 * i - 9;
  const long axis = vf_pick("axis", 0, p.size() - 1);
  p[axis] = vf_pick("x", -60, 60);
  std::ostringstream os;
  os << p;
  vf_assert(os.str() == listed(p.data(), p.size()), "coordinates");
  vf_reach("end");
}
VF_CASE(position) { position<4>(); }
VF_CASE(position_variable) { position<-1>(); }
VF_CASE(pointer_raster) {
  int data[12];
  for (int i = 0; i < 12; ++i) data[i] = 3 * i - 4;
  PtrRaster<int, 3> r({vf_pick("w", 1, 3), vf_pick("h", 1, 2), vf_pick("d", 1, 2)}, data);
  PtrRaster<const int, 3> c(r.shape(), data);
  VecRaster<int, -1> v(Position<-1> {r.shape()[0], r.shape()[1], r.shape()[2]});
  for (std::size_t i = 0; i < v.size(); ++i) v.data()[i] = data[i];
  const auto text = listed(data, r.size());
  std::ostringstream os, oc, ov;
  os << r;
  oc << c;
  ov << v;
  vf_assert(os.str() == text && oc.str() == text && ov.str() == text, "rasters of any holder");
  vf_reach("end");
}
VF_CASE(many_arguments) {
  const long a = vf_pick("a", -12, 12);
  const std::string sep(vf_pick("length", 0, 3), 'x');
  std::ostringstream os;
  os << "#";
  serialize(os, a, sep, 'c', 1, 2l, "end", sep);
  vf_assert(os.str() == "#" + str(a) + ", " + sep + ", c, 1, 2, end, " + sep, "separated with commas, in order");
  vf_reach("end");
}
// a logger with its own formatting
struct BraceLog {
  std::string text;
  template <typename T>
  BraceLog& add(const T& t) { text += t; return *this; }
};
static BraceLog& operator<<(BraceLog& l, int i) { return l.add("<" + std::to_string(i) + ">"); }
static BraceLog& operator<<(BraceLog& l, const char* s) { return l.add(s); }
static BraceLog& operator<<(BraceLog& l, const std::string& s) { return l.add(s); }
VF_CASE(custom_logger) {
  const int a = vf_pick("a", -2, 12), b = vf_pick("b", 0, 1);
  BraceLog l;
  serialize(l, a);
  vf_assert(l.text == "<" + std::to_string(a) + ">", "one argument");
  serialize(l, b, "x", a);
  vf_assert(l.text == "<" + std::to_string(a) + "><" + std::to_string(b) + ">, x, <" + std::to_string(a) + ">", "the formatting of the stream, for each argument");
  vf_reach("end");
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_extremal) { extremal<int>({-1, 0}); extremal<int>({3, 10}); }
