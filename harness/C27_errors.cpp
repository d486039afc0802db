#include "vf.h"
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include <LitlTypes/Exceptions.h>
#include <LitlContainer/Holders.h>
#include <LitlContainer/AlignedBuffer.h>
using namespace Litl;
// NOTE: any value and bounds (int, unsigned, short, long, unsigned long, float, double), sizes, addresses and alignments (1 to 2^20) for the throwing conditions; values within [-120, 120] and extremal ones for the messages, names of up to 12 characters, and up to 2 appended lines with indents 0 to 2 (0 to 20 for one line)

template <typename T>
static void bounds(long lo, long hi, double unit) {
  const long v = vf_int("v", lo, hi), a = vf_int("min", lo, hi), b = vf_int("max", lo, hi);
  const T value = T(double(v) * unit), min = T(double(a) * unit), max = T(double(b) * unit);
  const bool thrown = vf_throws_as<OutOfBoundsError>([&] { OutOfBoundsError::mayThrow("name", value, std::pair<T, T>(min, max)); });
  vf_assert(thrown == (v < a || v > b), "thrown iff out of the bounds");
  vf_reach("end");
}
VF_CASE(bounds_int) { bounds<int>(-1000000000, 1000000000, 1); }
VF_CASE(bounds_long) { bounds<long>(-1000000000, 1000000000, 1); }
VF_CASE(bounds_uint) { bounds<unsigned>(0, 1000000000, 1); }
VF_CASE(bounds_double) { bounds<double>(-8000000, 8000000, .125); }
VF_CASE(size) {
  const long a = vf_int("in", 0, 1000000000), b = vf_int("ref", 0, 1000000000);
  vf_assert(vf_throws_as<SizeError>([&] { SizeError::mayThrow(a, b); }) == (a != b), "thrown iff the sizes differ");
  vf_reach("end");
}
VF_CASE(pointer) {
  const long p = vf_pick("null", 0, 1);
  int x = 0;
  const void* ptr = p ? nullptr : &x;
  vf_assert(vf_throws_as<NullPtrError>([&] { NullPtrError::mayThrow(ptr, "message"); }) == (p == 1), "thrown iff the pointer is null");
  vf_reach("end");
}
VF_CASE(alignment) {
  alignas(64) char buffer[128];
  const long offset = vf_pick("offset", 0, 64), shift = vf_pick("alignment", 0, 6);
  const std::size_t as = 1ul << shift;
  vf_assert(vf_throws_as<AlignmentError>([&] { AlignmentError::mayThrow(buffer + offset, as); }) == (offset % as != 0), "thrown iff unaligned");
  vf_reach("end");
}
static std::string str(long v) { return std::to_string(v); }
VF_CASE(messages) {
  const long v = vf_pick("v", -12, 12);
  const int a = -3, b = 10;
  const OutOfBoundsError e("pos", int(v), std::pair<int, int>(a, b));
  vf_assert(std::string(e.what()) == "Out of bounds error: pos: " + str(v) + " not in [-3, 10]", "name, value and bounds");
  const SizeError s(std::size_t(v + 12), 7);
  vf_assert(std::string(s.what()) == "Size error: Expected 7, got " + str(v + 12), "expected and actual size");
  const NullPtrError n("msg");
  vf_assert(std::string(n.what()) == "Null pointer error: msg", "prefix and message");
  const Exception x("msg");
  vf_assert(std::string(x.what()) == "Litl error: msg", "default prefix");
  vf_reach("end");
}
VF_CASE(append) {
  Exception x("prefix", "message");
  std::string expected = "prefix: message";
  const long lines = vf_pick("lines", 0, 2);
  for (long i = 0; i < lines; ++i) {
    const long indent = vf_pick("indent", -1, 2);
    auto& r = indent < 0 ? x.append("line") : x.append("line", indent);
    vf_assert(&r == &x, "append returns itself");
    expected += "\n" + std::string(indent < 0 ? 0 : 2 * indent, ' ') + "line";
    vf_assert(std::string(x.what()) == expected, "lines are appended with their indent");
  }
  const Exception copy(x);
  vf_assert(std::string(copy.what()) == expected, "copied with the message");
  x.append("again");
  vf_assert(std::string(copy.what()) == expected, "copies are independent");
  vf_reach("end");
}
template <typename TExc, typename F>
static void caught(F&& f) { // the documented hierarchy, through which users handle all errors
  vf_assert(vf_throws_as<TExc>(f), "caught as itself");
  vf_assert(vf_throws_as<Exception>(f), "caught as a Litl exception");
  vf_assert(vf_throws_as<std::exception>(f), "caught as a standard exception");
}
VF_CASE(hierarchy) {
  caught<OutOfBoundsError>([] { throw OutOfBoundsError("x", 1, std::pair<int, int>(2, 3)); });
  caught<SizeError>([] { throw SizeError(1, 2); });
  caught<NullPtrError>([] { throw NullPtrError("x"); });
  caught<AlignmentError>([] { throw AlignmentError(nullptr, 16); });
  vf_assert(!vf_throws_as<SizeError>([] { try { throw NullPtrError("x"); } catch (const SizeError&) { throw; } catch (const Exception&) {} }), "distinct types");
  const long live = vf_heap_live();
  try { throw Exception("prefix which is too long for small strings", "message which is too long for small strings"); }
  catch (const std::exception& e) { vf_assert(std::string(e.what()) == "prefix which is too long for small strings: message which is too long for small strings", "message of the base class"); }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
VF_CASE(indents) {
  const long indent = vf_pick("indent", 0, 20);
  Exception x("p", "m");
  x.append("line", indent);
  vf_assert(std::string(x.what()) == "p: m\n" + std::string(2 * indent, ' ') + "line", "lines are appended with their indent");
  const std::string text(vf_pick("length", 0, 40), 'x');
  Exception y(text);
  y.append(text).append(text, 1);
  vf_assert(std::string(y.what()) == "Litl error: " + text + "\n" + text + "\n  " + text, "long messages");
  vf_reach("end");
}
// whole ranges
template <typename T>
static T anyOf(const char* name) {
  const long bits = vf_int(name, std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
  T out;
  std::memcpy(&out, &bits, sizeof(T));
  return out;
}
template <typename T>
static void whole() {
  const T value = anyOf<T>("v");
  const T min = anyOf<T>("min");
  const T max = anyOf<T>("max");
  const bool out = value < min || value > max;
  bool thrown = false, typed = false;
  try { OutOfBoundsError::mayThrow("name", value, std::pair<T, T>(min, max)); }
  catch (const OutOfBoundsError&) { typed = thrown = true; }
  catch (...) { thrown = true; }
  vf_assert(thrown == out && typed == out, "thrown iff out of the bounds");
  vf_reach("end");
}
VF_CASE(whole_int) { whole<int>(); }
VF_CASE(whole_uint) { whole<unsigned>(); }
VF_CASE(whole_long) { whole<long>(); }
VF_CASE(whole_ulong) { whole<unsigned long>(); }
VF_CASE(whole_short) { whole<short>(); }
VF_CASE(whole_double) { whole<double>(); } // infinities included
VF_CASE(whole_float) { whole<float>(); }
VF_CASE(whole_size) {
  const std::size_t a = anyOf<std::size_t>("in");
  const std::size_t b = anyOf<std::size_t>("ref");
  vf_assert(vf_throws_as<SizeError>([&] { SizeError::mayThrow(a, b); }) == (a != b), "thrown iff the sizes differ");
  vf_reach("end");
}
VF_CASE(whole_alignment) {
  const std::size_t address = anyOf<std::size_t>("address");
  const std::size_t as = 1ul << vf_pick("alignment", 0, 20);
  const void* ptr = reinterpret_cast<const void*>(address);
  if (address) vf_assert(vf_throws_as<AlignmentError>([&] { AlignmentError::mayThrow(ptr, as); }) == ((address & (as - 1)) != 0), "thrown iff unaligned");
  else vf_assert(vf_throws_as<NullPtrError>([&] { AlignmentError::mayThrow(ptr, as); }), "null pointers are not aligned");
  vf_assert(vf_throws_as<NullPtrError>([&] { NullPtrError::mayThrow(ptr, "message"); }) == (address == 0), "thrown iff the pointer is null");
  vf_reach("end");
}
// values in the messages
VF_CASE(message_values) {
  const long v = vf_pick("v", -120, 120);
  const OutOfBoundsError e("pos", v, std::pair<long, long>(v + 1, 1000));
  vf_assert(std::string(e.what()) == "Out of bounds error: pos: " + str(v) + " not in [" + str(v + 1) + ", 1000]", "name, value and bounds");
  vf_reach("end");
}
template <typename T>
static void extremal(const std::vector<T>& values) {
  const T v = values[vf_pick("v", 0, values.size() - 1)];
  const T a = values[vf_pick("min", 0, values.size() - 1)];
  const T b = values[vf_pick("max", 0, values.size() - 1)];
  const std::string expected = "Out of bounds error: x: " + std::to_string(v) + " not in [" + std::to_string(a) + ", " + std::to_string(b) + "]";
  const OutOfBoundsError e("x", v, std::pair<T, T>(a, b));
  vf_assert(std::string(e.what()) == expected, "name, value and bounds");
  std::string message;
  try { OutOfBoundsError::mayThrow("x", v, std::pair<T, T>(a, b)); } catch (const std::exception& x) { message = x.what(); }
  vf_assert(message == (v < a || v > b ? expected : ""), "thrown with the message iff out of the bounds");
  vf_reach("end");
}
VF_CASE(extremal_int) { extremal<int>({-2147483647 - 1, -2147483647, -99, -1, 0, 1, 100, 2147483646, 2147483647}); }
VF_CASE(extremal_uint) { extremal<unsigned>({0, 1, 100, 2147483647, 2147483648u, 4294967294u, 4294967295u}); }
VF_CASE(extremal_long) { extremal<long>({std::numeric_limits<long>::min(), -4294967296l, -1, 0, 1, 4294967295l, 4294967296l, std::numeric_limits<long>::max()}); }
VF_CASE(extremal_ulong) { extremal<unsigned long>({0, 1, 4294967296ul, 9223372036854775807ul, 9223372036854775808ul, 18446744073709551615ul}); }
VF_CASE(extremal_size) {
  const std::vector<std::size_t> values {0, 1, 10, 4294967295ul, 4294967296ul, 9223372036854775808ul, 18446744073709551615ul};
  const std::size_t a = values[vf_pick("in", 0, 6)];
  const std::size_t b = values[vf_pick("ref", 0, 6)];
  std::string message;
  try { SizeError::mayThrow(a, b); } catch (const Exception& e) { message = e.what(); }
  vf_assert(message == (a == b ? "" : "Size error: Expected " + std::to_string(b) + ", got " + std::to_string(a)), "expected and actual size");
  vf_reach("end");
}
VF_CASE(names) {
  std::string name(vf_pick("length", 0, 12), 'a');
  for (auto& c : name) c = char(vf_int("char", 1, 127));
  const OutOfBoundsError e(name, 1l, std::pair<long, long>(2, 3));
  vf_assert(std::string(e.what()) == "Out of bounds error: " + name + ": 1 not in [2, 3]", "any name");
  const Exception x(name, name);
  vf_assert(std::string(x.what()) == name + ": " + name, "any prefix and message");
  Exception y("p", "m");
  y.append(name, 1).append("").append(name);
  vf_assert(std::string(y.what()) == "p: m\n  " + name + "\n\n" + name, "any line");
  vf_reach("end");
}
VF_CASE(alignment_message) {
  const std::size_t as = 1ul << vf_pick("log", 1, 12);
  const std::size_t address = as * vf_pick("address", 1, 9) - vf_pick("shift", 1, 2);
  vf_assume((address & (as - 1)) != 0);
  std::string message;
  try { AlignmentError::mayThrow(reinterpret_cast<const void*>(address), as); } catch (const Exception& e) { message = e.what(); }
  const std::string prefix = "Alignment error: ", suffix = " is not " + str(as) + " byte-aligned.";
  vf_assert(message.size() > prefix.size() + suffix.size(), "some address");
  vf_assert(message.compare(0, prefix.size(), prefix) == 0 && message.compare(message.size() - suffix.size(), suffix.size(), suffix) == 0, "address and alignment");
  vf_reach("end");
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_bounds) { bounds<int>(-1000, 1000, 1); bounds<int>(-1000, 1000, 1); }
VF_CASE(again_extremal) { extremal<int>({-99, -1, 0, 100}); extremal<int>({-5, 0, 7}); }
