// Models of libstdc++ functions that live in the shared library, compiled to IR and linked with every harness.
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <list>
#include <map>
#include <stdexcept>
#include <string>

template class std::basic_string<char>;

namespace std {
// Red-black tree primitives: an unbalanced binary search tree keeps the in-order semantics of the balanced one.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; // only the header stays red
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* repl;
  auto link = [&](_Rb_tree_node_base* n) { if (h._M_parent == z) h._M_parent = n; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = n; else z->_M_parent->_M_right = n; if (n) n->_M_parent = z->_M_parent; };
  if (z == h._M_left) h._M_left = z->_M_right ? [&] { auto m = z->_M_right; while (m->_M_left) m = m->_M_left; return m; }() : z->_M_parent;
  if (z == h._M_right) h._M_right = z->_M_left ? [&] { auto m = z->_M_left; while (m->_M_right) m = m->_M_right; return m; }() : z->_M_parent;
  if (!z->_M_left) { repl = z->_M_right; link(repl); }
  else if (!z->_M_right) { repl = z->_M_left; link(repl); }
  else {
    repl = z->_M_right; while (repl->_M_left) repl = repl->_M_left;
    if (repl->_M_parent != z) { repl->_M_parent->_M_left = repl->_M_right; if (repl->_M_right) repl->_M_right->_M_parent = repl->_M_parent; repl->_M_right = z->_M_right; z->_M_right->_M_parent = repl; }
    repl->_M_left = z->_M_left; z->_M_left->_M_parent = repl; link(repl);
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
}
namespace {
std::string u2s(unsigned long v, bool neg) { char b[24]; int n = 24; do { b[--n] = char('0' + v % 10); v /= 10; } while (v); if (neg) b[--n] = '-'; return std::string(b + n, b + 24); }
}
}
extern "C" {
// standard output is not modelled
int printf(const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int vfrt_putchar(int c) __asm__("putchar");
int vfrt_putchar(int c) { return c; }
// std::hash<std::string> / type_info::hash_code back end: any deterministic function of the bytes
size_t vfrt_hash(const void* p, size_t n, size_t seed) __asm__("_ZSt11_Hash_bytesPKvmm");
size_t vfrt_hash(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 31 + ((const unsigned char*)p)[i]; return h; }
}
// std::to_string goes through the variadic __gnu_cxx::__to_xstring(vsnprintf, n, fmt, value): exact decimal conversion of
// integers whose value is concrete on the path; fixed text otherwise (messages only)
extern "C" int vf_is_concrete(long v);
extern "C" void vfrt_to_xstring(std::string* out, void*, size_t, const char* fmt, long v) {
  char last = 0, mod = 0;
  for (const char* p = fmt; *p; ++p) { mod = last; last = *p; }
  if (last == 'f' || last == 'g') { new (out) std::string("<real>"); return; }
  if (!vf_is_concrete(v)) { new (out) std::string("<n>"); return; }
  if (mod != 'l') v = last == 'u' ? (long)(unsigned)v : (long)(int)v;
  bool neg = last != 'u' && v < 0;
  new (out) std::string(std::u2s(neg ? 0ul - (unsigned long)v : (unsigned long)v, neg));
}
// std::runtime_error / logic_error constructors (objects are only ever matched by type and destroyed)
namespace { struct StubExc { const void* vptr; const void* msg; }; }
#define VFRT_EXC(m) extern "C" void vfrt_##m(StubExc* t, const void* s) __asm__(#m); extern "C" void vfrt_##m(StubExc* t, const void* s) { t->vptr = nullptr; t->msg = s; }
VFRT_EXC(_ZNSt13runtime_errorC1EPKc)
VFRT_EXC(_ZNSt13runtime_errorC2EPKc)
VFRT_EXC(_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)
VFRT_EXC(_ZNSt11logic_errorC1EPKc)
VFRT_EXC(_ZNSt12out_of_rangeC1EPKc)
VFRT_EXC(_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)
VFRT_EXC(_ZNSt16invalid_argumentC1EPKc)
VFRT_EXC(_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)
// Output string streams: the text lives in the string buffer's own string (libstdc++ layout: the string buffer follows the
// ostream's virtual table pointer, the ios base lies 112 bytes further), so that inlined destructors find it where they expect it.
// Integers are formatted exactly when concrete on the path, "<n>" otherwise; reals and pointers are "<real>" and "<ptr>".
namespace {
long vfrt_vtable_ss[8] = {128, 0, 0, 128, 0, 0, 0, 0};
long vfrt_vtable[8] = {112, 0, 0, 112, 0, 0, 0, 0}; // virtual base offset at -24 of the address point
char* vfrt_address_point() { return (char*)(vfrt_vtable + 3); }
std::string& textOf(void* os) { return *(std::string*)((char*)os + 8 + 72); }
std::string& textOfBuf(const void* buf) { return *(std::string*)((char*)buf + 72); }
void initStream(void* os) { std::memset(os, 0, 112 + 216); *(char**)os = vfrt_address_point(); *(long*)((char*)os + 112 + 8) = 6; new (&textOf(os)) std::string(); }
void* putInt(void* os, long v, bool neg) {
  if (!vf_is_concrete(v)) textOf(os) += "<n>";
  else textOf(os) += std::u2s(neg ? 0ul - (unsigned long)v : (unsigned long)v, neg);
  return os;
}
}
#define VFRT_DEF(ret, name, sym, params) extern "C" ret name params __asm__(sym); extern "C" ret name params
#define SS "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE"
#define OSS "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE"
VFRT_DEF(void, vfrt_ss_c1, SS "C1Ev", (char* t)) { *(long**)t = vfrt_vtable_ss + 3; initStream(t + 16); }
VFRT_DEF(void, vfrt_ss_d1, SS "D1Ev", (char* t)) { textOf(t + 16).~basic_string(); }
VFRT_DEF(void, vfrt_oss_c1, OSS "C1Ev", (char* t)) { initStream(t); }
VFRT_DEF(void, vfrt_oss_d1, OSS "D1Ev", (char* t)) { textOf(t).~basic_string(); }
VFRT_DEF(void, vfrt_locale_d1, "_ZNSt6localeD1Ev", (void*)) {}
VFRT_DEF(void, vfrt_ios_d2, "_ZNSt8ios_baseD2Ev", (void*)) {}
extern "C" void vfrt_buf_str(std::string* out, const void* buf) __asm__("_ZNKSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE3strEv");
extern "C" void vfrt_buf_str(std::string* out, const void* buf) { new (out) std::string(textOfBuf(buf)); }
VFRT_DEF(void, vfrt_ss_str, "_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv", (std::string* out, char* t)) { new (out) std::string(textOf(t + 16)); }
VFRT_DEF(void, vfrt_oss_str, "_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv", (std::string* out, char* t)) { new (out) std::string(textOf(t)); }
VFRT_DEF(void*, vfrt_ins_s, "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", (void* os, const char* s, long n)) { textOf(os).append(s, n); return os; }
VFRT_DEF(void*, vfrt_ls_pc, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", (void* os, const char* s)) { textOf(os).append(s); return os; }
VFRT_DEF(void*, vfrt_ls_c, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", (void* os, char c)) { textOf(os).push_back(c); return os; }
VFRT_DEF(void*, vfrt_ls_s, "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE", (void* os, const std::string& s)) { textOf(os).append(s); return os; }
VFRT_DEF(void*, vfrt_ls_i, "_ZNSolsEi", (void* os, int v)) { return putInt(os, v, v < 0); }
VFRT_DEF(void*, vfrt_ls_sh, "_ZNSolsEs", (void* os, short v)) { return putInt(os, v, v < 0); }
VFRT_DEF(void*, vfrt_ls_l, "_ZNSo9_M_insertIlEERSoT_", (void* os, long v)) { return putInt(os, v, v < 0); }
VFRT_DEF(void*, vfrt_ls_m, "_ZNSo9_M_insertImEERSoT_", (void* os, unsigned long v)) { return putInt(os, (long)v, false); }
VFRT_DEF(void*, vfrt_ls_x, "_ZNSo9_M_insertIxEERSoT_", (void* os, long v)) { return putInt(os, v, v < 0); }
VFRT_DEF(void*, vfrt_ls_y, "_ZNSo9_M_insertIyEERSoT_", (void* os, unsigned long v)) { return putInt(os, (long)v, false); }
VFRT_DEF(void*, vfrt_ls_b, "_ZNSo9_M_insertIbEERSoT_", (void* os, bool v)) { return putInt(os, v, false); }
VFRT_DEF(void*, vfrt_ls_p, "_ZNSo9_M_insertIPKvEERSoT_", (void* os, const void*)) { textOf(os).append("<ptr>"); return os; }
VFRT_DEF(void*, vfrt_ls_e, "_ZNSo9_M_insertIeEERSoT_", (void* os, long double)) { textOf(os).append("<real>"); return os; }
// doubles whose value is a concrete integer below 10^6 print as such under the default format
VFRT_DEF(void*, vfrt_ls_d, "_ZNSo9_M_insertIdEERSoT_", (void* os, double v)) {
  long bits; std::memcpy(&bits, &v, 8);
  if (vf_is_concrete(bits) && v > -1e6 && v < 1e6 && v == (double)(long)v) return putInt(os, (long)v, v < 0);
  textOf(os).append("<real>"); return os;
}
VFRT_DEF(void*, vfrt_endl, "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", (void* os)) { textOf(os).push_back('\n'); return os; }
VFRT_DEF(void*, vfrt_put, "_ZNSo3putEc", (void* os, char c)) { textOf(os).push_back(c); return os; }
VFRT_DEF(void*, vfrt_flush, "_ZNSo5flushEv", (void* os)) { return os; }
// construction virtual tables read by inlined stream destructors: only the virtual base offsets matter
extern "C" void* vfrt_vtt_ss[10] __asm__("_ZTTNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEE");
extern "C" void* vfrt_vtt_ss[10] = {vfrt_vtable_ss + 3, vfrt_vtable_ss + 3, vfrt_vtable_ss + 3, vfrt_vtable + 3, vfrt_vtable + 3, vfrt_vtable + 3, vfrt_vtable + 3, vfrt_vtable + 3, vfrt_vtable + 3, vfrt_vtable + 3};
extern "C" void* vfrt_vtt_oss[4] __asm__("_ZTTNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE");
extern "C" void* vfrt_vtt_oss[4] = {vfrt_vtable + 3, vfrt_vtable + 3, vfrt_vtable + 3, vfrt_vtable + 3};
// Input string streams, read by words or lines: the text lives in the string buffer, the position in its first pointer,
// and the state where inlined members look for it (the ios base lies 120 bytes after the istream, its state 32 bytes further).
#define ISS "_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE"
namespace {
long vfrt_vtable_iss[8] = {120, 0, 0, 120, 0, 0, 0, 0};
long& posOf(void* is) { return *(long*)((char*)is + 16 + 8); }
std::string& sourceOf(void* is) { return *(std::string*)((char*)is + 16 + 72); }
int& stateOf(void* is) { return *(int*)((char*)is + 120 + 32); }
void initIss(void* is) { std::memset(is, 0, 120 + 216); *(char**)is = (char*)(vfrt_vtable_iss + 3); *(long*)((char*)is + 120 + 8) = 6; new (&sourceOf(is)) std::string(); }
bool isBlank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
}
VFRT_DEF(void, vfrt_iss_c1, ISS "C1Ev", (char* t)) { initIss(t); }
VFRT_DEF(void, vfrt_iss_c1s, ISS "C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode", (char* t, const std::string& s, int)) { initIss(t); sourceOf(t) = s; }
VFRT_DEF(void, vfrt_iss_d1, ISS "D1Ev", (char* t)) { sourceOf(t).~basic_string(); }
VFRT_DEF(void*, vfrt_rs_s, "_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", (void* is, std::string& s)) {
  if (stateOf(is)) { stateOf(is) |= 4; return is; }
  long& p = posOf(is);
  const std::string& t = sourceOf(is);
  const long n = t.size();
  while (p < n && isBlank(t[p])) ++p;
  if (p == n) { stateOf(is) |= 2 | 4; return is; } // the string is left as is when the sentry fails
  s.erase();
  while (p < n && !isBlank(t[p])) s.push_back(t[p++]);
  if (p == n) stateOf(is) |= 2;
  return is;
}
VFRT_DEF(void*, vfrt_getline, "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", (void* is, std::string& s, char delim)) {
  if (stateOf(is)) { stateOf(is) |= 4; return is; }
  long& p = posOf(is);
  const std::string& t = sourceOf(is);
  const long n = t.size();
  s.erase();
  const long begin = p;
  while (p < n && t[p] != delim) s.push_back(t[p++]);
  if (p < n) ++p;
  else stateOf(is) |= p == begin ? 2 | 4 : 2;
  return is;
}
extern "C" void* vfrt_vtt_iss[4] __asm__("_ZTTNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEE");
extern "C" void* vfrt_vtt_iss[4] = {vfrt_vtable_iss + 3, vfrt_vtable_iss + 3, vfrt_vtable_iss + 3, vfrt_vtable_iss + 3};
// Complex multiplication and division, after C99 annex G (as libgcc).
namespace {
template <typename T> void mulC(T a, T b, T c, T d, T& x, T& y) {
  T ac = a * c, bd = b * d, ad = a * d, bc = b * c;
  x = ac - bd;
  y = ad + bc;
  if (x == x || y == y) return;
  auto inf = [](T v) { return __builtin_fabs(double(v)) > 1.7976931348623157e308 || (sizeof(T) == 4 && __builtin_fabs(double(v)) > 3.4028234663852886e38); };
  auto box = [&](T v) { return T(__builtin_copysign(inf(v) ? 1. : 0., double(v))); };
  auto zero = [](T v) { return v == v ? v : T(__builtin_copysign(0., double(v))); };
  bool recalc = false;
  if (inf(a) || inf(b)) { a = box(a); b = box(b); c = zero(c); d = zero(d); recalc = true; }
  if (inf(c) || inf(d)) { c = box(c); d = box(d); a = zero(a); b = zero(b); recalc = true; }
  if (!recalc && (inf(ac) || inf(bd) || inf(ad) || inf(bc))) { a = zero(a); b = zero(b); c = zero(c); d = zero(d); recalc = true; }
  if (recalc) { const T i = T(__builtin_inf()); x = i * (a * c - b * d); y = i * (a * d + b * c); }
}
template <typename T> void divC(T a, T b, T c, T d, T& x, T& y) {
  if ((c < 0 ? -c : c) < (d < 0 ? -d : d)) {
    const T r = c / d, n = c * r + d;
    x = (a * r + b) / n;
    y = (b * r - a) / n;
  } else {
    const T r = d / c, n = d * r + c;
    x = (b * r + a) / n;
    y = (b - a * r) / n;
  }
  if (x == x || y == y) return;
  auto inf = [](T v) { return __builtin_fabs(double(v)) > 1.7976931348623157e308 || (sizeof(T) == 4 && __builtin_fabs(double(v)) > 3.4028234663852886e38); };
  auto box = [&](T v) { return T(__builtin_copysign(inf(v) ? 1. : 0., double(v))); };
  auto finite = [&](T v) { return v == v && !inf(v); };
  const T i = T(__builtin_inf());
  if (c == 0 && d == 0 && (a == a || b == b)) { x = T(__builtin_copysign(double(i), double(c))) * a; y = T(__builtin_copysign(double(i), double(c))) * b; }
  else if ((inf(a) || inf(b)) && finite(c) && finite(d)) { a = box(a); b = box(b); x = i * (a * c + b * d); y = i * (b * c - a * d); }
  else if ((inf(c) || inf(d)) && finite(a) && finite(b)) { c = box(c); d = box(d); x = 0 * (a * c + b * d); y = 0 * (b * c - a * d); }
}
}
#define VFRT_COMPLEX(T, op, name) extern "C" T _Complex vfrt_##op##name(T a, T b, T c, T d) __asm__("__" #op #name); \
  extern "C" T _Complex vfrt_##op##name(T a, T b, T c, T d) { T x, y; op##C(a, b, c, d, x, y); T _Complex z; __real__ z = x; __imag__ z = y; return z; }
VFRT_COMPLEX(double, mul, dc3)
VFRT_COMPLEX(float, mul, sc3)
VFRT_COMPLEX(double, div, dc3)
VFRT_COMPLEX(float, div, sc3)
