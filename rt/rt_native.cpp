// Native side of the harness primitives: replays one model (inputs file) against the code built by the real compiler.
#include "vf.h"
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <cxxabi.h>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include <utility>
#include <map>

static std::vector<std::pair<std::string, long>>* g_in;
static size_t g_pos = 0;
static std::map<std::string, int>* g_cnt;
static long g_live = 0;
static long g_skew = 0;
static int g_fill = -1;

static void finish(int code, const char* what, const char* label) {
  printf("%s %s\n", what, label);
  fflush(stdout);
  _exit(code);
}
extern "C" {
long vf_int(const char* name, long lo, long hi) {
  const long live = g_live, skew = g_skew;
  g_skew = 0;
  std::string full = std::string(name) + "#" + std::to_string((*g_cnt)[name]++);
  if (full.size() < 16) g_live = live; else g_live = live + 1; // the bookkeeping is not part of the program
  g_skew = skew;
  if (lo > hi) finish(77, "VF_ASSUME", "empty range");
  if (g_pos >= g_in->size() || (*g_in)[g_pos].first != full) finish(78, "VF_INPUT_MISMATCH", full.c_str());
  long v = (*g_in)[g_pos++].second;
  if (v < lo || v > hi) finish(77, "VF_ASSUME", "range");
  return v;
}
void vf_assume(bool c) { if (!c) finish(77, "VF_ASSUME", "false"); }
void vf_assert(bool c, const char* label) { if (!c) finish(42, "VF_ASSERT_FAIL", label); }
void vf_reach(const char* label) { printf("REACH %s\n", label); }
long vf_split(long x) { return x; }
void vf_observe(const char* label, long v) { printf("OBS %s %ld\n", label, v); }
void vf_observe_d(const char* label, double v) { if (v != v) printf("OBS %s nan\n", label); else printf("OBS %s %a\n", label, v == 0 ? 0. : v); }
bool vf_same_d(double a, double b) { return a == b || (a != a && b != b); }
bool vf_same_f(float a, float b) { return a == b || (a != a && b != b); }
int vf_symbolic(void) { return 0; }
}
#ifndef VF_ASAN
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
// every block: [raw pointer][size] header placed just before the returned address
static const size_t HDR = 32;
static void* give(size_t n, size_t align, size_t skew) {
  if (n > ((size_t)1 << 40)) return nullptr;
  char* raw = (char*)__libc_malloc(n + HDR + align + 4096 + skew);
  if (!raw) return nullptr;
  size_t a = skew ? 4096 : align;
  size_t p = ((size_t)raw + HDR + a - 1) / a * a + skew;
  ((size_t*)p)[-1] = (size_t)raw; ((size_t*)p)[-2] = n;
  if (g_fill >= 0) memset((void*)p, g_fill, n);
  ++g_live;
  return (void*)p;
}
void* malloc(size_t n) { return give(n, 16, g_skew); }
void free(void* p) { if (!p) return; --g_live; if (g_fill >= 0) memset(p, g_fill ^ 0x5a, ((size_t*)p)[-2]); __libc_free((void*)((size_t*)p)[-1]); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = give(n, 16, g_skew); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); void* q = malloc(n); if (!q) return nullptr; size_t o = ((size_t*)p)[-2]; memcpy(q, p, o < n ? o : n); free(p); return q; }
void* memalign(size_t al, size_t n) { return give(n, al < 16 ? 16 : al, 0); }
void* aligned_alloc(size_t al, size_t n) { return give(n, al < 16 ? 16 : al, 0); }
int posix_memalign(void** out, size_t al, size_t n) { *out = give(n, al < 16 ? 16 : al, 0); return *out ? 0 : 12; }
}
extern "C" long vf_heap_live(void) { return g_live; }
#else
extern "C" long vf_heap_live(void) { return 0; }
#endif
extern "C" void vf_heap_skew(long s) { g_skew = s; }

static char g_outbuf[1 << 16];
int main(int argc, char** argv) {
  setvbuf(stdout, g_outbuf, _IOFBF, sizeof g_outbuf);
  std::vector<std::pair<std::string, long>> in; g_in = &in; std::map<std::string, int> cnt; g_cnt = &cnt;
  FILE* f = fopen(argv[2], "r");
  if (!f) return 79;
  char nm[256]; long v;
  while (fscanf(f, "%255s %ld", nm, &v) == 2) in.push_back({nm, v});
  fclose(f);
  if (argc > 3) g_fill = atoi(argv[3]);
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry\n"); return 79; }
  in.reserve(1000);
  try { fn(); }
  catch (const std::exception& e) { g_fill = -1; finish(43, "VF_EXCEPTION", typeid(e).name()); }
  catch (...) { g_fill = -1; finish(43, "VF_EXCEPTION", "non-std"); }
  g_fill = -1;
  printf("VF_DONE\n");
  fflush(stdout);
  _exit(0);
}
