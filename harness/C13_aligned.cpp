#include "lt.h"
#include <LitlContainer/AlignedBuffer.h>
// NOTE: sizes 0 to 4 and up to 70000 (the allocated sizes are checked through the bounds of every access); alignment requirements: default, SIMD, powers of two from 1 to 256 and 24 (1 to 20 for shared memory), any malloc'ed address modulo 4096 which malloc may return (multiples of 16), any address modulo 256 for shared memory; histories of up to 3 copies, moves, assignments, releases and resets over 3 buffers

static long pickAlign() {
  const long k = vf_pick("align", -2, 9);
  return k == -2 ? 0 : k == -1 ? -1 : k == 9 ? 24 : 1L << k;
}
// owned memory
template <typename T>
static void owning() {
  vf_heap_skew(16 * vf_pick("skew", 0, 15));
  const long align = pickAlign();
  const long n = vf_pick("n", 0, 3);
  const long live = vf_heap_live();
  {
    AlignedBuffer<T> b(n, nullptr, align);
    vf_assert(b.owns() && (long)b.size() == n, "owns its data");
    vf_assert((long)b.alignmentReq() == (align <= 0 ? 64 : align), "alignment requirement");
    vf_assert(std::uintptr_t(b.data()) % b.alignmentReq() == 0, "data is aligned");
    vf_assert(b.alignment() >= (align == 24 ? 8 : b.alignmentReq()) && std::uintptr_t(b.data()) % b.alignment() == 0 && std::uintptr_t(b.data()) % (2 * b.alignment()) != 0, "actual alignment is the highest power of two");
    vf_assert(vf_heap_live() == live + 1, "one allocation");
    T* d = const_cast<T*>(b.data());
    for (long i = 0; i < n; ++i) d[i] = T(i);
    for (long i = 0; i < n; ++i) vf_assert(b.data()[i] == T(i), "memory is usable");
  }
  vf_assert(vf_heap_live() == live, "freed by the destructor");
  vf_reach("end");
}
VF_CASE(owningInt) { owning<int>(); }
VF_CASE(owningDouble) { owning<double>(); }
VF_CASE(owningChar) { owning<char>(); }

// shared memory
VF_CASE(sharing) {
  const long align = pickAlign();
  vf_assume(align != 24); // see anyAlignment
  const long off = vf_int("off", 0, 120);
  alignas(1024) char data[128];
  data[off] = 3;
  bool thrown = false;
  const long live = vf_heap_live();
  try {
    AlignedBuffer<char> b(5, data + off, align);
    vf_assert(!b.owns() && b.data() == data + off && b.size() == 5, "shares the data");
    vf_assert((long)b.alignmentReq() == (align == 0 ? 1 : align == -1 ? 64 : align), "requirement");
    vf_assert(off % b.alignmentReq() == 0, "alignment is checked");
    AlignedBuffer<char> c(b);
    vf_assert(!c.owns() && c.data() == b.data() && c.size() == 5 && c.alignmentReq() == b.alignmentReq(), "copies share the data too");
    vf_assert(vf_heap_live() == live, "no allocation");
    AlignedBuffer<char> d(2);
    d = b;
    vf_assert(!d.owns() && d.data() == b.data() && d.size() == 5, "assigned buffers share the data too");
    vf_assert(vf_heap_live() == live, "the previous data is freed");
  } catch (const AlignmentError&) {
    thrown = true;
  }
  vf_assert(thrown == (align > 0 && off % align != 0) || (align == -1 && thrown == (off % 64 != 0)), "throws iff unaligned");
  vf_assert(data[off] == 3, "data is untouched");
  vf_reach("end");
}
VF_CASE(alignments) {
  alignas(1024) char data[1024];
  const long off = vf_int("off", 1, 700);
  const char* p = data + off;
  const long as = 1L << vf_pick("as", 0, 9);
  vf_assert(isAligned(p, as) == (off % as == 0), "isAligned");
  const long a = alignment(p);
  vf_assert((a & (a - 1)) == 0 && off % a == 0 && off % (2 * a) != 0, "alignment is the highest power of two");
  vf_assert(vf_throws_as<NullPtrError>([]() { isAligned((const int*)nullptr, 4); }) && vf_throws_as<NullPtrError>([]() { alignment((const int*)nullptr); }), "null pointers have no alignment");
  vf_reach("end");
}

// alignments may be any number of bytes, e.g. the size of a structure
VF_CASE(anyAlignment) {
  static char memory[128];
  const long off = vf_pick("off", 0, 49);
  const long as = vf_pick("as", 1, 20);
  char* data = memory + (as - std::uintptr_t(memory) % as) % as; // same residues wherever the memory is
  const std::uintptr_t a = std::uintptr_t(data + off);
  vf_assert(isAligned(data + off, as) == (a % as == 0), "isAligned");
  bool thrown = false;
  try {
    AlignedBuffer<char> b(5, data + off, as);
    vf_assert((long)b.alignmentReq() == as && b.data() == data + off, "requirement");
  } catch (const AlignmentError&) {
    thrown = true;
  }
  vf_assert(thrown == (a % as != 0), "throws iff unaligned");
  vf_reach("end");
}
// histories: every block is freed exactly once, and values follow
VF_CASE(histories) {
  const long live = vf_heap_live();
  int shared[2] = {70, 71};
  void* released[8];
  const long s0 = vf_pick("s0", 1, 3);
  vf_heap_skew(16);
  int nReleased = 0;
  {
    AlignedBuffer<int> b[3] = {AlignedBuffer<int>(s0, nullptr, 16), AlignedBuffer<int>(1, nullptr, 256), AlignedBuffer<int>(2, shared)};
    // reference model: size, values, owning, alignment requirement
    long size[3] = {s0, 1, 2};
    long req[3] = {16, 256, 1};
    const int x = vf_int("x", -1000, 1000), y = vf_int("y", -1000, 1000);
    int val[3] = {x, y, 70};
    bool own[3] = {true, true, false};
    const_cast<int*>(b[0].data())[0] = x;
    for (long l = 1; l < s0; ++l) const_cast<int*>(b[0].data())[l] = x + l;
    const_cast<int*>(b[1].data())[0] = y;
    for (int step = 0; step < 3; ++step) {
      const long op = vf_pick("op", 0, 3), i = vf_pick("i", 0, 2), j = op < 2 ? vf_pick("j", 0, 2) : i;
      if (op == 0) { // copy assignment
        b[i] = b[j];
        if (i != j && size[j] > 0 && own[j]) vf_assert(b[i].data() != b[j].data(), "deep copy");
        size[i] = size[j]; val[i] = val[j]; own[i] = own[j]; req[i] = req[j];
      } else if (op == 1) { // move assignment
        const int* d = b[j].data();
        b[i] = std::move(b[j]);
        vf_assert(b[i].data() == d, "moves do not copy");
        if (i != j) {
          size[i] = size[j]; val[i] = val[j]; own[i] = own[j];
          req[i] = req[j]; req[j] = 1; size[j] = 0; own[j] = false;
          vf_assert(b[j].data() == nullptr, "moved-from buffers are empty");
        }
      } else if (op == 2) {
        const int* d = b[i].data();
        void* r = b[i].release();
        vf_assert((r != nullptr) == own[i] && b[i].data() == d, "release gives ownership away");
        if (r) released[nReleased++] = r;
        own[i] = false;
      } else {
        b[i].reset();
        size[i] = 0; own[i] = false; req[i] = 1;
        vf_assert(b[i].data() == nullptr && b[i].alignmentReq() == 1, "reset");
      }
      for (int k = 0; k < 3; ++k) {
        vf_assert((long)b[k].size() == size[k] && b[k].owns() == own[k], "size and ownership");
        vf_assert((long)b[k].alignmentReq() == req[k], "alignment requirement");
        if (own[k]) vf_assert(std::uintptr_t(b[k].data()) % req[k] == 0, "data is aligned");
        for (long l = 0; l < size[k]; ++l) vf_assert(b[k].data()[l] == val[k] + l, "values");
      }
      vf_assert(vf_heap_live() == live + own[0] + own[1] + own[2] + nReleased, "one block per owner");
    }
  }
  vf_assert(vf_heap_live() == live + nReleased, "owned blocks are freed");
  for (int k = 0; k < nReleased; ++k) std::free(released[k]);
  vf_assert(vf_heap_live() == live && shared[0] == 70 && shared[1] == 71, "released blocks may be freed");
  vf_reach("end");
}
VF_CASE(construction) {
  const long live = vf_heap_live();
  const long n = vf_pick("n", 0, 3);
  {
    AlignedBuffer<long> a(n, nullptr, 128);
    for (long i = 0; i < n; ++i) const_cast<long*>(a.data())[i] = vf_int("x", -1000, 1000);
    AlignedBuffer<long> c(a);
    vf_assert(c.owns() && c.data() != a.data() && c.size() == a.size() && c.alignmentReq() == 128 && isAligned(c.data(), 128), "copies own an aligned copy");
    for (long i = 0; i < n; ++i) vf_assert(c.data()[i] == a.data()[i], "values are copied");
    const long* d = a.data();
    AlignedBuffer<long> m(std::move(a));
    vf_assert(m.owns() && m.data() == d && (long)m.size() == n && m.alignmentReq() == 128 && !a.owns() && a.size() == 0, "moves steal the data");
    vf_assert(vf_heap_live() == live + 2, "two owners");
  }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
// rasters
VF_CASE(rasters) {
  const long live = vf_heap_live();
  const long align = pickAlign();
  {
    AlignedRaster<int, 2> r({2, 2}, nullptr, align);
    vf_assert(r.owns() && isAligned(r.data(), align <= 0 ? 64 : align), "aligned raster");
    r.fill(3);
    AlignedRaster<int, 2> v({2, 2}, r.data(), align <= 0 ? 64 : align);
    v[1] = 4;
    vf_assert(!v.owns() && r[1] == 4 && r[0] == 3, "shared raster");
  }
  vf_assert(vf_heap_live() == live, "no leak");
  vf_reach("end");
}
// larger buffers and alignments
VF_CASE(large) {
  static const long sizes[] = {0, 1, 5, 7, 8, 9, 16, 17, 31, 100, 255, 256, 257, 1000, 1025};
  vf_heap_skew(16 * vf_pick("skew", 0, 255));
  const long n = sizes[vf_pick("n", 0, 14)], align = 1l << vf_pick("align", 7, 13);
  const long live = vf_heap_live();
  const long x = vf_int("x", -1000000, 1000000);
  {
    AlignedBuffer<int> b(n, nullptr, align);
    vf_assert(b.owns() && (long)b.size() == n && (long)b.alignmentReq() == align, "owns its data");
    vf_assert(std::uintptr_t(b.data()) % align == 0 && isAligned(b.data(), align) && (long)b.alignment() >= align, "data is aligned");
    int* d = const_cast<int*>(b.data());
    for (long i = 0; i < n; ++i) d[i] = int(x + i);
    AlignedBuffer<int> c(b);
    vf_assert(c.owns() && c.data() != b.data() && (long)c.size() == n && std::uintptr_t(c.data()) % align == 0, "copies are aligned");
    AlignedBuffer<int> e(3);
    e = b;
    for (long i = 0; i < n; ++i) vf_assert(b.data()[i] == x + i && c.data()[i] == x + i && e.data()[i] == x + i, "values are copied");
    vf_assert(std::uintptr_t(e.data()) % align == 0, "assigned buffers are aligned");
  }
  vf_assert(vf_heap_live() == live, "freed by the destructor");
  vf_reach("end");
}
// any alignment requirement of owned memory, power of two or not
VF_CASE(owningAny) {
  vf_heap_skew(16 * vf_pick("skew", 0, 31));
  const long align = vf_pick("align", 1, 70), n = vf_pick("n", 1, 2) * 5;
  const long live = vf_heap_live();
  {
    bool thrown = false;
    try {
      AlignedBuffer<char> b(n, nullptr, align);
      vf_assert(std::uintptr_t(b.data()) % align == 0 && (long)b.alignmentReq() == align, "data is aligned");
      char* d = const_cast<char*>(b.data());
      for (long i = 0; i < n; ++i) d[i] = char(i);
      for (long i = 0; i < n; ++i) vf_assert(b.data()[i] == char(i), "memory is usable");
    } catch (const Exception&) {
      thrown = true;
    }
    vf_assert(!thrown, "any requirement");
  }
  vf_assert(vf_heap_live() == live, "freed by the destructor");
  vf_reach("end");
}
// large sizes
VF_CASE(large_copies) {
  const long sizes[] = {1000, 4096, 4097, 70000}, n = sizes[vf_pick("n", 0, 3)], align = pickAlign();
  const long live = vf_heap_live();
  {
    AlignedBuffer<int> b(n, nullptr, align);
    vf_assert(long(b.size()) == n && b.owns() && std::uintptr_t(b.data()) % b.alignmentReq() == 0, "aligned memory");
    int* d = const_cast<int*>(b.data());
    for (long i = 0; i < n; ++i) d[i] = int(i);
    const int x = vf_int("x", -1000, 1000);
    d[n - 1] = x;
    AlignedBuffer<int> c(b);
    vf_assert(c.owns() && c.data() != b.data() && std::uintptr_t(c.data()) % c.alignmentReq() == 0, "aligned copy");
    bool same = true;
    for (long i = 0; i < n - 1; ++i) same = same && c.data()[i] == i;
    vf_assert(same && c.data()[n - 1] == x, "copied elements");
    AlignedBuffer<int> a(3);
    a = b;
    same = true;
    for (long i = 0; i < n - 1; ++i) same = same && a.data()[i] == i;
    vf_assert(same && a.data()[n - 1] == x && a.data() != b.data(), "assigned elements");
    AlignedBuffer<int> m(std::move(b));
    vf_assert(m.data() == d && m.data()[n - 1] == x && m.owns(), "moved elements");
  }
  vf_assert(vf_heap_live() == live, "freed");
  vf_reach("end");
}
// defaults
VF_CASE(defaults) {
  vf_heap_skew(16 * vf_pick("skew", 0, 7));
  const long n = vf_pick("n", 0, 3), live = vf_heap_live();
  {
    AlignedBuffer<int> b(n);
    vf_assert(b.owns() && long(b.size()) == n && b.alignmentReq() == 64 && std::uintptr_t(b.data()) % 64 == 0, "owned memory is aligned for SIMD by default");
    AlignedRaster<int, 1> r({n});
    vf_assert(r.owns() && long(r.size()) == n && r.alignmentReq() == 64 && std::uintptr_t(r.data()) % 64 == 0, "rasters too");
    AlignedBuffer<int> e(5, nullptr, 256);
    e = std::move(b);
    vf_assert(e.owns() && e.alignmentReq() == 64 && long(e.size()) == n, "moved");
    vf_assert(!b.owns() && b.size() == 0 && b.data() == nullptr && b.alignmentReq() == 1, "nothing left after a move assignment");
    AlignedBuffer<int> m(std::move(e));
    vf_assert(!e.owns() && e.size() == 0 && e.data() == nullptr && e.alignmentReq() == 1, "nothing left after a move construction");
    const long off = vf_int("off", 0, 60);
    alignas(64) char data[128];
    AlignedBuffer<char> s(5, data + off);
    vf_assert(!s.owns() && s.data() == data + off && s.alignmentReq() == 1, "no requirement on shared memory by default");
    AlignedBuffer<char> t(std::move(s));
    vf_assert(!t.owns() && t.data() == data + off && t.size() == 5 && s.size() == 0 && s.data() == nullptr, "shared memory is moved, too");
  }
  vf_assert(vf_heap_live() == live, "freed by the destructor");
  vf_reach("end");
}

