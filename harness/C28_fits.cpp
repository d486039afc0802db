#include "lt.h"
#include <LitlIo/Fits.h>
#include <cstring>
#include <limits>
// NOTE: shapes 1 to 3 along each axis, dimensions 1 to 3 and variable, up to 5x3x4 and 16x1x16 in dimension 3 and up to 2x3x4x2x2 and 2x1x4x3x1x2 in dimensions 5 and 6, 300 pixels in dimension 1 and 17x15 in dimension 2; any value of the integer types, float and double (for the conversions, any multiple of 2^-6 within [-2^17, 2^17]); sequences of up to 4 operations on up to 2 files, failing at any CFITSIO call. CFITSIO itself is a stub (an in-memory file table), written after its manual: functions do nothing when the status is positive, except that closing a file releases it anyway; values which do not fit set the status to NUM_OVERFLOW; creating an existing file fails

// ---------------------------------------------------------------- CFITSIO stub
struct Num {
  bool fp;
  double d;
  long i;
  bool big; // unsigned value above the range of long
};
struct File {
  char name[16];
  bool exists;
  int bitpix, naxis, count;
  long dims[6];
  Num pix[300];
};
static File g_files[2];
static int g_open = 0, g_ops = 0, g_fault = -1, g_overflows = 0;
static fitsfile g_handles[2];
static bool g_live[2];

static bool op(int* status) { // whether to execute
  if (*status > 0) return false;
  if (g_ops++ == g_fault) { *status = 999; return false; }
  return true;
}
static int find(const char* name, bool create) {
  for (int f = 0; f < 2; ++f) if (g_files[f].name[0] && std::string(g_files[f].name) == name) return f;
  if (create)
    for (int f = 0; f < 2; ++f)
      if (!g_files[f].name[0]) {
        int i = 0;
        for (; name[i] && i < 15; ++i) g_files[f].name[i] = name[i];
        g_files[f].name[i] = 0;
        return f;
      }
  return -1;
}
static File* get(fitsfile* p, int* status) {
  if (!p) { *status = NULL_INPUT_PTR; return nullptr; }
  const int h = int(p - g_handles);
  vf_assert(h >= 0 && h < 2 && g_live[h], "open file");
  return &g_files[h];
}
static int open(fitsfile** fptr, const char* name, bool create, int* status) {
  if (*status > 0) return *status;
  *fptr = nullptr;
  if (!op(status)) return *status;
  int f = find(name, create);
  if (create && g_files[f].exists) return *status = FILE_NOT_CREATED;
  if (!create && (f < 0 || !g_files[f].exists)) return *status = FILE_NOT_OPENED;
  if (create) g_files[f].exists = true, g_files[f].naxis = 0, g_files[f].count = 0, g_files[f].bitpix = 8;
  vf_assert(!g_live[f], "files are closed before they are opened again");
  g_live[f] = true;
  ++g_open;
  *fptr = g_handles + f;
  return 0;
}
static int width(int type) {
  switch (type) {
    case TBYTE: case TSBYTE: return 1;
    case TSHORT: case TUSHORT: return 2;
    case TINT: case TUINT: case TFLOAT: return 4;
    default: return 8;
  }
}
static Num load(int type, const void* p, long i) {
  Num n { false, 0, 0, false };
  switch (type) {
    case TBYTE: n.i = ((const unsigned char*)p)[i]; break;
    case TSBYTE: n.i = ((const signed char*)p)[i]; break;
    case TSHORT: n.i = ((const short*)p)[i]; break;
    case TUSHORT: n.i = ((const unsigned short*)p)[i]; break;
    case TINT: n.i = ((const int*)p)[i]; break;
    case TUINT: n.i = ((const unsigned*)p)[i]; break;
    case TLONG: case TLONGLONG: n.i = ((const long*)p)[i]; break;
    case TULONG: case TULONGLONG: n.i = ((const long*)p)[i]; n.big = n.i < 0; break;
    case TFLOAT: n.fp = true; n.d = ((const float*)p)[i]; break;
    case TDOUBLE: n.fp = true; n.d = ((const double*)p)[i]; break;
    default: vf_assert(false, "known data type");
  }
  return n;
}
/// Whether the value is in the range of the type
static bool fits(int type, const Num& n) {
  switch (type) {
    case TBYTE: return !n.big & n.i >= 0 & n.i <= 255;
    case TSBYTE: return !n.big & n.i >= -128 & n.i <= 127;
    case TSHORT: return !n.big & n.i >= -32768 & n.i <= 32767;
    case TUSHORT: return !n.big & n.i >= 0 & n.i <= 65535;
    case TINT: return !n.big & n.i >= -2147483648L & n.i <= 2147483647L;
    case TUINT: return !n.big & n.i >= 0 & n.i <= 4294967295L;
    case TLONG: case TLONGLONG: return !n.big;
    case TULONG: case TULONGLONG: return n.big | n.i >= 0;
    default: return true;
  }
}
static Num convert(int type, Num n) {
  const bool fp = type == TFLOAT || type == TDOUBLE;
  if (fp && !n.fp) n.d = n.big ? double((unsigned long)n.i) : double(n.i);
  if (type == TFLOAT) n.d = float(n.d);
  if (!fp && n.fp) n.i = long(n.d), n.big = false;
  n.fp = fp;
  return n;
}
static void store(int type, void* p, long i, const Num& n) {
  switch (type) {
    case TBYTE: case TSBYTE: ((signed char*)p)[i] = (signed char)n.i; break;
    case TSHORT: case TUSHORT: ((short*)p)[i] = short(n.i); break;
    case TINT: case TUINT: ((int*)p)[i] = int(n.i); break;
    case TLONG: case TLONGLONG: case TULONG: case TULONGLONG: ((long*)p)[i] = n.i; break;
    case TFLOAT: ((float*)p)[i] = float(n.d); break;
    case TDOUBLE: ((double*)p)[i] = n.d; break;
    default: vf_assert(false, "known data type");
  }
}
/// Type which has the range of an image
static int memory(int bitpix) {
  switch (bitpix) {
    case BYTE_IMG: return TBYTE;
    case SBYTE_IMG: return TSBYTE;
    case SHORT_IMG: return TSHORT;
    case USHORT_IMG: return TUSHORT;
    case LONG_IMG: return TINT;
    case ULONG_IMG: return TUINT;
    case LONGLONG_IMG: return TLONGLONG;
    case ULONGLONG_IMG: return TULONGLONG;
    case FLOAT_IMG: return TFLOAT;
    case DOUBLE_IMG: return TDOUBLE;
    default: return 0;
  }
}
static long pixel(const File* f, const long* first) { // one-based
  long i = 0, stride = 1;
  for (int d = 0; d < f->naxis; ++d) { i += (first[d] - 1) * stride; stride *= f->dims[d]; }
  return i + 1;
}
extern "C" {
int ffopen(fitsfile** fptr, const char* name, int, int* status) { return open(fptr, name, false, status); }
int ffopentest(int, fitsfile** fptr, const char* name, int, int* status) { return open(fptr, name, false, status); }
int ffinit(fitsfile** fptr, const char* name, int* status) {
  if (name[0] != '!') return open(fptr, name, true, status);
  if (*status > 0) return *status;
  const int f = find(name + 1, false); // overwrite
  if (f >= 0) g_files[f].exists = false;
  return open(fptr, name + 1, true, status);
}
int ffcrim(fitsfile* p, int bitpix, int naxis, long* naxes, int* status) {
  if (!op(status)) return *status;
  File* f = get(p, status);
  if (!f) return *status;
  if (!memory(bitpix)) return *status = BAD_BITPIX;
  vf_assert(naxis >= 0 && naxis <= 6, "number of axes");
  f->bitpix = bitpix, f->naxis = naxis, f->count = naxis > 0;
  for (int d = 0; d < naxis; ++d) { f->dims[d] = naxes[d]; f->count *= int(naxes[d]); }
  vf_assert(f->count <= 300, "size of the image");
  for (int i = 0; i < f->count; ++i) f->pix[i] = convert(memory(bitpix), Num { false, 0, 0, false });
  return 0;
}
int ffgidm(fitsfile* p, int* naxis, int* status) {
  if (!op(status)) return *status;
  if (File* f = get(p, status)) *naxis = f->naxis;
  return *status;
}
int ffgidt(fitsfile* p, int* type, int* status) {
  if (!op(status)) return *status;
  if (File* f = get(p, status)) *type = f->bitpix;
  return *status;
}
int ffgisz(fitsfile* p, int n, long* naxes, int* status) {
  if (!op(status)) return *status;
  if (File* f = get(p, status)) for (int d = 0; d < n && d < f->naxis; ++d) naxes[d] = f->dims[d];
  return *status;
}
int ffgpv(fitsfile* p, int type, LONGLONG first, LONGLONG count, void* nul, void* data, int* any, int* status) {
  if (!op(status)) return *status;
  File* f = get(p, status);
  if (!f) return *status;
  if (first < 1 || first - 1 + count > f->count) return *status = BAD_ELEM_NUM;
  bool ok = true;
  Num null { false, 0, 0, false };
  if (nul) null = load(type, nul, 0);
  const bool replace = null.fp ? null.d != 0 : null.i != 0; // NaNs are null pixels, to be replaced if some value is given
  if (any) *any = 0;
  for (long i = 0; i < count; ++i) {
    const Num& m = f->pix[first - 1 + i];
    if (replace && m.fp && m.d != m.d) {
      if (any) *any = 1;
      store(type, data, i, null);
      continue;
    }
    const Num n = convert(type, m);
    ok = ok & fits(type, n);
    store(type, data, i, n);
  }
  if (!ok) *status = NUM_OVERFLOW;
  return *status;
}
int ffppr(fitsfile* p, int type, LONGLONG first, LONGLONG count, void* data, int* status) {
  if (!op(status)) return *status;
  File* f = get(p, status);
  if (!f) return *status;
  if (first < 1 || first - 1 + count > f->count) return *status = BAD_ELEM_NUM;
  bool ok = true;
  for (long i = 0; i < count; ++i) {
    const Num n = convert(memory(f->bitpix), load(type, data, i));
    ok = ok & fits(memory(f->bitpix), n);
    f->pix[first - 1 + i] = n;
  }
  if (!ok) *status = NUM_OVERFLOW;
  return *status;
}
int ffgpxv(fitsfile* p, int type, long* first, LONGLONG count, void* nul, void* data, int* any, int* status) {
  if (*status > 0) return *status;
  File* f = get(p, status);
  return f ? ffgpv(p, type, pixel(f, first), count, nul, data, any, status) : *status;
}
int ffppx(fitsfile* p, int type, long* first, LONGLONG count, void* data, int* status) {
  if (*status > 0) return *status;
  File* f = get(p, status);
  return f ? ffppr(p, type, pixel(f, first), count, data, status) : *status;
}
int ffclos(fitsfile* p, int* status) {
  int local = 0;
  File* f = get(p, &local);
  if (!f) return *status = *status > 0 ? *status : local;
  g_live[p - g_handles] = false;
  --g_open;
  op(status);
  return *status;
}
int ffdelt(fitsfile* p, int* status) {
  int local = 0;
  File* f = get(p, &local);
  if (!f) return *status = *status > 0 ? *status : local;
  g_live[p - g_handles] = false;
  f->exists = false;
  --g_open;
  op(status);
  return *status;
}
void ffgerr(int, char* text) { text[0] = 'E'; text[1] = 0; }
void ffcmsg(void) {}
void ffrprt(FILE*, int) {}
}

// ---------------------------------------------------------------- checks
template <typename T>
static T value() {
  if (std::is_floating_point<T>::value) {
    return T(vf_dyadic("v", -(1L << 23), 1L << 23, 6));
  }
  return T(vf_int("v", std::numeric_limits<long>::min(), std::numeric_limits<long>::max()));
}
template <typename T>
static bool same(T a, T b) { return a == b || (a != a && b != b); }
template <typename TRaster>
static void roundtrip() {
  using T = std::remove_const_t<typename TRaster::Value>;
  constexpr Index N = TRaster::Dimension;
  const Index dim = N == -1 ? vf_pick("dim", 1, 3) : N;
  Position<N> shape(dim);
  for (Index i = 0; i < dim; ++i) shape[i] = vf_pick("shape", 1, i == 1 ? 3 : 2);
  TRaster in(shape);
  const long size = long(in.size());
  std::vector<T> ref(size);
  for (long i = 0; i < size; ++i) in[i] = ref[i] = value<T>();
  Fits io("a.fits");
  io.write(in);
  vf_assert(g_open == 0, "the file is closed after writing");
  vf_assert(in.shape() == shape, "the written raster is unchanged");
  for (long i = 0; i < size; ++i) vf_assert(same<T>(in[i], ref[i]), "the written raster is unchanged");
  const File& f = g_files[0];
  vf_assert(std::string(f.name) == "a.fits" && f.exists, "the file is created");
  vf_assert(f.naxis == dim && f.count == size, "number of axes and pixels");
  for (Index i = 0; i < dim; ++i) vf_assert(f.dims[i] == shape[i], "the axes are in order");
  for (long i = 0; i < size; ++i) {
    const Num& n = f.pix[i];
    vf_assert(std::is_floating_point<T>::value ? n.fp && same<double>(n.d, double(ref[i])) : !n.fp && n.i == long(ref[i]) && n.big == (ref[i] > T(0) && long(ref[i]) < 0), "the pixels are in order");
  }
  for (int k = 0; k < 2; ++k) { // with the same object and another one
    Fits other("a.fits");
    const auto out = (k ? other : io).template read<TRaster>();
    vf_assert(g_open == 0, "the file is closed after reading");
    vf_assert(out.shape() == shape && long(out.size()) == size, "same shape");
    for (long i = 0; i < size; ++i) vf_assert(same<T>(out[i], ref[i]), "same values");
  }
  vf_reach("end");
}
VF_CASE(char_2) { roundtrip<Raster<char, 2>>(); }
VF_CASE(schar_2) { roundtrip<Raster<signed char, 2>>(); }
VF_CASE(uchar_1) { roundtrip<Raster<unsigned char, 1>>(); }
VF_CASE(short_2) { roundtrip<Raster<short, 2>>(); }
VF_CASE(ushort_2) { roundtrip<Raster<unsigned short, 2>>(); }
VF_CASE(int_3) { roundtrip<Raster<int, 3>>(); }
VF_CASE(uint_2) { roundtrip<Raster<unsigned, 2>>(); }
VF_CASE(long_v) { roundtrip<Raster<long, -1>>(); }
VF_CASE(ulong_2) { roundtrip<Raster<unsigned long, 2>>(); }
VF_CASE(longlong_1) { roundtrip<Raster<long long, 1>>(); }
VF_CASE(ulonglong_1) { roundtrip<Raster<unsigned long long, 1>>(); }
VF_CASE(float_2) { roundtrip<Raster<float, 2>>(); }
VF_CASE(double_v) { roundtrip<Raster<double, -1>>(); }
VF_CASE(aligned_float_2) { roundtrip<AlignedRaster<float, 2>>(); }
VF_CASE(aligned_short_v) { roundtrip<AlignedRaster<short, -1>>(); }

template <typename T>
static void special() {
  using L = std::numeric_limits<T>;
  const T specials[] = { L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::lowest(), L::min(), L::denorm_min(), T(-0.) };
  Raster<T, 1> in({8});
  for (int i = 0; i < 8; ++i) in[i] = specials[i];
  Fits io("a.fits");
  io.write(in);
  const auto out = io.template read<Raster<T, 1>>();
  for (int i = 0; i < 8; ++i) vf_assert(same<T>(out[i], specials[i]), "special values");
  vf_reach("end");
}
VF_CASE(special_float) { special<float>(); }
VF_CASE(special_double) { special<double>(); }

VF_CASE(ptr_raster) {
  short data[6];
  for (auto& e : data) e = value<short>();
  PtrRaster<short, 2> in({2, 3}, data);
  Fits io("a.fits");
  io.write(in);
  const auto out = io.read<Raster<short, 2>>();
  vf_assert(out.shape() == in.shape(), "same shape");
  for (int i = 0; i < 6; ++i) vf_assert(out[i] == data[i], "same values");
  vf_reach("end");
}

// Failure of any call of an operation
template <typename T, Index N>
static void faults(bool reading) {
  Position<N> shape(2);
  shape[0] = 2, shape[1] = vf_pick("shape", 1, 2);
  Raster<T, N> in(shape);
  for (auto& e : in) e = value<T>();
  Fits io("a.fits");
  if (reading) io.write(in);
  const int before = g_ops;
  g_fault = before + int(vf_pick("fault", 0, 7));
  bool thrown = false, exc = false;
  try {
    if (reading) {
      const auto out = io.template read<Raster<T, N>>();
      for (std::size_t i = 0; i < in.size(); ++i) vf_assert(out[i] == in[i], "values read by a successful call");
    } else {
      io.write(in);
    }
  } catch (const Exception&) {
    thrown = exc = true;
  } catch (...) {
    thrown = true;
  }
  vf_assert(thrown == (g_ops > g_fault), "an exception is thrown if and only if CFITSIO fails");
  vf_assert(exc == thrown, "the exception is an Exception of the library");
  vf_assert(g_open == 0, "the file is closed");
  g_fault = -1;
  if (!reading) {
    g_files[0].exists = false;
    io.write(in);
  }
  const auto out = io.template read<Raster<T, N>>();
  vf_assert(out.shape() == shape, "the object can be used after a failure");
  for (std::size_t i = 0; i < in.size(); ++i) vf_assert(out[i] == in[i], "the object can be used after a failure");
  vf_assert(g_open == 0, "the file is closed");
  vf_reach("end");
}
VF_CASE(fault_write_int_2) { faults<int, 2>(false); }
VF_CASE(fault_read_int_2) { faults<int, 2>(true); }
VF_CASE(fault_write_ushort_v) { faults<unsigned short, -1>(false); }
VF_CASE(fault_read_ushort_v) { faults<unsigned short, -1>(true); }

VF_CASE(missing_existing) {
  Raster<int, 1> a({2}), b({3});
  for (auto& e : a) e = value<int>();
  for (auto& e : b) e = value<int>();
  Fits io("a.fits"), other("b.fits");
  vf_assert(vf_throws_as<Exception>([&] { io.read<Raster<int, 1>>(); }), "reading a missing file throws");
  vf_assert(!g_files[0].exists && g_open == 0, "no file is created");
  io.write(a);
  vf_assert(vf_throws_as<Exception>([&] { io.write(b); }), "overwriting a file throws");
  vf_assert(vf_throws_as<Exception>([&] { other.read<Raster<int, 1>>(); }), "reading a missing file throws");
  other.write(b);
  const auto outa = io.read<Raster<int, 1>>();
  const auto outb = other.read<Raster<int, 1>>();
  vf_assert(outa.size() == 2 && outa[0] == a[0] && outa[1] == a[1], "an existing file is unchanged");
  vf_assert(outb.size() == 3 && outb[0] == b[0] && outb[1] == b[1] && outb[2] == b[2], "files are independent");
  vf_assert(g_open == 0, "the files are closed");
  vf_reach("end");
}

// Image of any dimension
template <Index N>
static void dimension() {
  const Index dim = vf_pick("naxis", 1, 3);
  Position<-1> shape(dim);
  for (Index i = 0; i < dim; ++i) shape[i] = vf_pick("shape", 1, 2);
  Raster<int, -1> in(shape);
  for (auto& e : in) e = value<int>();
  Fits io("a.fits");
  io.write(in);
  const long live = vf_heap_live();
  bool thrown = false;
  try {
    const auto out = io.read<Raster<int, N>>();
    vf_assert(Index(out.dimension()) == dim && out.size() == in.size(), "an image of another dimension is not read");
    for (std::size_t i = 0; i < in.size(); ++i) vf_assert(out[i] == in[i], "same values");
  } catch (const Exception&) {
    thrown = true;
  }
  vf_assert(thrown == (N != -1 && N != dim), "an exception is thrown if and only if the dimensions differ");
  vf_assert(g_open == 0, "the file is closed");
  vf_assert(vf_heap_live() == live, "memory is released");
  const auto again = io.read<Raster<int, -1>>();
  vf_assert(again.shape() == shape, "the object can be used after a failure");
  vf_reach("end");
}
VF_CASE(dimension_1) { dimension<1>(); }
VF_CASE(dimension_2) { dimension<2>(); }
VF_CASE(dimension_3) { dimension<3>(); }
VF_CASE(dimension_v) { dimension<-1>(); }

// Image of another type
template <typename TIn, typename TOut>
static void conversion() {
  using L = std::numeric_limits<TOut>;
  Raster<TIn, 1> in({2});
  for (auto& e : in) e = value<TIn>();
  Fits io("a.fits");
  io.write(in);
  bool ok = true;
  for (auto& e : in) ok = ok && long(e) >= long(L::lowest()) && long(e) <= long(L::max());
  bool thrown = false;
  try {
    const auto out = io.read<Raster<TOut, 1>>();
    for (int i = 0; i < 2; ++i) vf_assert(long(out[i]) == long(in[i]), "values are converted");
  } catch (const Exception&) {
    thrown = true;
  }
  vf_assert(thrown == !ok, "an exception is thrown if and only if values do not fit");
  vf_assert(g_open == 0, "the file is closed");
  const auto again = io.read<Raster<TIn, 1>>();
  vf_assert(again[0] == in[0] && again[1] == in[1], "the object can be used after a failure");
  vf_reach("end");
}
VF_CASE(short_to_int) { conversion<short, int>(); }
VF_CASE(int_to_short) { conversion<int, short>(); }
VF_CASE(uint_to_int) { conversion<unsigned, int>(); }
VF_CASE(char_to_uchar) { conversion<signed char, unsigned char>(); }
VF_CASE(uchar_to_long) { conversion<unsigned char, long>(); }

// Larger images
template <typename T, Index N>
static void larger(Index dim, std::initializer_list<long> lengths) {
  Position<N> shape(dim);
  std::copy(lengths.begin(), lengths.end(), shape.begin());
  if (dim > 2) shape[2] = vf_pick("length", 1, 4);
  else shape[dim - 1] = vf_pick("length", 1, 20);
  Raster<T, N> in(shape);
  const long size = long(in.size());
  vf_assume(size <= 300);
  std::vector<T> ref(size);
  for (long i = 0; i < size; ++i) in[i] = ref[i] = value<T>();
  Fits io("a.fits");
  io.write(in);
  vf_assert(g_files[0].naxis == dim && g_files[0].count == size, "number of axes and pixels");
  for (Index i = 0; i < dim; ++i) vf_assert(g_files[0].dims[i] == shape[i], "the axes are in order");
  const auto out = io.template read<Raster<T, N>>();
  vf_assert(out.shape() == shape && long(out.size()) == size, "same shape");
  for (long i = 0; i < size; ++i) vf_assert(same<T>(out[i], ref[i]) && same<T>(in[i], ref[i]), "same values");
  vf_reach("end");
}
VF_CASE(larger_1) { larger<int, 1>(1, {1}); }
VF_CASE(larger_2) { larger<short, 2>(2, {3, 1}); }
VF_CASE(larger_3) { larger<int, 3>(3, {5, 3, 1}); }
VF_CASE(larger_3v) { larger<unsigned char, -1>(3, {2, 2, 1}); }
VF_CASE(larger_4) { larger<long, 4>(4, {3, 2, 1, 3}); }
VF_CASE(larger_4v) { larger<float, -1>(4, {1, 2, 1, 2}); }
VF_CASE(larger_5) { larger<int, 5>(5, {2, 3, 1, 2, 2}); }
VF_CASE(larger_6v) { larger<short, -1>(6, {2, 1, 1, 3, 1, 2}); }
template <typename T, Index N>
static void big(std::initializer_list<long> lengths) {
  Position<N> shape(lengths.size());
  std::copy(lengths.begin(), lengths.end(), shape.begin());
  Raster<T, N> in(shape);
  for (auto& e : in) e = value<T>();
  const Raster<T, N> ref = in;
  Fits io("a.fits");
  io.write(in);
  const auto out = io.template read<Raster<T, N>>();
  const auto variable = io.template read<Raster<T, -1>>();
  vf_assert(out.shape() == shape && out.size() == in.size() && variable.size() == in.size() && variable.dimension() == std::size_t(shape.size()), "same shape");
  for (std::size_t i = 0; i < in.size(); ++i) vf_assert(out[i] == ref[i] && in[i] == ref[i] && variable[i] == ref[i], "same values");
  vf_assert(g_open == 0, "the file is closed");
  vf_reach("end");
}
VF_CASE(big_1) { big<int, 1>({300}); }
VF_CASE(big_2) { big<unsigned short, 2>({17, 15}); }
VF_CASE(big_3) { big<float, 3>({16, 1, 16}); }
// Any bit pattern
template <typename T>
static void bits() {
  Raster<T, 2> in({2, 2});
  for (auto& e : in) {
    const long b = vf_int("bits", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
    std::memcpy(&e, &b, sizeof(T));
  }
  const Raster<T, 2> ref = in;
  Fits io("a.fits");
  io.write(in);
  const auto out = io.template read<Raster<T, 2>>();
  for (int i = 0; i < 4; ++i) vf_assert(same<T>(out[i], ref[i]), "same values");
  vf_reach("end");
}
VF_CASE(bits_float) { bits<float>(); }
VF_CASE(bits_double) { bits<double>(); }
// Histories of operations on two files, with an object per file, and a third one on either file
VF_CASE(history) {
  Fits a("a.fits"), b("b.fits");
  Raster<int, 1> written[2];
  bool exists[2] = {false, false};
  for (int k = 0; k < 4; ++k) {
    const long f = vf_pick("file", 0, 1);
    Fits temporary(f ? "b.fits" : "a.fits");
    Fits& io = k == 2 ? temporary : f ? b : a;
    if (vf_pick("write", 0, 1)) {
      Raster<int, 1> in({k + 1});
      for (auto& e : in) e = value<int>();
      const bool thrown = vf_throws_as<Exception>([&] { io.write(in); });
      vf_assert(thrown == exists[f], "existing files are not overwritten");
      if (!exists[f]) written[f] = in;
      exists[f] = true;
    } else {
      Raster<int, 1> out({1});
      const bool thrown = vf_throws_as<Exception>([&] { out = io.read<Raster<int, 1>>(); });
      vf_assert(thrown == !exists[f], "missing files are not read");
      if (exists[f]) {
        vf_assert(out.shape() == written[f].shape(), "last written shape");
        for (std::size_t i = 0; i < out.size(); ++i) vf_assert(out[i] == written[f][i], "last written values");
      }
    }
    vf_assert(g_open == 0 && (find("a.fits", false) >= 0 && g_files[find("a.fits", false)].exists) == exists[0], "files");
  }
  vf_reach("end");
}
