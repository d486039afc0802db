#include "lt.h"
#include <LitlTransforms/MedianFilter.h>
// NOTE: windows of 1 to 5 elements (6 in the thorough tier; 6 to 25 elements of which two are arbitrary and the others fixed, up to 343 of which one is; 256 to 1024 distinct ones of which one is within 11 values around fixed ones) at any position relative to the origin, rasters up to 3x3 (2x2x2), up to 300 in dimension 1, 9x8, 80x3, 3x130, 5x4x5 and 3x2x3x3 or variable dimension with one arbitrary element, one position at a time for the largest windows, the whole raster for windows of up to 3 elements; any element values within [-10^6, 10^6], int, unsigned char, double (multiples of 1/4); constant and nearest-neighbor extrapolation, or none when the window stays in the domain; windows with at least one element

// is m the median of the n values?
template <typename T, typename M>
static bool isMedian(const T* v, long n, M m) {
  if (n % 2) {
    long lt = 0, le = 0;
    for (long i = 0; i < n; ++i) { lt += v[i] < m; le += v[i] <= m; }
    return lt <= n / 2 && le > n / 2;
  }
  // the mean of the two middle ones: rank of each value, ties by index
  T a {}, b {};
  for (long i = 0; i < n; ++i) {
    long rank = 0;
    for (long j = 0; j < n; ++j) rank += v[j] < v[i] || (v[j] == v[i] && j < i);
    if (rank == n / 2 - 1) a = v[i];
    if (rank == n / 2) b = v[i];
  }
  return m == static_cast<M>((a + b) * .5);
}
template <typename T, typename M>
static void medians(long nmin, long nmax) {
  const long n = vf_pick("n", nmin, nmax);
  std::vector<T> v(n);
  for (auto& e : v) e = std::is_floating_point<T>::value ? T(vf_int("v", -4000, 4000) / 4.) : T(vf_int("v", std::is_signed<T>::value ? -1000000 : 0, std::is_signed<T>::value ? 1000000 : 255));
  auto w = v;
  const M m = MedianFilter<T, 2>::template median<M>(w);
  vf_assert(isMedian(v.data(), n, m), "median");
  vf_assert((long)w.size() == n, "size");
  vf_reach("end");
}
VF_CASE(median_int) { medians<int, int>(1, 4); }
VF_CASE(median_int5) { medians<int, int>(5, 5); }
VF_CASE(median_uchar) { medians<unsigned char, unsigned char>(1, 4); }
VF_CASE(median_double) { medians<double, double>(1, 4); }
VF_CASE(median_mixed) { medians<int, double>(2, 4); }
VF_CASE(median_int6_thorough) { medians<int, int>(6, 6); }

// the window
template <typename T, Index N, typename TExtra>
static bool filtered(const TExtra& x, const Box<N>& w, const Position<N>& p, Index dim, T m) {
  std::vector<T> v;
  long size = 1;
  for (Index d = 0; d < dim; ++d) size *= w.back()[d] - w.front()[d] + 1;
  for (long i = 0; i < size; ++i) {
    auto q = p;
    long s = i;
    for (Index d = 0; d < dim; ++d) { const long l = w.back()[d] - w.front()[d] + 1; q[d] += w.front()[d] + s % l; s /= l; }
    v.push_back(x[q]);
  }
  return isMedian(v.data(), size, m);
}
template <Index N>
static Box<N> pickWindow(Index dim, long lmax, long omin, long omax, long smax) {
  const auto l = pickPos<N>("length", dim, 1, lmax);
  const auto f = pickPos<N>("front", dim, omin, omax);
  vf_assume(refSize(l, dim) <= smax);
  return Box<N>(f, f + l - 1);
}
template <typename T, Index N>
static Raster<T, N> raster(const Position<N>& shape) {
  Raster<T, N> r(shape);
  symFill(r, "e", 0, 250);
  return r;
}
// one position
VF_CASE(window_constant) {
  const auto in = raster<int, 2>({3, 3});
  const int c = vf_int("c", -300, 300);
  const auto x = extrapolate(in, c);
  const auto w = pickWindow<2>(2, 3, -1, 1, 3);
  const auto p = pickPos<2>("p", 2, 0, 2);
  Raster<int, 2> out({3, 3});
  out.fill(-77);
  MedianFilter<int, 2> f(w);
  f.applyTo(x, out, Box<2>(p, p));
  for (const auto& q : out.domain()) vf_assert(q == p ? filtered(x, w, p, 2, out[q]) : out[q] == -77, "median of the neighbors, in the region only");
  vf_reach("end");
}
VF_CASE(window_nearest) {
  const auto in = raster<unsigned char, 2>({2, 3});
  const auto x = extrapolate<NearestNeighbor>(in);
  const auto w = pickWindow<2>(2, 4, -2, 0, 4);
  const Position<2> p {vf_pick("p", 0, 1), 1};
  Raster<unsigned char, 2> out({2, 3});
  MedianFilter<unsigned char, 2>(w).applyTo(x, out, Box<2>(p, p));
  vf_assert(filtered(x, w, p, 2, out[p]), "median of the neighbors");
  vf_reach("end");
}
VF_CASE(window_space) {
  const auto in = raster<int, 3>({2, 2, 2});
  const auto x = extrapolate(in, 0);
  const auto w = pickWindow<3>(3, 2, -1, 0, 2);
  const auto p = pickPos<3>("p", 3, 0, 1);
  Raster<int, 3> out({2, 2, 2});
  MedianFilter<int, 3>(w).applyTo(x, out, Box<3>(p, p));
  vf_assert(filtered(x, w, p, 3, out[p]), "median of the neighbors");
  vf_reach("end");
}
// the whole raster
VF_CASE(whole) {
  const auto shape = pickPos<2>("shape", 2, 1, 2);
  const auto in = raster<int, 2>(shape);
  const auto x = extrapolate(in, 7);
  const auto w = pickWindow<2>(2, 2, -1, 0, 2);
  MedianFilter<int, 2> f(w);
  const auto out = f.apply(x);
  vf_assert(out.shape() == shape, "shape");
  for (const auto& p : out.domain()) vf_assert(filtered(x, w, p, 2, out[p]), "median of the neighbors");
  Raster<int, 2> into(shape);
  f.applyTo(x, into);
  vf_assert(into == out, "the whole raster by default");
  vf_reach("end");
}
VF_CASE(whole_line) {
  const auto shape = pickPos<1>("shape", 1, 1, 3);
  const auto in = raster<int, 1>(shape);
  const auto x = extrapolate<NearestNeighbor>(in);
  MedianFilter<int, 1> f;
  const auto out = f.apply(x);
  const Box<1> w(Position<1> {-1}, Position<1> {1});
  for (const auto& p : out.domain()) vf_assert(filtered(x, w, p, 1, out[p]), "unit radius by default");
  vf_reach("end");
}
// a region of a raster which is not extrapolated
VF_CASE(inside) {
  const auto in = raster<int, 2>({3, 2});
  const auto w = pickWindow<2>(2, 2, -1, 1, 2);
  const auto f = pickPos<2>("rf", 2, 0, 2), b = pickPos<2>("rb", 2, 0, 2);
  for (Index d = 0; d < 2; ++d) vf_assume(f[d] <= b[d] && f[d] + w.front()[d] >= 0 && b[d] + w.back()[d] < in.shape()[d] && b[d] < in.shape()[d]);
  Raster<int, 2> out({3, 2});
  out.fill(-77);
  MedianFilter<int, 2>(w).applyTo(in, out, Box<2>(f, b));
  for (const auto& q : out.domain()) {
    const bool in_ = q[0] >= f[0] && q[0] <= b[0] && q[1] >= f[1] && q[1] <= b[1];
    vf_assert(in_ ? filtered(in, w, q, 2, out[q]) : out[q] == -77, "median of the neighbors, in the region only");
  }
  vf_reach("end");
}
VF_CASE(radius) {
  const long r = vf_pick("r", 0, 1);
  Raster<int, 2> in({3, 3});
  in.fill(vf_int("v", -5, 5));
  const long i = vf_pick("i", 0, 8);
  in.data()[i] = 1000; // an impulse
  MedianFilter<int, 2> f(r);
  const auto out = f.apply(extrapolate<NearestNeighbor>(in));
  for (long j = 0; j < 9; ++j) vf_assert(out.data()[j] == (r == 0 ? in.data()[j] : in.data()[i == 4 ? 0 : 4]) || (r == 1 && i != 4), "impulses are removed");
  vf_reach("end");
}
// larger windows: two arbitrary values among others
template <typename T, typename M>
static void larger(long lo, long hi) {
  static const long sizes[] = {6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 24, 25};
  const long n = sizes[vf_pick("size", lo, hi)];
  const long order = vf_pick("order", 0, 2);
  std::vector<T> v(n);
  for (long i = 0; i < n; ++i) v[i] = order == 0 ? 2 * i + 1 : order == 1 ? 2 * (n - i) + 1 : 2 * (i * 7 % n) + 1;
  const long a = vf_pick("at", 0, 2);
  v[a * (n - 1) / 2] = vf_int("a", -100, 100);
  v[a == 0 ? n - 1 : 1] = vf_int("b", -100, 100);
  auto w = v;
  const M m = MedianFilter<T, 2>::template median<M>(w);
  vf_assert(isMedian(v.data(), n, m), "median");
  vf_reach("end");
}
VF_CASE(ties) { // many equal values
  const long n = vf_pick("n", 6, 14);
  std::vector<int> v(n);
  const long split = vf_pick("split", 0, n);
  for (long i = 0; i < n; ++i) v[i * 5 % n == i || n % 5 ? i * 5 % n : i] = i < split ? 3 : 8;
  if (n % 5 == 0) for (long i = 0; i < n; ++i) v[i] = i < split ? 3 : 8;
  v[n / 2] = vf_int("a", 0, 10);
  auto w = v;
  const double m = MedianFilter<int, 2>::median<double>(w);
  vf_assert(isMedian(v.data(), n, m), "median");
  vf_reach("end");
}
VF_CASE(larger_int) { larger<int, double>(0, 8); }
VF_CASE(larger_int_16) { larger<int, int>(9, 9); }
VF_CASE(larger_int_25_thorough) { larger<int, int>(10, 11); }
VF_CASE(larger_double) { larger<double, double>(0, 3); }
VF_CASE(extreme) { // sums which are not representable
  const long n = vf_pick("n", 2, 4);
  std::vector<int> v(n);
  for (auto& e : v) e = vf_int("v", -2147483647l - 1, 2147483647l);
  auto w = v;
  const double m = MedianFilter<int, 2>::median<double>(w);
  std::vector<double> d(v.begin(), v.end());
  vf_assert(isMedian(d.data(), n, m), "median");
  vf_reach("end");
}
VF_CASE(wide_window) {
  const long n = vf_pick("n", 6, 9), h = vf_pick("h", 1, 2);
  Raster<int, 2> in({12, 3});
  for (long i = 0; i < 36; ++i) in.data()[i] = i * 11 % 36;
  in.data()[17] = vf_int("a", -50, 50);
  const auto x = extrapolate<NearestNeighbor>(in);
  const Box<2> w(Position<2> {-3, -h + 1}, Position<2> {n - 4, 0});
  const Position<2> p {5, 1};
  Raster<int, 2> out({12, 3});
  MedianFilter<int, 2>(w).applyTo(x, out, Box<2>(p - 1, p + 1));
  for (const auto& q : Box<2>(p - 1, p + 1)) vf_assert(filtered(x, w, q, 2, out[q]), "median of the neighbors");
  vf_reach("end");
}
// one arbitrary value among many
template <typename T, typename M>
static void oneOf(std::initializer_list<long> sizes, T scale) {
  const long n = *(sizes.begin() + vf_pick("size", 0, sizes.size() - 1));
  const long order = vf_pick("order", 0, 2);
  std::vector<T> v(n);
  for (long i = 0; i < n; ++i) v[i] = T(order == 0 ? i : order == 1 ? n - i : i * 17 % n % 23) * scale;
  const long at = (const long[]) {0, n / 2, n - 1}[vf_pick("at", 0, 2)];
  v[at] = T(vf_int("a", 0, 120));
  auto w = v;
  const M m = MedianFilter<T, 2>::template median<M>(w);
  vf_assert(isMedian(v.data(), n, m), "median");
  vf_reach("end");
}
VF_CASE(one_of_49) { oneOf<int, double>({26, 27, 48, 49}, 1); }
VF_CASE(one_of_125) { oneOf<short, short>({81, 125}, 1); }
VF_CASE(one_of_float) { oneOf<float, float>({18, 27}, .25f); }
VF_CASE(one_of_uchar) { oneOf<unsigned char, double>({32, 33}, 2); }
VF_CASE(one_of_long) { oneOf<long, long>({28, 35}, 3); }
// windows of any dimension in large rasters: one arbitrary element
template <typename T, Index N>
static void impulse(const Position<N>& shape, const Box<N>& w, const Box<N>& region) {
  const Index dim = shape.size();
  Raster<T, N> in(shape);
  for (std::size_t i = 0; i < in.size(); ++i) in.data()[i] = T((i * 37 + 11) % 29);
  auto p = region.front();
  const long axis = vf_pick("axis", 0, dim - 1);
  p[axis] = region.back()[axis];
  in[p] = T(vf_int("a", 0, 40));
  const auto x = extrapolate<NearestNeighbor>(in);
  Raster<T, N> out(shape);
  out.fill(T(99));
  MedianFilter<T, N> f(w);
  f.applyTo(x, out, region);
  for (const auto& q : out.domain()) {
    bool inside = true;
    for (Index d = 0; d < dim; ++d) inside = inside && q[d] >= region.front()[d] && q[d] <= region.back()[d];
    vf_assert(inside ? filtered(x, w, q, dim, out[q]) : out[q] == T(99), "median of the neighbors, in the region only");
  }
  vf_reach("end");
}
VF_CASE(impulse1) { impulse<int, 1>({40}, Box<1>({-3}, {3}), Box<1>({0}, {39})); }
VF_CASE(impulse2) { impulse<int, 2>({9, 8}, Box<2>({-2, -2}, {2, 2}), Box<2>({0, 3}, {8, 4})); }
VF_CASE(impulse2even) { impulse<double, 2>({9, 8}, Box<2>({-2, 0}, {1, 3}), Box<2>({4, 0}, {5, 7})); }
VF_CASE(impulse3) { impulse<int, 3>({5, 4, 5}, Box<3>({-1, -1, -1}, {1, 1, 1}), Box<3>({1, 0, 3}, {3, 1, 4})); }
VF_CASE(impulse4) { impulse<int, 4>({3, 2, 3, 3}, Box<4>({-1, 0, -1, 0}, {1, 1, 0, 1}), Box<4>({1, 0, 1, 1}, {2, 1, 2, 2})); }
VF_CASE(impulseV) { impulse<int, -1>(Position<-1>({4, 3, 3}), Box<-1>(Position<-1>({-1, -1, 0}), Position<-1>({1, 0, 1})), Box<-1>(Position<-1>({0, 1, 1}), Position<-1>({3, 2, 1}))); }
VF_CASE(impulse_far) { impulse<int, 2>({6, 5}, Box<2>({3, -7}, {5, -6}), Box<2>({0, 1}, {5, 3})); } // a window which does not contain the origin
// a filter has no memory
VF_CASE(histories) {
  MedianFilter<int, 2> f(Box<2>({-1, 0}, {1, 0}));
  Raster<int, 2> a({3, 2}), b({2, 3});
  for (long i = 0; i < 6; ++i) { a.data()[i] = i * 5 % 7; b.data()[i] = i * 4 % 7 + 10; }
  a.data()[vf_pick("i", 0, 5)] = vf_int("a", -50, 50);
  const auto xa = extrapolate<NearestNeighbor>(a), xb = extrapolate<NearestNeighbor>(b);
  for (long k = 0; k < 2; ++k) {
    const auto out = f.apply(xa);
    for (const auto& q : out.domain()) vf_assert(filtered(xa, Box<2>({-1, 0}, {1, 0}), q, 2, out[q]), "median of the neighbors");
    const auto out2 = f.apply(xb);
    vf_assert(out2.shape() == b.shape(), "shape");
    for (const auto& q : out2.domain()) vf_assert(filtered(xb, Box<2>({-1, 0}, {1, 0}), q, 2, out2[q]), "median of the neighbors");
  }
  vf_reach("end");
}
VF_CASE(default_radius) {
  Raster<int, 2> in({5, 4});
  for (std::size_t i = 0; i < in.size(); ++i) in.data()[i] = (i * 37 + 11) % 29;
  in[{2, 1}] = vf_int("a", -5, 35);
  const auto x = extrapolate<NearestNeighbor>(in);
  const auto out = MedianFilter<int, 2>().apply(x);
  for (const auto& q : out.domain()) vf_assert(filtered(x, Box<2>({-1, -1}, {1, 1}), q, 2, out[q]), "3x3 by default");
  Raster<int, 2> wide({5, 4});
  MedianFilter<int, 2>(2).applyTo(x, wide, Box<2>({1, 1}, {3, 1}));
  for (long i = 1; i < 4; ++i) vf_assert(filtered(x, Box<2>({-2, -2}, {2, 2}), Position<2> {i, 1}, 2, wide[{i, 1}]), "5x5 of radius 2");
  vf_reach("end");
}
// windows of hundreds of elements, one output position at a time
VF_CASE(impulse_15x15) { impulse<int, 2>({17, 16}, Box<2>({-7, -7}, {7, 7}), Box<2>({8, 8}, {8, 8})); }
VF_CASE(impulse_16x17) { impulse<int, 2>({17, 16}, Box<2>({-7, -9}, {8, 7}), Box<2>({8, 3}, {9, 3})); }
VF_CASE(impulse_7x7x7) { impulse<int, 3>({7, 8, 7}, Box<3>({-3, -3, -3}, {3, 3, 3}), Box<3>({3, 4, 2}, {3, 4, 2})); }
VF_CASE(impulse_301) { impulse<int, 1>({310}, Box<1>({-150}, {150}), Box<1>({155}, {155})); }
// outputs of another type: the neighbors are not converted beforehand
VF_CASE(narrow_output) {
  Raster<int, 1> in({3});
  symFill(in, "e", -1000, 1000);
  Raster<unsigned char, 1> out({3});
  const auto x = extrapolate<NearestNeighbor>(in);
  MedianFilter<int, 1> f(1);
  f.applyTo(x, out);
  for (long i = 0; i < 3; ++i) {
    const int v[] = {in[i ? i - 1 : 0], in[i], in[i < 2 ? i + 1 : 2]};
    int m = v[0];
    if ((v[1] >= v[0] && v[1] <= v[2]) || (v[1] <= v[0] && v[1] >= v[2])) m = v[1];
    else if ((v[2] >= v[0] && v[2] <= v[1]) || (v[2] <= v[0] && v[2] >= v[1])) m = v[2];
    vf_assert(m < 0 || m > 255 || out[i] == m, "median of the input values");
  }
  vf_reach("end");
}
// hundreds of distinct values: one is arbitrary around the middle, below or above the others
template <typename T, typename M>
static void distinct(long n) {
  std::vector<T> v(n), w;
  for (long i = 0; i < n; ++i) v[i] = T((i * 101) % n * 2); // n is not a multiple of 101
  const long base[] = {-4, n - 6, 2 * n};
  const long at = vf_pick("at", 0, 2) * (n - 1) / 2;
  v[at] = T(base[vf_pick("base", 0, 2)] + vf_int("x", 0, 10));
  w = v;
  const M m = MedianFilter<T, 2>::template median<M>(w);
  vf_assert(isMedian(v.data(), n, m), "median");
  if (n == 256) {
    const PtrRaster<T, 2> in({16, 16}, v.data());
    Raster<M, 2> out({16, 16});
    MedianFilter<T, 2>(Box<2>({-7, -8}, {8, 7})).applyTo(in, out, Box<2>({7, 8}, {7, 8}));
    vf_assert((isMedian(v.data(), n, out[{7, 8}])), "filtered element");
  }
  vf_reach("end");
}
VF_CASE(distinct_256) { distinct<double, double>(256); }
VF_CASE(distinct_257) { distinct<int, int>(257); }
VF_CASE(distinct_258) { distinct<int, double>(258); }
VF_CASE(distinct_1024) { distinct<int, long>(1024); }
VF_CASE(impulse5) { impulse<int, 5>({2, 2, 3, 2, 2}, Box<5>({-1, 0, -1, 0, 0}, {0, 1, 0, 1, 1}), Box<5>({0, 0, 1, 0, 1}, {1, 1, 2, 1, 1})); }
VF_CASE(impulse_row) { impulse<int, 2>({80, 3}, Box<2>({-1, -1}, {1, 1}), Box<2>({0, 0}, {79, 2})); }
VF_CASE(impulse_column) { impulse<int, 2>({3, 130}, Box<2>({-1, 0}, {1, 1}), Box<2>({0, 0}, {2, 129})); }
VF_CASE(impulse_300) { impulse<int, 1>({300}, Box<1>({-1}, {1}), Box<1>({0}, {299})); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_impulse) { impulse<int, 2>({7, 6}, Box<2>({-2, -2}, {2, 2}), Box<2>({2, 3}, {4, 4})); impulse<int, 2>({4, 5}, Box<2>({-1, -1}, {1, 1}), Box<2>({0, 2}, {3, 3})); }
VF_CASE(again_line) { impulse<int, 1>({20}, Box<1>({-3}, {3}), Box<1>({0}, {19})); impulse<int, 1>({10}, Box<1>({-1}, {0}), Box<1>({0}, {9})); impulse<int, 1>({30}, Box<1>({-20}, {20}), Box<1>({0}, {29})); }
