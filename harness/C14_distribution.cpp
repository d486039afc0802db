#include "lt.h"
#include <LitlContainer/Sequence.h>
// NOTE: 1 to 4 values (up to 33, and 255, 256 and in the thorough tier 1000, with one arbitrary value; 200 almost sorted and 70000 equal ones with one value within a few around fixed ones; 5 in the thorough tier) of type int, unsigned char or double (multiples of 1/4), any order and repetitions; quantiles q multiple of 1/8 or 1/64 (others within 1e-12 for fixed values); histograms of 1 to 3 bins with any non-decreasing bounds; non-empty distributions without NaN

template <typename T>
static T any(const char* n) { return T(vf_int(n, -1000, 1000)); }
template <>
unsigned char any<unsigned char>(const char* n) { return (unsigned char)vf_int(n, 0, 255); }
template <>
double any<double>(const char* n) { return vf_dyadic(n, -1000, 1000, 2); }
template <typename T>
static Sequence<T> values(long lo, long hi) {
  Sequence<T> s(vf_pick("n", lo, hi));
  for (auto& e : s) e = any<T>("x");
  return s;
}
// v is the k-th smallest value of s
template <typename T>
static bool isNth(const Sequence<T>& s, std::size_t k, double v) {
  std::size_t less = 0, leq = 0;
  for (auto e : s) { less += e < v; leq += e <= v; }
  return less <= k && k < leq;
}
template <typename T>
static void order(long maxN) {
  const Sequence<T> s = values<T>(1, maxN);
  const Sequence<T> in(s);
  const std::size_t n = s.size();
  auto d = s.distribution();
  vf_assert(d.size() == n, "size");
  const std::size_t k = vf_pick("k", 0, n - 1), l = vf_pick("l", 0, n - 1);
  vf_assert(isNth(s, k, d.nth(k)), "n-th smallest element");
  vf_assert(isNth(s, l, d.nth(l)), "another one");
  vf_assert(d.min() == s.min() && d.max() == s.max(), "extrema");
  d.sort();
  vf_assert(isNth(s, k, d.nth(k)), "n-th smallest element after sorting");
  vf_assert(s == in, "the container is left unchanged");
  vf_reach("end");
}
VF_CASE(orderInt) { order<int>(3); }
VF_CASE(orderUchar) { order<unsigned char>(3); }
VF_CASE(orderDouble) { order<double>(3); }
VF_CASE(orderInt4_thorough) { order<int>(4); }
// the distribution is a snapshot
VF_CASE(snapshot) {
  Sequence<int> s = values<int>(1, 3);
  const Sequence<int> in(s);
  auto d = s.distribution();
  s.fill(2000);
  vf_assert(d.max() == in.max() && d.min() == in.min(), "later changes are not reflected");
  vf_reach("end");
}
template <typename T>
static void quantiles(long maxN) {
  Sequence<T> s = values<T>(1, maxN);
  const std::size_t n = s.size();
  auto d = s.distribution();
  const long q64 = vf_pick("q64", 0, 64);
  const double q = d.quantile(q64 / 64.);
  // reference: linear interpolation between order statistics
  std::sort(s.begin(), s.end());
  const long pos = q64 * (n - 1), f = pos / 64, r = pos % 64;
  const double ref = r == 0 ? double(s[f]) : (double(s[f]) * (64 - r) + double(s[f + 1]) * r) / 64;
  vf_assert(q == ref, "linear interpolation of order statistics");
  vf_assert(d.quantile(0) == d.min() && d.quantile(1) == d.max(), "bounds");
  vf_assert(d.quantile(q64 / 64.) == ref, "same quantile, again");
  vf_reach("end");
}
VF_CASE(quantilesInt) { quantiles<int>(3); }
VF_CASE(quantilesUchar) { quantiles<unsigned char>(3); }
VF_CASE(quantilesDouble) { quantiles<double>(3); }
VF_CASE(quantilesInt_thorough) { quantiles<int>(4); }
// histories: any sequence of queries, on values of which two are arbitrary
static void histories(long n, long nSym, long steps) {
  Sequence<int> s(n);
  for (long i = 0; i < n; ++i) s[i] = int((i * 37 + 11) % 23) * 3 - 30;
  if (nSym == n) { symFill(s, "x", -1000, 1000); }
  else {
    long j = 0;
    for (long i = 0; i < nSym; ++i) {
      j = vf_pick("j", j, n - nSym + i);
      s[j] = vf_int("x", -40, 40);
      ++j;
    }
  }
  auto d = s.distribution();
  Sequence<int> o(s);
  std::sort(o.begin(), o.end());
  double sum = 0;
  for (auto e : s) sum += e;
  for (long i = 0; i < steps; ++i) {
    const long op = vf_pick("op", 0, 6);
    if (op == 0) vf_assert(d.min() == o[0], "min");
    if (op == 1) vf_assert(d.max() == o[n - 1], "max");
    if (op == 2) vf_assert(d.nth(n / 2) == o[n / 2], "nth");
    if (op == 3) vf_assert(d.median() == (n % 2 ? double(o[n / 2]) : .5 * (double(o[n / 2 - 1]) + double(o[n / 2]))), "median");
    if (op == 4) { d.sort(); }
    if (op == 5) vf_assert(d.nth(1) == o[1], "nth");
    if (op == 6) vf_assert(d.sum() == sum && vf_same_d(d.mean(), sum / n), "sum");
  }
  vf_reach("end");
}
VF_CASE(history3) { histories(3, 3, 2); }
VF_CASE(history5) { histories(5, 1, 3); }
VF_CASE(history6) { histories(6, 1, 2); }
VF_CASE(history20) { histories(20, 1, 1); }
VF_CASE(history5_2) { histories(5, 2, 2); }
VF_CASE(history17) { histories(17, 1, 2); }
template <typename T>
static void moments(long maxN) {
  Sequence<T> s = values<T>(1, maxN);
  const long n = s.size();
  auto d = s.distribution();
  double sum = 0;
  for (auto e : s) sum += e;
  vf_assert(d.sum() == sum, "sum");
  vf_assert(vf_same_d(d.mean(), sum / n), "mean");
  std::sort(s.begin(), s.end());
  const double median = n % 2 ? double(s[n / 2]) : .5 * (double(s[n / 2 - 1]) + double(s[n / 2]));
  vf_assert(d.median() == median, "median");
  vf_reach("end");
}
VF_CASE(momentsInt) { moments<int>(4); }
VF_CASE(momentsUchar) { moments<unsigned char>(4); }
VF_CASE(momentsDouble) { moments<double>(4); }
template <typename T>
static void deviations(long maxN) {
  Sequence<T> s = values<T>(2, maxN);
  const long n = s.size();
  auto d = s.distribution();
  std::sort(s.begin(), s.end());
  const double median = n % 2 ? double(s[n / 2]) : .5 * (double(s[n / 2 - 1]) + double(s[n / 2]));
  std::vector<double> dev(n);
  for (long i = 0; i < n; ++i) dev[i] = std::abs(s[i] - median);
  std::sort(dev.begin(), dev.end());
  const double mad = n % 2 ? dev[n / 2] : .5 * (dev[n / 2 - 1] + dev[n / 2]);
  vf_assert(d.mad() == mad, "median absolute deviation");
  vf_reach("end");
}
VF_CASE(deviationsInt) { deviations<int>(3); }
VF_CASE(deviationsDouble) { deviations<double>(3); }
// exact for 1 (biased), 2 (biased and unbiased) values
VF_CASE(variance) {
  Sequence<int> s(2);
  for (auto& e : s) e = vf_int("x", -1000, 1000);
  auto d = s.distribution();
  const double delta = double(s[0]) - s[1];
  vf_assert(d.variance(false) == delta * delta / 4, "biased variance");
  vf_assert(d.variance(true) == delta * delta / 2, "unbiased variance");
  vf_assert(d.variance() == d.variance(true), "unbiased by default");
  vf_reach("end");
}
template <typename T>
static void histogram(long maxN, long maxBins) {
  const Sequence<T> s = values<T>(1, maxN);
  const long nb = vf_pick("bins", 1, maxBins);
  std::vector<T> bins(nb + 1);
  for (auto& e : bins) e = any<T>("b");
  for (long i = 0; i < nb; ++i) vf_assume(bins[i] <= bins[i + 1]);
  auto d = s.distribution();
  const auto h = d.histogram(bins);
  vf_assert((long)h.size() == nb, "one count per bin");
  for (long i = 0; i < nb; ++i) {
    std::size_t count = 0;
    for (auto e : s) count += (e >= bins[i]) & ((e < bins[i + 1]) | ((i == nb - 1) & (e == bins[nb])));
    vf_assert(h[i] == count, "values in [inf, sup[, the last bound being included");
  }
  vf_reach("end");
}
VF_CASE(histogramInt) { histogram<int>(2, 2); }
VF_CASE(histogramInt3) { histogram<int>(3, 1); }
VF_CASE(histogramDouble) { histogram<double>(2, 2); }
VF_CASE(histogramInt_thorough) { histogram<int>(3, 3); }
// variance of n = 2^k values: {m - b, m + b} as many times each
template <typename T>
static void spread(T lo, T hi) {
  const long n = 1l << vf_pick("log", 1, 3);
  const T m = T(vf_int("m", long(lo), long(hi))), b = T(vf_pick("b", 0, 4));
  Sequence<T> s(n);
  for (long i = 0; i < n; ++i) s[i] = i % 2 ? m + b : m - b;
  auto d = s.distribution();
  vf_assert(vf_same_d(d.mean(), double(m)), "mean");
  const double e = double(d.variance(false)) - double(b * b), f = double(d.variance(true)) * (n - 1) - double(b * b * n);
  vf_assert(e < 1e-6 && e > -1e-6, "biased variance");
  vf_assert(f < 1e-6 && f > -1e-6, "unbiased variance");
  vf_reach("end");
}
VF_CASE(spreadInt) { spread<int>(-1000, 1000); }
VF_CASE(spreadLong) { spread<long>(-1000000000000l, 1000000000000l); }
VF_CASE(spreadDouble) { spread<double>(-1000000000000., 1000000000000.); }
VF_CASE(spreadUchar) { spread<unsigned char>(100, 103); }
// variance of any small values
VF_CASE(variances) {
  const long n = vf_pick("n", 1, 5);
  Sequence<double> s(n);
  double sum = 0;
  for (auto& e : s) sum += e = double(vf_pick("x", 0, 3));
  double v = 0;
  for (auto e : s) v += (e - sum / n) * (e - sum / n);
  auto d = s.distribution();
  const double e = d.variance(false) * n - v;
  vf_assert(e < 1e-9 && e > -1e-9, "biased variance");
  if (n > 1) {
    const double f = d.variance() * (n - 1) - v;
    vf_assert(f < 1e-9 && f > -1e-9, "unbiased variance");
  }
  vf_reach("end");
}
// many values
VF_CASE(manyValues) {
  const long n = 31 + vf_pick("n", 0, 2);
  Sequence<int> s(n);
  const long where = vf_pick("where", 0, 40);
  vf_assume(where < n);
  const int x = vf_int("x", -1000, 1000);
  for (long i = 0; i < n; ++i) s[i] = i == where ? x : int(i * 7 % n);
  const Sequence<int> in(s);
  auto d = s.distribution();
  const long k = vf_pick("k", 0, 3) * (n - 1) / 3;
  vf_assert(isNth(in, k, d.nth(k)), "n-th smallest element");
  vf_assert(d.min() == in.min() && d.max() == in.max(), "extrema");
  long sum = 0;
  for (auto e : in) sum += e;
  vf_assert(d.sum() == double(sum), "sum");
  vf_reach("end");
}
static void large(long nmax) {
  Sequence<int> s(pickLarge("n", nmax));
  const long n = s.size();
  const long at = largeFill(s, "x", -1000, 1000);
  std::vector<long> sorted; // the other values
  for (long i = 0; i < n; ++i) if (i != at) sorted.push_back(s[i]);
  std::sort(sorted.begin(), sorted.end());
  const long x = s[at];
  const auto nth = [&](long k) { // k-th value, x included
    const long b = k > 0 ? sorted[k - 1] : -2000, a = k < n - 1 ? sorted[k] : 2000;
    return x < b ? b : x > a ? a : x;
  };
  const auto in = s;
  auto d = s.distribution();
  const long k = vf_pick("k", 0, 2) * (n - 1) / 2;
  vf_assert(d.nth(k) == nth(k), "n-th value");
  vf_assert(d.min() == nth(0) && d.max() == nth(n - 1), "extrema");
  if (n % 2) vf_assert(d.median() == nth(n / 2), "median");
  else vf_assert(d.median() == (nth(n / 2 - 1) + nth(n / 2)) / 2., "median");
  const auto h = d.histogram(std::vector<double>({-1001, 0, 3, 60, 113, 1001}));
  long total = 0, low = 0;
  for (auto c : h) total += c;
  for (auto e : sorted) low += e >= 3 && e < 60;
  vf_assert(total == n && long(h[2]) == low + (x >= 3 && x < 60), "histogram");
  vf_assert(s == in, "the container is unchanged");
  vf_reach("end");
}
VF_CASE(large256) { large(256); }
VF_CASE(large1000_thorough) { large(1000); }
VF_CASE(large_moments) {
  Sequence<int> s(pickLarge("n"));
  const long n = s.size();
  const long at = largeFill(s, "x", -1000, 1000);
  long sum = 0;
  for (auto e : s) sum += e;
  auto d = s.distribution();
  vf_assert(d.sum() == double(sum) && long(d.size()) == n, "sum");
  if (n == 256 || n == 1024) vf_assert(d.mean() == double(sum) / double(n), "mean");
  vf_observe("at", at);
  vf_reach("end");
}
VF_CASE(many_bins) {
  const long n = 300;
  std::vector<double> bins(n + 1);
  for (long i = 0; i <= n; ++i) bins[i] = double(i) * .5;
  const double x = vf_dyadic("x", -40, 700, 2);
  Sequence<double> s({3.25, x, 149.75, 150., 0., 3.});
  const auto h = s.distribution().histogram(bins);
  vf_assert(long(h.size()) == n, "number of bins");
  const long k = x < 0 || x > 150 ? -1 : x == 150 ? n - 1 : long(x * 2);
  for (long i = 0; i < n; ++i) vf_assert(long(h[i]) == (i == k) + 2 * (i == 299) + (i == 0) + 2 * (i == 6), "counts");
  vf_reach("end");
}
// values in order, but one of them
template <typename T>
static void almostSorted() {
  const long n = 200, ranks[] = {1, 66, 130, n - 1};
  std::vector<T> v(n);
  for (long i = 0; i < n; ++i) v[i] = T(i * 3);
  const long at = ranks[vf_pick("at", 0, 3)], base[] = {-3, 297, 3 * n - 3};
  const T x = T(base[vf_pick("base", 0, 2)] + vf_int("x", 0, 4));
  v[at] = x;
  auto nth = [&](long k) { // the others are in order
    long below = 0; // number of other values below x
    for (long i = 0; i < n; ++i) below += i != at && T(i * 3) < x;
    return k < below ? T(3 * (k < at ? k : k + 1)) : k == below ? x : T(3 * (k - 1 < at ? k - 1 : k));
  };
  DataDistribution<T> d(std::move(v));
  const long k = ranks[vf_pick("k", 1, 3)];
  if (k == 66) vf_assert(d.min() == nth(0) && d.max() == nth(n - 1), "extrema");
  vf_assert(d.nth(k) == nth(k), "n-th value");
  if (k == 130) {
    d.sort();
    vf_assert(d.nth(at) == nth(at) && d.min() == nth(0) && d.max() == nth(n - 1), "n-th value, once sorted");
  }
  const auto h = d.histogram(std::vector<T>({T(-100), x, T(4 * n)}));
  long below = 0;
  for (long i = 0; i < n; ++i) below += i != at && T(i * 3) < x;
  vf_assert(long(h[0]) == below && long(h[1]) == n - below, "histogram");
  vf_reach("end");
}
VF_CASE(almostSortedInt) { almostSorted<int>(); }
VF_CASE(almostSortedDouble) { almostSorted<double>(); }
VF_CASE(largeCounts) {
  const long n = 70000;
  std::vector<int> v(n, 7);
  const int x = vf_int("x", 0, 20);
  v[vf_pick("at", 0, 2) * (n - 1) / 2] = x;
  DataDistribution<int> d(std::move(v));
  const auto h = d.histogram(std::vector<int>({0, 5, 10, 20}));
  vf_assert(long(h[0]) == (x < 5) && long(h[1]) == n - 1 + (x >= 5 && x < 10) && long(h[2]) == (x >= 10), "counts");
  vf_reach("end");
}
// any quantile, in double precision
VF_CASE(quantilesDecimal) {
  const double qs[] = {.1, 1 / 3., .7, .95, .999, .62137};
  const double q = qs[vf_pick("q", 0, 5)];
  const std::vector<std::vector<double>> sets {{0, 1, 2, 3}, {5, -7, 1e6, 3, 3}, {.1, .7}, {4, 3, 2, 1, 0, -1, -2, -3, 1e9, 8, .3}};
  auto v = sets[vf_pick("set", 0, 3)];
  DataDistribution<double> d(v);
  std::sort(v.begin(), v.end());
  const double n = q * (v.size() - 1);
  const long f = long(n);
  const double e = v[f] + (v[f + 1] - v[f]) * (n - f), x = d.quantile(q) - e;
  vf_assert(x <= 1e-12 * (std::abs(v[f]) + std::abs(v[f + 1])) && -x <= 1e-12 * (std::abs(v[f]) + std::abs(v[f + 1])), "linear interpolation, in double precision");
  vf_reach("end");
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_order) { order<int>(2); order<int>(3); }
VF_CASE(again_quantiles) { quantiles<int>(2); quantiles<int>(1); }
VF_CASE(again_moments) { moments<int>(2); moments<int>(3); }
VF_CASE(again_histogram) { histogram<int>(1, 2); histogram<int>(2, 1); }
VF_CASE(again_deviations) { deviations<int>(2); deviations<int>(3); }
