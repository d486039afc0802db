#include <chrono>
#include "lt.h"
#include <LitlRun/Chronometer.h>
#include "LitlRun/src/lib/IterationBenchmark.cpp"
// NOTE: histories of up to 4 operations (start, stop, reset) of a chronometer with any offset within [-1000, 1000] units, any durations up to 10 s (multiples of 1/4 unit, so that truncation is exercised; up to 10^12 ns for two increments), units of nanoseconds, microseconds, milliseconds and seconds; rasters of side 1 and 2, any element values (char, wrap-around included), of side 5 and 17 with two arbitrary elements; histories of up to 8 increments (64 to 1024 with one arbitrary increment), of which standard deviations of increments of up to 10^15 ns; the clocks are stubs

static long g_now = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(g_now)); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(g_now)); }
}}}
template <typename U, long Ns>
static void chrono(int steps) {
  const long offset = vf_int("offset", -1000, 1000);
  Chronometer<U> c {U(offset)};
  const Chronometer<U> zero;
  vf_assert(zero.elapsed() == U(0), "no offset by default");
  long incs[8] = {0}, n = 0, elapsed = offset;
  bool running = false;
  g_now = vf_int("t0", 0, 1000000) * Ns;
  long tic = 0;
  for (int k = 0; k < steps; ++k) {
    const long d = vf_int("quarters", 0, 4000);
    g_now += Ns >= 4 ? d * (Ns / 4) : d;
    if (!running) {
      if (vf_pick("start", 0, 1)) { c.start(); running = true; tic = g_now; }
      else { const long o = vf_int("offset", -1000, 1000); c.reset(U(o)); elapsed = o; n = 0; }
    } else switch (vf_pick("stop", 0, 2)) {
      case 0: {
        const auto inc = c.stop();
        const long ns = g_now - tic;
        const long q = inc.count();
        vf_assert(q * Ns <= ns && ns - q * Ns < Ns, "increment, in units");
        incs[n++] = q;
        elapsed += q;
        running = false;
        vf_assert(c.last() == inc, "last increment");
        break;
      }
      case 1: c.start(); tic = g_now; break; // restart
      default: { const long o = vf_int("offset", -1000, 1000); c.reset(U(o)); elapsed = o; n = 0; running = false; }
    }
    vf_assert(c.isRunning() == running, "running");
    vf_assert(c.elapsed() == U(elapsed), "elapsed time");
    vf_assert(long(c.count()) == n && long(c.increments().size()) == n, "number of increments");
    for (long i = 0; i < n; ++i) vf_assert(c.increments()[i] == double(incs[i]), "increments");
    if (n > 0) {
      double sum = 0, mn = incs[0], mx = incs[0];
      for (long i = 0; i < n; ++i) {
        sum += double(incs[i]);
        if (incs[i] < mn) mn = incs[i];
        if (incs[i] > mx) mx = incs[i];
      }
      vf_assert(c.min() == mn && c.max() == mx, "extremal increments");
      vf_assert(c.mean() == sum / n, "mean increment");
      if (n == 1) vf_assert(c.stdev() == 0, "standard deviation of one increment");
    }
  }
  vf_reach("end");
}
VF_CASE(nanoseconds) { chrono<std::chrono::nanoseconds, 1>(4); }
VF_CASE(microseconds) { chrono<std::chrono::microseconds, 1000>(4); }
VF_CASE(milliseconds) { chrono<std::chrono::milliseconds, 1000000>(4); }
VF_CASE(seconds) { chrono<std::chrono::seconds, 1000000000>(4); }
VF_CASE(milliseconds_thorough) { chrono<std::chrono::milliseconds, 1000000>(6); }
// standard deviation of increments whose mean is exact
VF_CASE(deviation) {
  Chronometer<std::chrono::nanoseconds> c;
  const long a = vf_int("a", 0, 100), b = vf_pick("b", 0, 4);
  for (int i = 0; i < 2; ++i) {
    c.start();
    g_now += i ? a + 2 * b : a;
    c.stop();
  }
  vf_assert(c.mean() == double(a + b), "mean increment");
  vf_assert(c.stdev() == double(b), "standard deviation of the increments");
  vf_reach("end");
}
// every looping strategy visits all the elements
struct Bench : IterationBenchmark {
  using IterationBenchmark::IterationBenchmark;
  void check(long side, int loop) {
    symFill(m_a, "a", -128, 127);
    symFill(m_b, "b", -128, 127);
    symFill(m_c, "c", -128, 127);
    const auto a = m_a, b = m_b;
    g_now = 5000000;
    const auto d = loop == 0 ? loopOverXyz() : loop == 1 ? loopOverZyx() : loop == 2 ? iterateOverPositions() : loop == 3 ? iterateOverPositionsOptimized() : loop == 4 ? loopOverIndices() : loop == 5 ? iterateOverValues() : loop == 6 ? callOperator() : callGenerate();
    vf_assert(d.count() == 0 && m_chrono.count() == 1, "measured once");
    vf_assert(long(m_c.size()) == side * side * side && m_c.shape() == Position<3>({side, side, side}), "shape");
    for (long i = 0; i < side * side * side; ++i) {
      vf_assert(m_c.data()[i] == char(a.data()[i] + b.data()[i]), "sum of the elements");
      vf_assert(m_a.data()[i] == a.data()[i] && m_b.data()[i] == b.data()[i], "the inputs are not changed");
    }
    vf_reach("end");
  }
};
VF_CASE(loops) {
  const long side = vf_pick("side", 1, 2);
  g_now = 1;
  Bench b(side);
  b.check(side, int(vf_pick("loop", 0, 7)));
}
// long durations
VF_CASE(long_increments) {
  Chronometer<std::chrono::nanoseconds> c;
  const long a = vf_int("a", 0, 1000000000000l), b = vf_int("b", 0, 1000000000000l), gap = vf_int("gap", 0, 1000000000000l);
  c.start();
  g_now += a;
  vf_assert(c.stop().count() == a && c.last().count() == a && c.elapsed().count() == a && c.increments()[0] == double(a), "first increment");
  g_now += gap;
  c.start();
  g_now += b;
  vf_assert(c.stop().count() == b && c.last().count() == b && c.elapsed().count() == a + b && c.increments()[1] == double(b), "second increment");
  vf_assert(c.min() == double(a < b ? a : b) && c.max() == double(a < b ? b : a), "extremal increments");
  vf_assert(c.mean() == double(a + b) / 2, "mean increment");
  vf_reach("end");
}
VF_CASE(long_seconds) {
  Chronometer<std::chrono::seconds> c(std::chrono::seconds(vf_int("o", -1000000, 1000000)));
  const long o = c.elapsed().count();
  const long a = (1l << vf_pick("log", 0, 30)) - vf_pick("minus", 0, 1);
  c.start();
  g_now += a * 1000000000l + 999999999l;
  vf_assert(c.stop().count() == a && c.last().count() == a && c.elapsed().count() == o + a && c.increments()[0] == double(a), "increment");
  vf_reach("end");
}
// longer histories
template <typename U, long Ns>
static void many(int n) {
  Chronometer<U> c;
  double sum = 0;
  long ds[8];
  for (int i = 0; i < n; ++i) {
    const long d = ds[i] = vf_int("d", 0, 1000000);
    g_now += vf_int("gap", 0, 1000);
    c.start();
    g_now += d * Ns;
    vf_assert(c.stop().count() == d && c.last().count() == d, "increment");
    sum += double(d);
    vf_assert(long(c.count()) == i + 1 && c.increments()[i] == double(d), "increments");
  }
  vf_assert(c.elapsed().count() == long(sum), "elapsed time");
  const double mn = c.min(), mx = c.max();
  bool reachedMin = false, reachedMax = false;
  for (int i = 0; i < n; ++i) {
    vf_assert(mn <= double(ds[i]) && mx >= double(ds[i]), "bounds of the increments");
    reachedMin |= mn == double(ds[i]);
    reachedMax |= mx == double(ds[i]);
  }
  vf_assert(reachedMin, "lowest increment");
  vf_assert(reachedMax, "highest increment");
  vf_assert(c.mean() == sum / n, "mean increment");
  vf_reach("end");
}
VF_CASE(many5) { many<std::chrono::nanoseconds, 1>(5); }
VF_CASE(many6) { many<std::chrono::microseconds, 1000>(6); }
VF_CASE(many8) { many<std::chrono::milliseconds, 1000000>(8); }
// standard deviations: {m - b, m + b} as many times each, the mean is exact
template <typename U, long Ns>
static void deviations(long n, long lo, long hi) {
  Chronometer<U> c;
  const long m = vf_int("m", lo, hi), b = vf_pick("b", 0, 4);
  for (long i = 0; i < n; ++i) {
    c.start();
    g_now += (i % 2 ? m + b : m - b) * Ns;
    c.stop();
  }
  vf_assert(c.mean() == double(m), "mean increment");
  const double d = c.stdev() - double(b);
  vf_assert(d < 1e-6 && d > -1e-6, "standard deviation of the increments");
  vf_reach("end");
}
VF_CASE(deviations2) { deviations<std::chrono::nanoseconds, 1>(2, 10, 1000); }
VF_CASE(deviations4) { deviations<std::chrono::milliseconds, 1000000>(4, 10, 1000); }
VF_CASE(deviations6) { deviations<std::chrono::nanoseconds, 1>(6, 10, 1000); }
VF_CASE(deviationsLong) { deviations<std::chrono::nanoseconds, 1>(vf_pick("pairs", 1, 4) * 2, 1000000000l, 1000000000000000l); }
// increments whose sum does not fit in the representation of the unit, although the elapsed time does
VF_CASE(narrow_unit) {
  using U = std::chrono::duration<int, std::nano>;
  Chronometer<U> c(U(-2000000000));
  double sum = 0;
  for (long i = 0; i < 2; ++i) {
    const long d = vf_int("d", 0, 2000000000);
    c.start();
    g_now += d;
    vf_assert(c.stop().count() == d && c.last().count() == d, "increment");
    sum += double(d);
    vf_assert(c.mean() == sum / double(i + 1) && c.elapsed().count() == long(sum) - 2000000000, "mean increment and elapsed time");
  }
  vf_reach("end");
}
VF_CASE(many_hundred) {
  using U = std::chrono::nanoseconds;
  Chronometer<U> c;
  long sum = 0;
  const long n = 1l << vf_pick("log", 6, 10), d = vf_int("d", 0, 1000000);
  for (long i = 0; i < n; ++i) {
    const long inc = i == n - 2 ? d : i % 10 + 1;
    c.start();
    g_now += inc;
    c.stop();
    g_now += 3;
    sum += inc;
  }
  vf_assert(long(c.count()) == n && c.elapsed().count() == sum && c.mean() == double(sum) / double(n), "increments");
  vf_assert(c.max() == double(d > 10 ? d : 10) && c.min() == double(d < 1 ? d : 1) && c.increments()[n - 2] == double(d) && c.last().count() == (n - 1) % 10 + 1, "extremal increments");
  vf_reach("end");
}
// larger rasters, whose values are those of the constructor but one
struct LargeBench : IterationBenchmark {
  using IterationBenchmark::IterationBenchmark;
  void check(long side, int loop) {
    const long n = side * side * side;
    const long at = (const long[]) {0, side, n / 2, n - 1}[vf_pick("at", 0, 3)];
    m_a[at] = char(vf_int("a", -128, 127));
    m_b[at] = char(vf_int("b", -128, 127));
    const auto a = m_a, b = m_b;
    const auto d = loop == 0 ? loopOverXyz() : loop == 1 ? loopOverZyx() : loop == 2 ? iterateOverPositions() : loop == 3 ? iterateOverPositionsOptimized() : loop == 4 ? loopOverIndices() : loop == 5 ? iterateOverValues() : loop == 6 ? callOperator() : callGenerate();
    vf_assert(d.count() == 0 && m_chrono.count() == 1, "measured once");
    bool same = long(m_c.size()) == n;
    for (long i = 0; i < n; ++i) if (i != at) same = same && m_c[i] == char(a[i] + b[i]) && m_a[i] == a[i] && m_b[i] == b[i];
    vf_assert(same && m_c[at] == char(a[at] + b[at]) && m_a[at] == a[at] && m_b[at] == b[at], "sum of the elements");
    vf_reach("end");
  }
};
VF_CASE(large_loops) {
  const long side = vf_pick("big", 0, 1) ? 17 : 5;
  g_now = 1;
  LargeBench b(side);
  b.check(side, int(vf_pick("loop", 0, 7)));
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_chrono) { chrono<std::chrono::nanoseconds, 1>(2); chrono<std::chrono::nanoseconds, 1>(3); }
VF_CASE(again_deviations) { deviations<std::chrono::nanoseconds, 1>(2, 10, 1000); deviations<std::chrono::nanoseconds, 1>(4, 10, 1000); }
