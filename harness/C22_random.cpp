#include <chrono>
#include <complex>
#include <map>
#include <random>
#include <vector>
#include <algorithm>
#include <numeric>
#include <limits>
#include <utility>
#define protected public
#include <LitlContainer/Random.h>
#undef protected
#include "vf.h"
#include <LitlContainer/Sequence.h>
#include <LitlRaster/Raster.h>
using namespace Litl;
// NOTE: ranges and probabilities: any state of the random engine, i.e. any values drawn (up to 2 rejections in a row; real distributions: one 32-bit word, the low-order word being null, so that values are exact); reproducibility: seeds 0 to 3 (and around 2^31, 2^32 and 2^64), 5 successive values, with the engine, std::normal_distribution and std::poisson_distribution of libstdc++ executed for these seeds; integer bounds within [-100, 100], double bounds multiple of 1/4; the shapes of the distributions are those of libstdc++ and are outside of the bounds; shot noise over sequences of 3 values among 0, 1, 1000 and 10^6; the clock is a stub

static long g_clock = 0, g_clockCount = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { ++g_clockCount; return system_clock::time_point(system_clock::duration(g_clock)); }
}}}

// the words which the engine will draw
static void setWords(std::mt19937& e, int n, unsigned long fixed = ~0ul) {
  auto* x = reinterpret_cast<unsigned long*>(&e);
  for (int i = 0; i < n; ++i) x[i] = (i % 2 == 0 && fixed != ~0ul) ? fixed : (unsigned long)vf_int("word", 0, 4294967295l);
  x[624] = 0; // position
}
static unsigned long temper(unsigned long z) {
  z ^= (z >> 11) & 0xfffffffful;
  z ^= (z << 7) & 0x9d2c5680ul;
  z ^= (z << 15) & 0xefc60000ul;
  return z ^ (z >> 18);
}
template <typename T>
static void uniformInt(T lo, T hi) {
  const T min = vf_pick("min", lo, hi), max = vf_pick("max", lo, hi);
  vf_assume(min <= max);
  UniformNoise<T> a(min, max, 1);
  auto& e = ((RandomGenerator&)a).m_engine;
  setWords(e, 3);
  const T in = vf_int("in", lo, hi);
  auto b = a;
  const T v = a();
  vf_assert(v >= min && v <= max, "generated values are between the bounds");
  const T w = b(in);
  vf_assert(w == T(in + v), "additive noise");
  vf_reach("end");
}
VF_CASE(uniform_int) { uniformInt<int>(-2, 2); }
VF_CASE(uniform_short) { uniformInt<short>(0, 4); }
VF_CASE(uniform_full) { // default: half of the range
  UniformNoise<int> a;
  setWords(((RandomGenerator&)a).m_engine, 3);
  const int v = a();
  vf_assert(v >= -1073741824 && v <= 1073741824, "half of the range by default");
  vf_reach("end");
}
template <typename T>
static void uniformReal() {
  const double min = vf_pick("min", -4, 4) / 4., len = vf_pick("len", 0, 2);
  UniformNoise<T> a(min, min + len, 1);
  setWords(((RandomGenerator&)a).m_engine, 2, 0);
  auto b = a;
  const T in = vf_int("in", -16, 16) / 4.;
  const T v = a();
  vf_assert(v >= min && (v < min + len || len == 0), "generated values are between the bounds");
  vf_assert(b(in) == in + v, "additive noise");
  vf_reach("end");
}
VF_CASE(uniform_double) { uniformReal<double>(); }
VF_CASE(uniform_complex) { // one distribution for each part
  using C = std::complex<double>;
  UniformNoise<C> a(C(0, 10), C(1, 20), 1);
  setWords(((RandomGenerator&)a).m_engine, 4, 0);
  auto b = a;
  const C v = a();
  vf_assert(v.real() >= 0 && v.real() < 1 && v.imag() >= 10 && v.imag() < 20, "real and imaginary bounds");
  const C w = b(C(2, 3));
  vf_assert(w == C(2, 3) + v, "additive noise");
  vf_reach("end");
}
// impulse noise
static int impulse(std::map<int, double> p, int in, double& u) {
  ImpulseNoise<int> n(p, 1);
  auto& e = ((RandomGenerator&)n).m_engine;
  setWords(e, 2, 0);
  u = temper(reinterpret_cast<unsigned long*>(&e)[1]) / 4294967296.;
  return n(in);
}
VF_CASE(impulse_partial) { // the input is left untouched the rest of the time
  const int in = vf_int("in", -100, 100);
  double u;
  const double p = vf_pick("p", 0, 2) / 4., q = vf_pick("q", 0, 2) / 4.;
  vf_assume(p + q < 1);
  const int v = impulse({{1000, p}, {2000, q}}, in, u);
  vf_assert(v == (u < p ? 1000 : u < p + q ? 2000 : in) || u == p || u == p + q, "each value with its probability, or the input");
  vf_reach("end");
}
VF_CASE(impulse_full) {
  const int in = vf_int("in", -100, 100);
  double u;
  const int v = impulse({{1000, .25}, {2000, .5}, {-3000, .25}}, in, u);
  vf_assert(v == (u < .25 ? -3000 : u < .5 ? 1000 : 2000) || u == .25 || u == .5, "never the input if probabilities sum up to one");
  vf_reach("end");
}
VF_CASE(impulse_normalized) {
  const int in = vf_int("in", -100, 100);
  double u;
  const int v = impulse({{1000, .5}, {2000, 1.5}}, in, u);
  vf_assert(v == (u < .25 ? 1000 : 2000) || u == .25, "probabilities are normalized if they exceed one");
  vf_reach("end");
}
VF_CASE(impulse_single) {
  const int in = vf_int("in", -100, 100), value = vf_int("value", -100, 100);
  ImpulseNoise<int> n(value, .25, 1);
  auto& e = ((RandomGenerator&)n).m_engine;
  setWords(e, 4, 0);
  const double u = temper(reinterpret_cast<unsigned long*>(&e)[1]) / 4294967296.;
  const int v = n(in);
  vf_assert(v == (u < .25 ? value : in) || u == .25, "one value");
  ImpulseNoise<int> one(value, 1, 1);
  vf_assert(one(in) == value, "always");
  auto sp = ImpulseNoise<int>::saltAndPepper(.5, .25, 7, -7, 1);
  auto& f = ((RandomGenerator&)sp).m_engine;
  setWords(f, 2, 0);
  const double w = temper(reinterpret_cast<unsigned long*>(&f)[1]) / 4294967296.;
  vf_assert(sp(in) == (w < .25 ? -7 : w < .75 ? 7 : in) || w == .25 || w == .75, "salt and pepper");
  vf_reach("end");
}
// reproducibility
template <typename TNoise, typename F>
static void reproducible(F&& make) {
  const long seed = vf_pick("seed", 0, 3);
  g_clock = vf_int("clock", 0, 1000000);
  TNoise a = make(seed), b = make(seed);
  vf_assert(g_clockCount == 0, "the clock is not read when there is a seed");
  const int in = 3;
  for (int i = 0; i < 5; ++i) {
    const bool g = vf_pick("generate", 0, 1); // interleaved generations and applications
    vf_assert(g ? a() == b() : a(in) == b(in), "same seed, same values");
  }
  vf_reach("end");
}
VF_CASE(seed_uniform) { reproducible<UniformNoise<int>>([](long s) { return UniformNoise<int>(-100, 100, s); }); }
VF_CASE(seed_gaussian) { reproducible<GaussianNoise<double>>([](long s) { return GaussianNoise<double>(1, 2, s); }); }
VF_CASE(seed_poisson) { reproducible<PoissonNoise<int>>([](long s) { return PoissonNoise<int>(4, s); }); }
VF_CASE(seed_stable) { reproducible<StablePoissonNoise<int>>([](long s) { return StablePoissonNoise<int>(4, s); }); }
VF_CASE(seed_impulse) { reproducible<ImpulseNoise<int>>([](long s) { return ImpulseNoise<int>({{1, .5}, {2, .25}}, s); }); }
VF_CASE(seeds_differ) { // the seed matters
  const long s = vf_pick("s", 0, 3), t = vf_pick("t", 0, 3);
  vf_assume(s != t);
  UniformNoise<int> a(-1000000, 1000000, s), b(-1000000, 1000000, t);
  bool same = true;
  for (int i = 0; i < 3; ++i) same = (a() == b()) && same;
  vf_assert(!same, "another seed, another sequence");
  vf_reach("end");
}
VF_CASE(seed_clock) { // no seed: the clock
  const long c = vf_pick("clock", 1, 3);
  g_clock = c;
  UniformNoise<int> a(-1000, 1000);
  vf_assert(g_clockCount == 1, "the clock is read once");
  UniformNoise<int> b(-1000, 1000, c);
  for (int i = 0; i < 3; ++i) vf_assert(a() == b(), "current time as a seed");
  vf_reach("end");
}
// stable Poisson noise only depends on the value and rank
VF_CASE(stable) {
  const long seed = vf_pick("seed", 0, 1);
  StablePoissonNoise<int> a(2, seed), b(2, seed);
  const long x[2] = {vf_pick("x", 0, 3), 5}, y[2] = {vf_pick("y", 0, 3), 5};
  const long z = vf_pick("z", 0, 3);
  a(x[0]), b(y[0]);
  a(x[1]), b(y[1]);
  vf_assert(a(z) == b(z), "whatever the previous values");
  PoissonNoise<int> p(z, 1);
  vf_assert(p() >= 0, "not negative");
  vf_reach("end");
}
VF_CASE(poisson_null) {
  const long seed = vf_pick("seed", 0, 3);
  PoissonNoise<int> p(0, seed);
  StablePoissonNoise<int> s(0, seed);
  vf_assert(p() == 0 && p(0) == 0 && s() == 0 && s(0) == 0, "no shot without signal");
  vf_reach("end");
}
// application to containers
VF_CASE(containers) {
  const long seed = vf_pick("seed", 0, 1);
  std::vector<int> v(3);
  for (auto& e : v) e = vf_int("e", -1000, 1000);
  Sequence<int> s(v);
  s.apply(UniformNoise<int>(-10, 10, seed));
  UniformNoise<int> n(-10, 10, seed);
  for (int i = 0; i < 3; ++i) vf_assert(s[i] == n(v[i]), "elements one after the other");
  Sequence<int> g(3);
  g.generate(UniformNoise<int>(-10, 10, seed));
  UniformNoise<int> m(-10, 10, seed);
  for (int i = 0; i < 3; ++i) vf_assert(g[i] == m() , "elements one after the other");
  vf_reach("end");
}
VF_CASE(impulse_almost) { // probabilities close to one or to zero
  const int in = vf_int("in", -100, 100);
  const double eps = 1. / double(1l << vf_pick("log", 1, 40));
  const bool rare = vf_pick("rare", 0, 1);
  const double p = rare ? eps : 1 - eps;
  ImpulseNoise<int> n(1000, p, 1);
  auto& e = ((RandomGenerator&)n).m_engine;
  setWords(e, 2, 0);
  const double u = temper(reinterpret_cast<unsigned long*>(&e)[1]) / 4294967296.;
  const int v = n(in);
  vf_assert(v == (u < p ? 1000 : in) || u == p, "the value with its probability, or the input");
  vf_reach("end");
}
VF_CASE(uniform_complex_bounds) { // any order of the real and imaginary bounds
  using C = std::complex<double>;
  const double r = vf_pick("r", -2, 2), i = vf_pick("i", -2, 2) * 4, l = vf_pick("l", 1, 2), m = vf_pick("m", 1, 2);
  UniformNoise<C> a(C(r, i), C(r + l, i + m), 1);
  setWords(((RandomGenerator&)a).m_engine, 4, 0);
  const C v = a();
  vf_assert(v.real() >= r && v.real() < r + l && v.imag() >= i && v.imag() < i + m, "real and imaginary bounds");
  vf_reach("end");
}
VF_CASE(random_containers) { // the clock as a seed, and half of the range
  g_clock = vf_pick("clock", 1, 3);
  const long n = vf_pick("n", 0, 3), w = vf_pick("w", 1, 2), h = vf_pick("h", 0, 2);
  const auto s = Litl::random<short>(n);
  const auto r = Litl::random<int>(Position<2>({w, h}));
  vf_assert(s.size() == std::size_t(n) && r.shape() == Position<2>({w, h}) && r.size() == std::size_t(w * h), "size and shape");
  UniformNoise<short> a(Limits<short>::halfMin(), Limits<short>::halfMax(), g_clock);
  UniformNoise<int> b(Limits<int>::halfMin(), Limits<int>::halfMax(), g_clock);
  for (const auto& e : s) {
    const auto v = a();
    vf_assert(e == v && e >= -16384 && e <= 16384, "the generated elements, in order");
  }
  for (const auto& e : r) {
    const auto v = b();
    vf_assert(e == v && e >= -1073741824 && e <= 1073741824, "the generated pixels, in order");
  }
  vf_reach("end");
}
VF_CASE(stable_strong) { // whatever the previous values, with strong signals
  const long values[] = {0, 1, 7, 11, 12, 13, 40, 300};
  const long seed = vf_pick("seed", 0, 1);
  const long x = values[vf_pick("x", 0, 7)], z = values[vf_pick("z", 0, 7)];
  StablePoissonNoise<int> a(2, seed), b(2, seed);
  if (vf_pick("generate", 0, 1)) vf_assert(a() == b(), "generation");
  a(x), b(20);
  const int p = a(z), q = b(z);
  vf_assert(p == q && p >= 0, "whatever the previous value");
  vf_reach("end");
}
VF_CASE(seed_large) { // any seed but -1
  const std::size_t seeds[] = {0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0xffffffff00000000, 0xfffffffffffffffe};
  const std::size_t seed = seeds[vf_pick("seed", 0, 6)];
  g_clock = vf_int("clock", 0, 1000000);
  UniformNoise<int> a(-1000, 1000, seed), b(-1000, 1000, seed);
  vf_assert(g_clockCount == 0, "the clock is not read when there is a seed");
  for (int i = 0; i < 3; ++i) {
    const int v = a(), w = b();
    vf_assert(v == w, "same seed, same values");
  }
  vf_reach("end");
}
// no seed: the clock, whatever the generator
template <typename F, typename G>
static void clockSeeded(F&& make, G&& seeded) {
  const long c = vf_pick("clock", 1, 3);
  g_clock = c;
  auto a = make();
  vf_assert(g_clockCount == 1, "the clock is read once");
  auto b = seeded(c);
  vf_assert(g_clockCount == 1, "the clock is not read when there is a seed");
  for (int i = 0; i < 4; ++i) {
    const auto v = a(3), w = b(3);
    vf_assert(v == w, "current time as a seed");
  }
  vf_reach("end");
}
VF_CASE(clock_uniform) { clockSeeded([] { return UniformNoise<double>(0, 1000); }, [](long s) { return UniformNoise<double>(0, 1000, s); }); }
VF_CASE(clock_gaussian) { clockSeeded([] { return GaussianNoise<double>(1, 2); }, [](long s) { return GaussianNoise<double>(1, 2, s); }); }
VF_CASE(clock_poisson) { clockSeeded([] { return PoissonNoise<int>(4); }, [](long s) { return PoissonNoise<int>(4, s); }); }
VF_CASE(clock_impulse) { clockSeeded([] { return ImpulseNoise<int>({{1, .25}, {2, .25}}); }, [](long s) { return ImpulseNoise<int>({{1, .25}, {2, .25}}, s); }); }
VF_CASE(clock_impulse_single) { clockSeeded([] { return ImpulseNoise<int>(1, .5); }, [](long s) { return ImpulseNoise<int>(1, .5, s); }); }
VF_CASE(clock_salt) { clockSeeded([] { return ImpulseNoise<int>::saltAndPepper(.25, .25); }, [](long s) { return ImpulseNoise<int>({{Limits<int>::max(), .25}, {Limits<int>::min(), .25}}, s); }); }
VF_CASE(defaults) { // mean and deviation
  const long seed = vf_pick("seed", 0, 3);
  g_clock = seed;
  GaussianNoise<double> a, b(0, 1, seed);
  PoissonNoise<int> p, q(0, seed);
  StablePoissonNoise<int> s, t(0, 0);
  for (int i = 0; i < 3; ++i) {
    const double u = a(), v = b();
    vf_assert(u == v, "standard distribution");
    const int w = p(5), x = q(5);
    vf_assert(w == x, "no bias");
    const int y = s(5), z = t(5);
    vf_assert(y == z, "stable noise does not depend on the clock");
  }
  vf_assert(p() == 0 && s() == 0, "null mean");
  ImpulseNoise<int> n(4, .5, seed), m(4, .5, seed);
  for (int i = 0; i < 4; ++i) {
    const int v = n(), w = m(0);
    vf_assert(v == w, "null value by default");
  }
  vf_reach("end");
}
VF_CASE(salt_defaults) { // extreme values by default
  const int in = vf_int("in", -1000, 1000);
  auto sp = ImpulseNoise<short>::saltAndPepper(.5, .25);
  auto& f = ((RandomGenerator&)sp).m_engine;
  setWords(f, 2, 0);
  const double w = temper(reinterpret_cast<unsigned long*>(&f)[1]) / 4294967296.;
  vf_assert(sp(in) == (w < .25 ? -32768 : w < .75 ? 32767 : in) || w == .25 || w == .75, "salt and pepper");
  vf_reach("end");
}
// shot noise is that of each value, whatever the previous ones
template <typename TNoise>
static void shot() {
  const long seed = vf_pick("seed", 0, 3);
  TNoise p(vf_pick("mean", 0, 1) ? 50 : 0, seed);
  for (int i = 0; i < 3; ++i) {
    const long k = vf_pick("in", 0, 3);
    const int in = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 1000 : 1000000;
    const int out = p(in);
    vf_assert(k == 0 ? out == 0 : k == 1 ? out >= 0 && out < 100 : k == 2 ? out > 500 && out < 1500 : out > 900000 && out < 1100000, "shot noise around the value");
  }
  vf_reach("end");
}
VF_CASE(shot_poisson) { shot<PoissonNoise<int>>(); }
VF_CASE(shot_stable) { shot<StablePoissonNoise<int>>(); }
VF_CASE(again_clock) { // generators are independent of the previous ones
  for (int k = 0; k < 2; ++k) {
    g_clockCount = 0;
    clockSeeded([] { return UniformNoise<double>(0, 1000); }, [](long s) { return UniformNoise<double>(0, 1000, s); });
    g_clockCount = 0;
    clockSeeded([] { return ImpulseNoise<int>(1, .5); }, [](long s) { return ImpulseNoise<int>(1, .5, s); });
  }
}
