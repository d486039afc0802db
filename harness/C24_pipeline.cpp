#include <chrono>
#include "vf.h"
#include <stdexcept>
#include <LitlRun/StepperPipeline.h>
using namespace Litl;
// NOTE: a pipeline of 6 steps with none, one, two and three prerequisites (diamonds and chains included, with value, reference and void-like results), any sequence of 4 requests (5 in the thorough tier) among all steps and a reset, any step failing at any of its evaluations; a chain of 12 steps and a pipeline of 7 steps with up to 5 prerequisites, in any order and possibly repeated, up to 3 requests (4 in the thorough tier); any input values within [-1000, 1000], any evaluation duration up to one second (multiples of 1 ms: exact durations; one hour and any multiple of 1/8 ms in a dedicated case; negative ones, where the clock is set back, for the number of evaluations); the clock is a stub; one thread

static long g_now = 0;
static long g_tick = 0; // duration of the next evaluation
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(g_now)); }
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(steady_clock::duration(g_now)); }
}}}
struct A : PipelineStep<void, long> {};
struct B : PipelineStep<A, const long&> {};
struct C : PipelineStep<A, int> {};
struct D : PipelineStep<std::tuple<B, C>, long> {};
struct E : PipelineStep<std::tuple<D, A, C>, long> {};
struct F : PipelineStep<E, long> {};
template <typename S> constexpr int id();
template <> constexpr int id<A>() { return 0; }
template <> constexpr int id<B>() { return 1; }
template <> constexpr int id<C>() { return 2; }
template <> constexpr int id<D>() { return 3; }
template <> constexpr int id<E>() { return 4; }
template <> constexpr int id<F>() { return 5; }
constexpr int Count = 6;
static const bool g_needs[Count][Count] = {{0}, {1}, {1}, {0, 1, 1}, {1, 0, 1, 1}, {0, 0, 0, 0, 1}}; // direct prerequisites

struct Failure {};
class Dag : public StepperPipeline<Dag> {
public:
  long x = 0; // input
  long v[Count] = {0};
  int evaluations[Count] = {0}, gets[Count] = {0};
  bool done[Count] = {0};
  int fails = -1; // next step to fail
  void restart() { reset(); for (auto& d : done) d = false; }

protected:
  template <typename S>
  void doEvaluate() {
    const int i = id<S>();
    for (int j = 0; j < Count; ++j) vf_assert(!g_needs[i][j] || done[j], "prerequisites are evaluated before");
    vf_assert(!done[i], "a step is evaluated once");
    g_now += g_tick;
    if (fails == i) { fails = -1; throw Failure(); }
    ++evaluations[i];
    done[i] = true;
    v[i] = i == 0 ? x : i == 1 ? v[0] + 1 : i == 2 ? 2 * v[0] : i == 3 ? v[1] - v[2] : i == 4 ? v[3] + v[0] + 3 * v[2] : -v[4];
  }
  template <typename S>
  typename S::Return doGet() {
    vf_assert(done[id<S>()], "a step is evaluated before being read");
    ++gets[id<S>()];
    return get_<S>(std::is_reference<typename S::Return>());
  }
private:
  template <typename S> typename S::Return get_(std::true_type) { return v[id<S>()]; }
  template <typename S> typename S::Return get_(std::false_type) { return typename S::Return(v[id<S>()]); }
};
static long expected(int i, long x) {
  const long a = x, b = a + 1, c = 2 * a, d = b - c, e = d + a + 3 * c;
  return i == 0 ? a : i == 1 ? b : i == 2 ? c : i == 3 ? d : i == 4 ? e : -e;
}
template <typename S>
static bool closure(int j) { // S depends on j, directly or not
  if (j == id<S>()) return true;
  switch (id<S>()) {
    case 0: return false;
    case 1: case 2: return j == 0;
    case 3: return j <= 2;
    case 4: return j <= 3;
    default: return j <= 4;
  }
}
static long g_time[Count]; // oracle: duration of each evaluated step
static void checkTimes(Dag& dag) {
  double total = 0;
  auto check = [&](int i, bool evaluated, double ms) {
    vf_assert(evaluated == dag.done[i], "evaluated");
    vf_assert(ms == (dag.done[i] ? double(g_time[i]) : -1.), "milliseconds of a step");
    if (dag.done[i]) total += double(g_time[i]);
  };
  check(0, dag.evaluated<A>(), dag.milliseconds<A>());
  check(1, dag.evaluated<B>(), dag.milliseconds<B>());
  check(2, dag.evaluated<C>(), dag.milliseconds<C>());
  check(3, dag.evaluated<D>(), dag.milliseconds<D>());
  check(4, dag.evaluated<E>(), dag.milliseconds<E>());
  check(5, dag.evaluated<F>(), dag.milliseconds<F>());
  vf_assert(dag.milliseconds() == total, "total milliseconds");
}
template <typename S>
static void request(Dag& dag, long ms) {
  bool before[Count];
  bool fails = false;
  for (int j = 0; j < Count; ++j) {
    before[j] = dag.done[j];
    if (closure<S>(j) && !before[j] && j == dag.fails) fails = true;
  }
  bool thrown = false;
  long got = 0;
  try { got = dag.get<S>(); } catch (const Failure&) { thrown = true; }
  vf_assert(thrown == fails, "failures are propagated");
  for (int j = 0; j < Count; ++j) {
    if (!fails) vf_assert(dag.done[j] == (before[j] || closure<S>(j)), "the step and its prerequisites only are evaluated");
    else vf_assert(dag.done[j] >= before[j] && (closure<S>(j) || dag.done[j] == before[j]), "nothing else is evaluated");
    if (dag.done[j] && !before[j]) g_time[j] = ms;
  }
  if (!fails) vf_assert(got == expected(id<S>(), dag.x), "the value of the step");
  else vf_assert(!dag.done[id<S>()], "a step which fails is not evaluated");
  checkTimes(dag);
}
static void history(int steps, bool failures) {
  Dag dag;
  dag.x = vf_int("x", -1000, 1000);
  checkTimes(dag);
  for (int k = 0; k < steps; ++k) {
    if (failures && k == 0) dag.fails = vf_pick("fails", 0, Count - 1);
    const long ms = vf_int("ms", 0, 1000);
    g_tick = ms * 1000000;
    switch (vf_pick("request", 0, Count)) {
      case 0: request<A>(dag, ms); break;
      case 1: request<B>(dag, ms); break;
      case 2: request<C>(dag, ms); break;
      case 3: request<D>(dag, ms); break;
      case 4: request<E>(dag, ms); break;
      case 5: request<F>(dag, ms); break;
      default: dag.restart(); dag.x = vf_int("x", -1000, 1000); checkTimes(dag);
    }
  }
  vf_reach("end");
}
VF_CASE(requests) { history(3, false); }
VF_CASE(failures) { history(3, true); }
VF_CASE(requests_4) { history(4, false); }
VF_CASE(failures_4) { history(4, true); }
VF_CASE(requests_5_thorough) { history(5, false); }
VF_CASE(failures_5_thorough) { history(5, true); }
// several pipelines are independent
VF_CASE(independent) {
  Dag a, b;
  a.x = vf_int("x", -1000, 1000);
  b.x = vf_int("x", -1000, 1000);
  vf_assert(a.get<D>() == expected(3, a.x) && !b.evaluated<A>() && !b.evaluated<D>(), "no shared state");
  vf_assert(b.get<C>() == expected(2, b.x) && !b.evaluated<D>() && a.evaluated<D>(), "no shared state");
  const long* p = &a.get<B>();
  vf_assert(p == &a.v[1], "references are returned as such");
  Dag c(a); // copied with its evaluated steps
  vf_assert(c.evaluated<D>() && !c.evaluated<E>() && c.get<E>() == expected(4, a.x) && c.evaluations[0] == 1 && !a.evaluated<E>(), "copy");
  vf_reach("end");
}
// durations are neither rounded nor truncated
VF_CASE(durations) {
  Dag dag;
  dag.x = 1;
  const long a = vf_int("eighths", 0, 28800000), b = vf_int("eighths", 0, 28800000);
  g_tick = a * 125000;
  dag.get<A>();
  vf_assert(dag.milliseconds<A>() == double(a) / 8 && dag.milliseconds() == double(a) / 8, "duration of the step");
  g_tick = b * 125000;
  dag.get<C>();
  vf_assert(dag.milliseconds<A>() == double(a) / 8 && dag.milliseconds<C>() == double(b) / 8, "duration of the steps");
  vf_assert(dag.milliseconds() == double(a + b) / 8, "total duration");
  vf_assert(dag.milliseconds<B>() == -1, "not evaluated");
  vf_reach("end");
}
// 12 steps in a chain
template <int N> struct Link : PipelineStep<Link<N - 1>, long> {};
template <> struct Link<0> : PipelineStep<void, long> {};
template <typename S> struct Rank;
template <int N> struct Rank<Link<N>> { static constexpr int value = N; };
class Chain : public StepperPipeline<Chain> {
public:
  long x = 0;
  long v[12] = {0};
  int evaluations[12] = {0};
  int next = 0;
  void restart() { reset(); next = 0; }

protected:
  template <typename S> void doEvaluate() {
    constexpr int i = Rank<S>::value;
    vf_assert(i == next, "steps are evaluated in order");
    ++next;
    ++evaluations[i];
    g_now += g_tick * (i + 1);
    v[i] = i == 0 ? x : v[i > 0 ? i - 1 : 0] * (i % 2 ? 1 : -1) + i;
  }
  template <typename S> typename S::Return doGet() { return v[Rank<S>::value]; }
};
static long chained(int i, long x) {
  for (int j = 1; j <= i; ++j) x = x * (j % 2 ? 1 : -1) + j;
  return x;
}
VF_CASE(chain) {
  Chain c;
  c.x = vf_int("x", -1000000, 1000000);
  long ms = vf_int("ms", 0, 1000);
  g_tick = ms * 1000000;
  int last = -1;
  auto request = [&](int i, long got) {
    if (i > last) last = i;
    vf_assert(got == chained(i, c.x), "value of the step");
    vf_assert(c.next == last + 1, "the step and its prerequisites only are evaluated");
  };
  for (int k = 0; k < 3; ++k) {
    switch (vf_pick("request", 0, 5)) {
      case 0: request(0, c.get<Link<0>>()); break;
      case 1: request(2, c.get<Link<2>>()); break;
      case 2: request(3, c.get<Link<3>>()); break;
      case 3: request(7, c.get<Link<7>>()); break;
      case 4: request(11, c.get<Link<11>>()); break;
      default: c.restart(); last = -1; c.x = vf_int("x", -1000000, 1000000); ms = vf_int("ms", 0, 1000); g_tick = ms * 1000000;
    }
  }
  vf_assert(c.evaluated<Link<0>>() == (last >= 0) && c.evaluated<Link<2>>() == (last >= 2) && c.evaluated<Link<5>>() == (last >= 5) && c.evaluated<Link<11>>() == (last >= 11), "evaluated steps");
  vf_assert(c.milliseconds<Link<6>>() == (last >= 6 ? 7. * double(ms) : -1.), "duration of a step without its prerequisites");
  vf_assert(c.milliseconds() == double(ms * (last + 1) * (last + 2) / 2), "total duration");
  vf_reach("end");
}
// prerequisites in any order, repeated, and more than three of them
struct P0 : PipelineStep<void, long> {};
struct P1 : PipelineStep<void, const long*> {};
struct P2 : PipelineStep<P1, long&> {};
struct P3 : PipelineStep<std::tuple<P0, P0>, double> {};
struct P4 : PipelineStep<std::tuple<>, long> {};
struct P5 : PipelineStep<std::tuple<P4, P3, P2, P1, P0>, long> {};
struct P6 : PipelineStep<std::tuple<P5, P2, P5>, long> {};
template <> constexpr int id<P0>() { return 0; }
template <> constexpr int id<P1>() { return 1; }
template <> constexpr int id<P2>() { return 2; }
template <> constexpr int id<P3>() { return 3; }
template <> constexpr int id<P4>() { return 4; }
template <> constexpr int id<P5>() { return 5; }
template <> constexpr int id<P6>() { return 6; }
static const bool g_wide[7][7] = {{0}, {0}, {0, 1}, {1}, {0}, {1, 1, 1, 1, 1}, {1, 1, 1, 1, 1, 1}};
class Wide : public StepperPipeline<Wide> {
public:
  long x[7] = {0}, v[7] = {0};
  int evaluations[7] = {0};
  bool done[7] = {0};
  int fails = -1;
  void restart() { reset(); for (auto& d : done) d = false; }

protected:
  template <typename S> void doEvaluate() {
    constexpr int i = id<S>();
    for (int j = 0; j < 7; ++j) vf_assert(!g_wide[i][j] || done[j], "prerequisites are evaluated before");
    vf_assert(!done[i], "a step is evaluated once");
    g_now += g_tick;
    if (fails == i) throw Failure();
    done[i] = true;
    ++evaluations[i];
    v[i] = x[i];
    for (int j = 0; j < 7; ++j) if (g_wide[i][j]) v[i] += v[j];
  }
  template <typename S> typename S::Return doGet() {
    vf_assert(done[id<S>()], "a step is evaluated before being read");
    return get_<S>(Tag<typename S::Return>());
  }
private:
  template <typename T> struct Tag {};
  template <typename S> const long* get_(Tag<const long*>) { return &v[id<S>()]; }
  template <typename S> long& get_(Tag<long&>) { return v[id<S>()]; }
  template <typename S> double get_(Tag<double>) { return double(v[id<S>()]); }
  template <typename S> long get_(Tag<long>) { return v[id<S>()]; }
};
static long wideValue(const Wide& w, int i) {
  long out = w.x[i];
  for (int j = 0; j < 7; ++j) if (g_wide[i][j]) out += wideValue(w, j);
  return out;
}
static void wideHistory(int steps) {
  Wide w;
  for (auto& x : w.x) x = vf_int("x", -1000000, 1000000);
  const long ms = vf_int("ms", 0, 1000);
  g_tick = ms * 1000000;
  w.fails = vf_pick("fails", -1, 6); // at every evaluation, until solved
  for (int k = 0; k < steps; ++k) {
    const int r = vf_pick("request", 0, 7);
    if (r == 7) {
      w.fails = -1;
      if (vf_pick("restart", 0, 1)) w.restart();
      continue;
    }
    bool before[7];
    for (int j = 0; j < 7; ++j) before[j] = w.done[j];
    const bool fails = !before[r] && w.fails >= 0 && !before[w.fails] && (r == w.fails || g_wide[r][w.fails]);
    bool thrown = false;
    try {
      switch (r) {
        case 0: vf_assert(w.get<P0>() == wideValue(w, 0), "value"); break;
        case 1: vf_assert(w.get<P1>() == &w.v[1] && w.v[1] == wideValue(w, 1), "pointer"); break;
        case 2: { long& l = w.get<P2>(); vf_assert(&l == &w.v[2] && l == wideValue(w, 2), "reference"); break; }
        case 3: vf_assert(w.get<P3>() == double(wideValue(w, 3)), "real value"); break;
        case 4: vf_assert(w.get<P4>() == wideValue(w, 4), "no prerequisites"); break;
        case 5: vf_assert(w.get<P5>() == wideValue(w, 5), "five prerequisites"); break;
        default: vf_assert(w.get<P6>() == wideValue(w, 6), "repeated prerequisites");
      }
    } catch (const Failure&) { thrown = true; }
    vf_assert(thrown == fails, "failures are propagated");
    double total = 0;
    for (int j = 0; j < 7; ++j) {
      if (!fails) vf_assert(w.done[j] == (before[j] || j == r || g_wide[r][j]), "the step and its prerequisites only");
      else vf_assert(w.done[j] >= before[j] && (w.done[j] == before[j] || g_wide[r][j]), "nothing else is evaluated");
      if (w.done[j]) total += double(ms);
    }
    vf_assert(w.evaluated<P0>() == w.done[0] && w.evaluated<P1>() == w.done[1] && w.evaluated<P2>() == w.done[2] && w.evaluated<P3>() == w.done[3], "evaluated");
    vf_assert(w.evaluated<P4>() == w.done[4] && w.evaluated<P5>() == w.done[5] && w.evaluated<P6>() == w.done[6], "evaluated");
    vf_assert(w.milliseconds() == total, "total milliseconds");
  }
  vf_reach("end");
}
VF_CASE(wide) { wideHistory(2); }
VF_CASE(wide_3) { wideHistory(3); }
VF_CASE(wide_4_thorough) { wideHistory(4); }
// an assigned pipeline continues where the other one was
VF_CASE(assigned) {
  Dag a, b;
  a.x = vf_int("x", -1000, 1000);
  b.x = vf_int("x", -1000, 1000);
  const long ms = vf_int("ms", 0, 1000), ms2 = vf_int("ms", 0, 1000);
  g_tick = ms * 1000000;
  a.get<B>();
  g_tick = ms2 * 1000000;
  b.get<D>();
  const int how = vf_pick("how", 0, 3);
  if (how == 0) b = a;
  else if (how == 1) b = std::move(a);
  else if (how == 2) { Dag c(a); b = c; c.restart(); c.get<E>(); }
  else { b.restart(); b.get<A>(); b.restart(); b = a; }
  vf_assert(b.evaluated<A>() && b.evaluated<B>() && !b.evaluated<C>() && !b.evaluated<D>(), "evaluated steps are assigned");
  vf_assert(b.milliseconds<B>() == double(ms) && b.milliseconds<D>() == -1. && b.milliseconds() == 2 * double(ms), "durations are assigned");
  g_tick = ms2 * 1000000;
  vf_assert(b.get<D>() == expected(3, b.x), "value");
  vf_assert(b.milliseconds() == 2 * double(ms) + 2 * double(ms2), "durations");
  vf_reach("end");
}
// the clock may be set back during an evaluation
VF_CASE(clock_back) {
  Dag dag;
  dag.x = 1;
  g_now = 1000000000;
  g_tick = vf_int("tick", -2000, 2) * 1000;
  dag.get<A>();
  g_tick = vf_int("tick", -2000, 2) * 1000;
  vf_assert(dag.evaluated<A>() && !dag.evaluated<C>(), "evaluated");
  vf_assert(dag.get<C>() == 2 && dag.get<A>() == 1 && dag.get<C>() == 2 && dag.get<D>() == 0, "values");
  vf_assert(dag.evaluations[0] == 1 && dag.evaluations[1] == 1 && dag.evaluations[2] == 1 && dag.evaluations[3] == 1, "each step is evaluated once");
  vf_assert(dag.evaluated<A>() && dag.evaluated<B>() && dag.evaluated<C>() && dag.evaluated<D>() && !dag.evaluated<E>(), "evaluated");
  vf_reach("end");
}
