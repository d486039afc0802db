#include "lt.h"
// NOTE: any non-empty box and any margin with front <= 0 <= back, coordinates within [-1000, 1000] and margins up to 1000; 10^15 for the partition alone; dimensions 1 to 4 fixed, 1 to 3 variable; dimensions 5 and 6, where margins are null along at most one axis

template <Index N>
static bool in(const Box<N>& b, const Position<N>& p) {
  bool r = true;
  for (Index i = 0; i < b.dimension(); ++i) r = r & (p[i] >= b.front()[i]) & (p[i] <= b.back()[i]);
  return r;
}
template <Index N>
static void surround(Index dim) {
  const Position<N> f = symPos<N>("f", dim, -1000, 1000), s = symPos<N>("s", dim, 1, 1000);
  const Box<N> b = Box<N>::fromShape(f, s);
  const Position<N> mf = symPos<N>("mf", dim, -1000, 0), mb = symPos<N>("mb", dim, 0, 1000);
  const Box<N> margin(mf, mb);
  const Position<N> p = symPos<N>("p", dim, -4000, 4000);
  const std::vector<Box<N>> chunks = b.surround(margin);
  long expected = 0;
  for (Index i = 0; i < dim; ++i) expected += (mf[i] < 0) + (mb[i] > 0);
  vf_assert((long)chunks.size() == expected, "one box per non-null margin index");
  long count = 0;
  for (const auto& c : chunks) {
    for (Index i = 0; i < dim; ++i) {
      vf_assert(c.front()[i] <= c.back()[i], "no empty box");
    }
    count += in(c, p);
  }
  const bool inner = in(b, p), outer = in(b + margin, p);
  vf_assert(count + inner == outer, "the boxes and the central one partition the grown box");
  vf_observe("chunks", chunks.size());
  vf_reach("end");
}
VF_CASE(surround1) { surround<1>(1); }
VF_CASE(surround2) { surround<2>(2); }
VF_CASE(surround3) { surround<3>(3); }
VF_CASE(surroundV) { surround<-1>(vf_pick("dim", 1, 2)); }
VF_CASE(surround4) { surround<4>(4); }
VF_CASE(surroundV3) { surround<-1>(3); }
// coordinates and margins of any magnitude
template <Index N>
static void far(Index dim) {
  const long M = 1000000000000000l;
  const Position<N> f = symPos<N>("f", dim, -M, M), s = symPos<N>("s", dim, 1, M), p = symPos<N>("p", dim, -4 * M, 4 * M);
  const Position<N> mf = symPos<N>("mf", dim, -M, 0), mb = symPos<N>("mb", dim, 0, M);
  const Box<N> b = Box<N>::fromShape(f, s), margin(mf, mb);
  long count = 0;
  for (const auto& c : b.surround(margin)) count += in(c, p);
  vf_assert(count + in(b, p) == in(b + margin, p), "the boxes and the central one partition the grown box");
  vf_reach("end");
}
VF_CASE(far1) { far<1>(1); }
VF_CASE(far2) { far<2>(2); }
VF_CASE(farV) { far<-1>(2); }
VF_CASE(far3_thorough) { far<3>(3); }
// dimensions 5 and 6: null margins along any one axis
template <Index N>
static void high(Index dim) {
  const Position<N> f = symPos<N>("f", dim, -1000, 1000), s = symPos<N>("s", dim, 1, 1000), p = symPos<N>("p", dim, -4000, 4000);
  Position<N> mf = symPos<N>("mf", dim, -1000, -1), mb = symPos<N>("mb", dim, 1, 1000);
  const Index axis = vf_pick("axis", 0, dim - 1);
  const int kind = vf_pick("null", 0, 3);
  if (kind & 1) mf[axis] = 0;
  if (kind & 2) mb[axis] = 0;
  const Box<N> b = Box<N>::fromShape(f, s), margin(mf, mb);
  const std::vector<Box<N>> chunks = b.surround(margin);
  vf_assert((long)chunks.size() == 2 * dim - (kind & 1) - (kind >> 1), "one box per non-null margin index");
  long count = 0;
  for (const auto& c : chunks) {
    for (Index i = 0; i < dim; ++i) vf_assert(c.front()[i] <= c.back()[i], "no empty box");
    count += in(c, p);
  }
  vf_assert(count + in(b, p) == in(b + margin, p), "the boxes and the central one partition the grown box");
  vf_reach("end");
}
VF_CASE(high5) { high<5>(5); }
VF_CASE(high6) { high<6>(6); }
VF_CASE(highV4) { high<-1>(4); }
VF_CASE(highV6) { high<-1>(6); }

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_surround) { far<2>(2); far<2>(2); }
VF_CASE(again_variable) { far<-1>(1); far<-1>(2); }
