#include <random>
#include "expr.hpp"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include <unordered_set>

std::vector<SymInfo> g_syms;
SolverStats g_stats;
std::string g_smtDumpDir;
static uint32_t g_epoch = 1;
uint32_t newEpoch() { return ++g_epoch; }

static void die(const char* msg) { fprintf(stderr, "ENGINE-ERROR: %s\n", msg); fflush(nullptr); _Exit(70); }

// ------------------------------------------------------------------ interning
struct EHash {
  size_t operator()(E e) const {
    uint64_t h = e->k * 0x9E3779B97F4A7C15ull + e->w * 131 + (uint64_t)e->fp * 7 + (uint64_t)(uint32_t)e->op * 0xC2B2AE3D27D4EB4Full;
    h ^= e->c * 0xff51afd7ed558ccdull + e->chi * 0xD6E8FEB86659FD93ull;
    for (int i = 0; i < e->n; i++) h = (h ^ e->a[i]->id) * 0x100000001b3ull + (h >> 29);
    if (e->k == KFConst) { double d = (double)e->f; uint64_t b; memcpy(&b, &d, 8); h ^= b * 31; }
    return h ^ (h >> 32);
  }
};
static bool sameLD(long double a, long double b) { return memcmp(&a, &b, 10) == 0; }
struct EEq {
  bool operator()(E x, E y) const {
    if (x->k != y->k || x->fp != y->fp || x->w != y->w || x->op != y->op || x->c != y->c || x->chi != y->chi || x->n != y->n) return false;
    for (int i = 0; i < x->n; i++) if (x->a[i] != y->a[i]) return false;
    if (x->k == KFConst && !sameLD(x->f, y->f)) return false;
    return true;
  }
};
static std::unordered_set<E, EHash, EEq>& table() { static std::unordered_set<E, EHash, EEq> t; return t; }
static uint32_t g_nextId = 1;

static const SymSet* emptySet() { static SymSet s; return &s; }
static const SymSet* unionSet(const SymSet* a, const SymSet* b) {
  if (a == b || b->s.empty()) return a;
  if (a->s.empty()) return b;
  static std::map<std::pair<const SymSet*, const SymSet*>, const SymSet*> memo;
  static std::map<std::vector<uint32_t>, const SymSet*> intern;
  auto key = a < b ? std::make_pair(a, b) : std::make_pair(b, a);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(a->s.begin(), a->s.end(), b->s.begin(), b->s.end(), std::back_inserter(r));
  const SymSet* res;
  if (r == a->s) res = a;
  else if (r == b->s) res = b;
  else {
    auto jt = intern.find(r);
    if (jt != intern.end()) res = jt->second;
    else { auto* n = new SymSet; n->s = r; intern[r] = n; res = n; }
  }
  memo[key] = res;
  return res;
}

static inline i128 smin(unsigned w) { return w == 1 ? 0 : (w >= 127 ? (i128)1 << 127 : -((i128)1 << (w - 1))); }
static inline i128 smax(unsigned w) { return w == 1 ? 1 : (w >= 127 ? ~((i128)1 << 127) : ((i128)1 << (w - 1)) - 1); }
static inline i128 cval(E e) { return e->w == 1 ? (i128)e->c : sgn(e->cv(), e->w); }

typedef std::pair<i128, i128> IV;
static bool mulOv(i128 a, i128 b, i128& r) { return __builtin_mul_overflow(a, b, &r); }
static bool addOv(i128 a, i128 b, i128& r) { return __builtin_add_overflow(a, b, &r); }
static bool subOv(i128 a, i128 b, i128& r) { return __builtin_sub_overflow(a, b, &r); }

template <class G>
static IV computeI(E e, G get) {
  unsigned w = e->w;
  IV full(smin(w), smax(w));
  if (e->fp) return full;
  auto fit = [&](i128 lo, i128 hi) { if (lo >= full.first && hi <= full.second) return IV(lo, hi); return full; };
  switch (e->k) {
    case KConst: return IV(cval(e), cval(e));
    case KSym: return full;  // handled by caller
    case KAdd: { if (w == 1) return full; IV a = get(e->a[0]), b = get(e->a[1]); i128 l, h; if (addOv(a.first, b.first, l) || addOv(a.second, b.second, h)) return full; return fit(l, h); }
    case KSub: { if (w == 1) return full; IV a = get(e->a[0]), b = get(e->a[1]); i128 l, h; if (subOv(a.first, b.second, l) || subOv(a.second, b.first, h)) return full; return fit(l, h); }
    case KMul: {
      if (w == 1) return full;
      IV a = get(e->a[0]), b = get(e->a[1]); i128 p[4];
      if (mulOv(a.first, b.first, p[0]) || mulOv(a.first, b.second, p[1]) || mulOv(a.second, b.first, p[2]) || mulOv(a.second, b.second, p[3])) return full;
      i128 l = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])), h = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
      if (e->a[0] == e->a[1] && l < 0) l = 0;
      return fit(l, h);
    }
    case KUDiv: { IV a = get(e->a[0]), b = get(e->a[1]); if (w > 1 && a.first >= 0 && b.first >= 1) return IV(a.first / b.second, a.second / b.first); return full; }
    case KURem: { IV a = get(e->a[0]), b = get(e->a[1]); if (w > 1 && a.first >= 0 && b.first >= 1) { if (a.second < b.first) return a; return IV(0, std::min(a.second, b.second - 1)); } if (w > 1 && b.first >= 1) return IV(0, b.second - 1); return full; }
    case KSDiv: {
      IV a = get(e->a[0]), b = get(e->a[1]);
      if (w > 1 && b.first >= 1) { i128 c[4] = {a.first / b.first, a.first / b.second, a.second / b.first, a.second / b.second}; return IV(*std::min_element(c, c + 4), *std::max_element(c, c + 4)); }
      return full;
    }
    case KSRem: {
      IV a = get(e->a[0]), b = get(e->a[1]);
      if (w > 1 && b.first >= 1) { i128 m = b.second - 1; i128 lo = a.first >= 0 ? 0 : std::max(-m, a.first), hi = a.second <= 0 ? 0 : std::min(m, a.second); if (a.first >= 0 && a.second < b.first) return a; return IV(lo, hi); }
      return full;
    }
    case KAnd: { IV a = get(e->a[0]), b = get(e->a[1]); if (w == 1) { if (a.second == 0 || b.second == 0) return IV(0, 0); if (a.first == 1 && b.first == 1) return IV(1, 1); return full; }
      if (a.first >= 0 && b.first >= 0) return IV(0, std::min(a.second, b.second)); if (a.first >= 0) return IV(0, a.second); if (b.first >= 0) return IV(0, b.second); return full; }
    case KOr: case KXor: {
      IV a = get(e->a[0]), b = get(e->a[1]);
      if (w == 1) {
        if (e->k == KOr) { if (a.first == 1 || b.first == 1) return IV(1, 1); if (a.second == 0 && b.second == 0) return IV(0, 0); }
        else if (a.first == a.second && b.first == b.second) return IV(a.first ^ b.first, a.first ^ b.first);
        return full;
      }
      if (a.first >= 0 && b.first >= 0) { i128 m = std::max(a.second, b.second), p = 1; while (p <= m) p <<= 1; return IV(e->k == KOr ? std::max(a.first, b.first) : 0, p - 1); }
      return full;
    }
    case KShl: { IV a = get(e->a[0]), b = get(e->a[1]); if (w > 1 && b.first == b.second && b.first >= 0 && b.first < w - 1 && w <= 64) return fit(a.first * ((i128)1 << (int)b.first), a.second * ((i128)1 << (int)b.first)); return full; }
    case KLShr: { IV a = get(e->a[0]), b = get(e->a[1]); if (w > 1 && b.first == b.second && b.first >= 0 && b.first < w) { int s = (int)b.first; if (a.first >= 0) return IV(a.first >> s, a.second >> s); if (s > 0 && w <= 64) { if (a.second < 0) { return IV((i128)(((u128)a.first & maskw(w)) >> s), (i128)(((u128)a.second & maskw(w)) >> s)); } return IV(0, (i128)(maskw(w) >> s)); } } if (w > 1 && a.first >= 0) return IV(0, a.second); return full; }
    case KAShr: { IV a = get(e->a[0]), b = get(e->a[1]); if (w > 1 && b.first == b.second && b.first >= 0 && b.first < w) return IV(a.first >> (int)b.first, a.second >> (int)b.first); return full; }
    case KEq: { if (e->a[0]->fp) return full; IV a = get(e->a[0]), b = get(e->a[1]); if (a.second < b.first || b.second < a.first) return IV(0, 0); if (a.first == a.second && b.first == b.second && a.first == b.first) return IV(1, 1); return full; }
    case KSlt: { IV a = get(e->a[0]), b = get(e->a[1]); if (e->a[0]->w == 1) return full; if (a.second < b.first) return IV(1, 1); if (a.first >= b.second) return IV(0, 0); return full; }
    case KSle: { IV a = get(e->a[0]), b = get(e->a[1]); if (e->a[0]->w == 1) return full; if (a.second <= b.first) return IV(1, 1); if (a.first > b.second) return IV(0, 0); return full; }
    case KUlt: case KUle: {
      IV a = get(e->a[0]), b = get(e->a[1]); bool strict = e->k == KUlt;
      auto decide = [&](IV x, IV y) { if (strict ? x.second < y.first : x.second <= y.first) return IV(1, 1); if (strict ? x.first >= y.second : x.first > y.second) return IV(0, 0); return full; };
      if (e->a[0]->w == 1) return decide(a, b);
      bool an = a.first >= 0, bn = b.first >= 0, am = a.second < 0, bm = b.second < 0;
      if (an && bm) return IV(1, 1);
      if (am && bn) return IV(0, 0);
      if ((an && bn) || (am && bm)) return decide(a, b);
      return full;
    }
    case KIte: { IV c = get(e->a[0]), a = get(e->a[1]), b = get(e->a[2]); if (c.first == 1) return a; if (c.second == 0) return b; return IV(std::min(a.first, b.first), std::max(a.second, b.second)); }
    case KExtract: { IV a = get(e->a[0]); if (e->op == 0) { if (w > 1 && a.first >= smin(w) && a.second <= smax(w)) return a; if (w == 1 && a.first >= 0 && a.second <= 1 && e->a[0]->w > 1) return a; if (w > 1 && a.first >= 0 && a.second < ((i128)1 << w)) return full; return full; }
      if (a.first >= 0 && w > 1) { i128 l = a.first >> e->op, h = a.second >> e->op; if (h <= smax(w)) return IV(l, h); }
      return full; }
    case KZExt: { IV a = get(e->a[0]); if (a.first >= 0) return a; return IV(0, (i128)maskw(e->a[0]->w)); }
    case KSExt: { IV a = get(e->a[0]); if (e->a[0]->w == 1) return IV(-a.second, -a.first); return a; }
    case KConcat: { IV h = get(e->a[0]), l = get(e->a[1]); unsigned lw = e->a[1]->w; if (h.first >= 0 && e->a[0]->w > 1 && w <= 64) { return IV(h.first << lw, (h.second << lw) + (i128)maskw(lw)); } (void)l; return full; }
    default: return full;
  }
}

static E intern(Expr& t) {
  auto it = table().find(&t);
  if (it != table().end()) return *it;
  Expr* n = new Expr(t);
  n->id = g_nextId++;
  const SymSet* ss = emptySet();
  n->uf = (n->k == KFOp || n->k == KUfBv || n->k == KFFromBits || (n->k == KFpBits));
  for (int i = 0; i < n->n; i++) { ss = unionSet(ss, n->a[i]->syms); n->uf |= n->a[i]->uf; }
  if (n->k == KFDy) { /* exact: no UF unless used as bits */ }
  n->syms = ss;
  if (!n->fp && n->k != KSym) { IV iv = computeI(n, [](E x) { return IV(x->lo, x->hi); }); n->lo = iv.first; n->hi = iv.second; }
  table().insert(n);
  return n;
}

static Expr blank(Kind k, bool fp, unsigned w) { Expr e; memset((void*)&e, 0, sizeof e); e.k = k; e.fp = fp; e.w = w; e.syms = nullptr; return e; }

E mkC(unsigned w, u128 v) {
  v &= maskw(w);
  Expr t = blank(KConst, false, w); t.c = (uint64_t)v; t.chi = (uint64_t)(v >> 64);
  return intern(t);
}
static E mkCs(unsigned w, i128 v) { return mkC(w, (u128)v); }

static std::map<std::string, uint32_t> g_symByKey;
E mkSym(const std::string& name, unsigned w, i128 lo, i128 hi, bool undef) {
  std::string key = name + "|" + std::to_string(w) + "|" + i128s(lo) + "|" + i128s(hi);
  auto it = g_symByKey.find(key);
  uint32_t idx;
  if (it != g_symByKey.end()) idx = it->second;
  else { idx = g_syms.size(); g_syms.push_back({name, w, lo, hi, undef}); g_symByKey[key] = idx; }
  return symExpr(idx);
}
E symExpr(uint32_t idx) {
  static std::vector<E> cache;
  if (cache.size() <= idx) cache.resize(idx + 64, nullptr);
  if (cache[idx]) return cache[idx];
  Expr* n = new Expr(blank(KSym, false, g_syms[idx].w)); n->op = idx; n->id = g_nextId++;
  auto* s = new SymSet; s->s.push_back(idx); n->syms = s;
  n->lo = g_syms[idx].lo; n->hi = g_syms[idx].hi;
  table().insert(n);
  if (n->lo == n->hi) { /* still a symbol; constant by range */ }
  return cache[idx] = n;
}
std::string i128s(i128 v) {
  if (v == 0) return "0";
  bool neg = v < 0; u128 x = neg ? (u128)0 - (u128)v : (u128)v; std::string s;
  while (x) { s += char('0' + (int)(x % 10)); x /= 10; }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}

static E nary(Kind k, bool fp, unsigned w, std::initializer_list<E> as, int32_t op = 0) {
  Expr t = blank(k, fp, w); t.op = op;
  for (E a : as) t.a[t.n++] = a;
  E r = intern(t);
  if (!r->fp && r->k != KConst && r->lo == r->hi) return mkCs(w, r->lo);
  return r;
}

// ------------------------------------------------------------------ concrete ops
static u128 opBV(Kind k, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w);
  switch (k) {
    case KAdd: return (a + b) & m;
    case KSub: return (a - b) & m;
    case KMul: return (a * b) & m;
    case KUDiv: return b ? a / b : m;
    case KURem: return b ? a % b : a;
    case KSDiv: { i128 x = sgn(a, w), y = sgn(b, w); if (!y) return (x >= 0 ? m : 1); return (u128)(x / y) & m; }
    case KSRem: { i128 x = sgn(a, w), y = sgn(b, w); if (!y) return a; return (u128)(x % y) & m; }
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case KLShr: return b >= w ? 0 : a >> (unsigned)b;
    case KAShr: { i128 x = sgn(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case KEq: return a == b;
    case KUlt: return a < b;
    case KUle: return a <= b;
    case KSlt: return sgn(a, w) < sgn(b, w);
    case KSle: return sgn(a, w) <= sgn(b, w);
    default: die("opBV");
  }
  return 0;
}

// ------------------------------------------------------------------ polynomials (ring identities)
typedef std::vector<E> Mono;
struct MonoLess { bool operator()(const Mono& x, const Mono& y) const { return std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end(), [](E p, E q) { return p->id < q->id; }); } };
typedef std::map<Mono, u128, MonoLess> Poly;
static int g_polyBudget;
static void polyAcc(E e, u128 coef, Poly& out);
static void polyAddTerm(Poly& p, const Mono& m, u128 c, unsigned w) {
  c &= maskw(w);
  if (!c) return;
  auto it = p.find(m);
  if (it == p.end()) { p[m] = c; return; }
  it->second = (it->second + c) & maskw(w);
  if (!it->second) p.erase(it);
}
static void polyAcc(E e, u128 coef, Poly& out) {
  unsigned w = e->w;
  coef &= maskw(w);
  if (!coef) return;
  if (--g_polyBudget < 0) { polyAddTerm(out, Mono{e}, coef, w); return; }
  switch (e->k) {
    case KConst: polyAddTerm(out, Mono{}, coef * e->cv(), w); return;
    case KAdd: polyAcc(e->a[0], coef, out); polyAcc(e->a[1], coef, out); return;
    case KSub: polyAcc(e->a[0], coef, out); polyAcc(e->a[1], (u128)0 - coef, out); return;
    case KShl: if (isC(e->a[1]) && e->a[1]->c < w) { polyAcc(e->a[0], coef << e->a[1]->c, out); return; } break;
    case KMul: {
      if (isC(e->a[1])) { polyAcc(e->a[0], coef * e->a[1]->cv(), out); return; }
      if (isC(e->a[0])) { polyAcc(e->a[1], coef * e->a[0]->cv(), out); return; }
      Poly p, q; polyAcc(e->a[0], 1, p); polyAcc(e->a[1], 1, q);
      if (p.size() * q.size() > 256) break;
      for (auto& x : p) for (auto& y : q) {
        g_polyBudget--;
        Mono m = x.first; m.insert(m.end(), y.first.begin(), y.first.end());
        std::sort(m.begin(), m.end(), [](E s, E t) { return s->id < t->id; });
        polyAddTerm(out, m, x.second * y.second * coef, w);
      }
      return;
    }
    default: break;
  }
  polyAddTerm(out, Mono{e}, coef, w);
}
static Poly polyOf(E e) { Poly p; g_polyBudget = 4000; polyAcc(e, 1, p); return p; }
static E rawBin(Kind k, E a, E b) { return nary(k, false, a->w, {a, b}); }
static E polyRebuild(const Poly& p, unsigned w, unsigned shr) {
  E acc = nullptr; u128 cst = 0;
  for (auto& t : p) {
    i128 c = sgn(t.second, w) >> shr;
    if (t.first.empty()) { cst = (u128)c; continue; }
    E m = t.first[0];
    for (size_t i = 1; i < t.first.size(); i++) m = rawBin(KMul, m, t.first[i]);
    if (c != 1) m = rawBin(KMul, m, mkCs(w, c));
    acc = acc ? rawBin(KAdd, acc, m) : m;
  }
  if (!acc) return mkC(w, cst);
  if (cst & maskw(w)) acc = rawBin(KAdd, acc, mkC(w, cst));
  return acc;
}
unsigned knownTZ(E e) {
  switch (e->k) {
    case KConst: { u128 v = e->cv(); if (!v) return e->w; unsigned n = 0; while (!(v & 1)) { v >>= 1; n++; } return n; }
    case KAdd: case KSub: return std::min(knownTZ(e->a[0]), knownTZ(e->a[1]));
    case KOr: case KXor: return std::min(knownTZ(e->a[0]), knownTZ(e->a[1]));
    case KAnd: return std::max(knownTZ(e->a[0]), knownTZ(e->a[1]));
    case KMul: return std::min<unsigned>(e->w, knownTZ(e->a[0]) + knownTZ(e->a[1]));
    case KShl: if (isC(e->a[1])) return std::min<unsigned>(e->w, knownTZ(e->a[0]) + (unsigned)e->a[1]->c); return knownTZ(e->a[0]);
    case KSExt: case KZExt: { unsigned t = knownTZ(e->a[0]); return t >= e->a[0]->w ? e->w : t; }
    case KIte: return std::min(knownTZ(e->a[1]), knownTZ(e->a[2]));
    case KExtract: { unsigned t = knownTZ(e->a[0]); return t > (unsigned)e->op ? std::min<unsigned>(e->w, t - e->op) : 0; }
    default: return 0;
  }
}

// ------------------------------------------------------------------ BV constructors
static bool fitsS(E e, unsigned w) { return e->lo >= smin(w) && e->hi <= smax(w); }

E mkNot(E a) {
  if (isC(a)) return mkC(a->w, ~a->cv());
  if (a->w == 1) {
    switch (a->k) {
      case KSlt: return mkBin(KSle, a->a[1], a->a[0]);
      case KSle: return mkBin(KSlt, a->a[1], a->a[0]);
      case KUlt: return mkBin(KUle, a->a[1], a->a[0]);
      case KUle: return mkBin(KUlt, a->a[1], a->a[0]);
      case KXor: if (isC(a->a[1])) return a->a[1]->c ? a->a[0] : mkNot(a->a[0]); break;
      case KAnd: return mkBin(KOr, mkNot(a->a[0]), mkNot(a->a[1]));
      case KOr: return mkBin(KAnd, mkNot(a->a[0]), mkNot(a->a[1]));
      default: break;
    }
    return nary(KXor, false, 1, {a, mkC(1, 1)});
  }
  return mkBin(KXor, a, mkC(a->w, ~(u128)0));
}
E mkBoolAnd(E a, E b) { return mkBin(KAnd, a, b); }
E mkBoolOr(E a, E b) { return mkBin(KOr, a, b); }

static bool isZero(E e) { return isC(e) && e->cv() == 0; }
static bool isOnes(E e) { return isC(e) && e->cv() == maskw(e->w); }
static bool isOne(E e) { return isC(e) && e->cv() == 1; }

static int ilog2(u128 v) { int n = -1; while (v) { n++; v >>= 1; } return n; }
static bool isPow2(u128 v) { return v && !(v & (v - 1)); }

// floor((2^s P + c) / 2^s) with a constant c: P + floor(c / 2^s), provided nothing wraps
static E exactShift(E a, unsigned s) {
  unsigned w = a->w;
  if (!s || s >= w) return nullptr;
  if (knownTZ(a) < s) {
    if (!(a->k == KAdd && isC(a->a[1]) && knownTZ(a->a[0]) >= s)) return nullptr;
  }
  Poly p = polyOf(a);
  for (auto& t : p) if (!t.first.empty() && (t.second & maskw(s))) return nullptr;
  E r = polyRebuild(p, w, s);
  if (r->lo > (smin(w) >> s) && r->hi < (smax(w) >> s)) return r;
  return nullptr;
}
E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w || a->fp || b->fp) { fprintf(stderr, "mkBin width mismatch k=%d %u %u fp %d %d\n", k, a->w, b->w, a->fp, b->fp); die("width"); }
  bool cmp = k >= KEq && k <= KSle;
  if (isC(a) && isC(b)) return mkC(cmp ? 1 : w, opBV(k, w, a->cv(), b->cv()));
  switch (k) {
    case KAdd: case KMul: case KAnd: case KOr: case KXor: case KEq:
      if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
      break;
    default: break;
  }
  switch (k) {
    case KAdd:
      if (isZero(b)) return a;
      if (isC(b) && a->k == KAdd && isC(a->a[1])) return mkBin(KAdd, a->a[0], mkC(w, a->a[1]->cv() + b->cv()));
      if (isC(b) && a->k == KIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkBin(KAdd, a->a[1], b), mkBin(KAdd, a->a[2], b));
      if (a->k == KAdd && isC(a->a[1]) && !isC(b)) return mkBin(KAdd, mkBin(KAdd, a->a[0], b), a->a[1]);
      if (b->k == KAdd && isC(b->a[1])) return mkBin(KAdd, mkBin(KAdd, a, b->a[0]), b->a[1]);
      if (b->k == KSub && b->a[1] == a) return b->a[0];
      if (a->k == KSub && a->a[1] == b) return a->a[0];
      break;
    case KSub:
      if (isZero(b)) return a;
      if (a == b) return mkC(w, 0);
      if (isC(b)) return mkBin(KAdd, a, mkC(w, (u128)0 - b->cv()));
      if (a->k == KAdd && isC(a->a[1])) return mkBin(KAdd, mkBin(KSub, a->a[0], b), a->a[1]);
      if (b->k == KAdd && isC(b->a[1])) return mkBin(KAdd, mkBin(KSub, a, b->a[0]), mkC(w, (u128)0 - b->a[1]->cv()));
      if (a->k == KAdd && a->a[0] == b) return a->a[1];
      if (a->k == KAdd && a->a[1] == b) return a->a[0];
      { // full cancellation by ring normalisation
        Poly p; g_polyBudget = 400; polyAcc(a, 1, p); polyAcc(b, maskw(w), p);
        if (p.empty()) return mkC(w, 0);
        if (p.size() == 1 && p.begin()->first.empty()) return mkC(w, p.begin()->second);
      }
      break;
    case KMul:
      if (isZero(b)) return b;
      if (isOne(b)) return a;
      if (isC(b) && a->k == KMul && isC(a->a[1])) return mkBin(KMul, a->a[0], mkC(w, a->a[1]->cv() * b->cv()));
      if (isC(b) && a->k == KAdd && isC(a->a[1])) return mkBin(KAdd, mkBin(KMul, a->a[0], b), mkC(w, a->a[1]->cv() * b->cv()));
      if (isC(b) && a->k == KIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkBin(KMul, a->a[1], b), mkBin(KMul, a->a[2], b));
      break;
    case KUDiv:
      if (isOne(b)) return a;
      if (isC(b) && isPow2(b->cv())) return mkBin(KLShr, a, mkC(w, ilog2(b->cv())));
      break;
    case KURem:
      if (isOne(b)) return mkC(w, 0);
      if (isC(b) && isPow2(b->cv())) return mkBin(KAnd, a, mkC(w, b->cv() - 1));
      break;
    case KSDiv:
      if (isOne(b)) return a;
      if (w > 1 && a->lo >= 0 && b->lo > 0) return mkBin(KUDiv, a, b);
      if (isC(b) && sgn(b->cv(), w) > 0) { // exact division
        u128 d = b->cv();
        Poly p = polyOf(a); bool all = true; i128 lo = a->lo;
        (void)lo;
        for (auto& t : p) if (sgn(t.second, w) % (i128)d != 0) all = false;
        if (all && a->k != KConst && (a->lo > smin(w) || a->hi < smax(w))) {
          Poly q; for (auto& t : p) q[t.first] = (u128)(sgn(t.second, w) / (i128)d) & maskw(w);
          E r = polyRebuild(q, w, 0);
          // valid only if r*d does not wrap
          if (r->lo > smin(w) / (i128)d && r->hi < smax(w) / (i128)d) return r;
        }
      }
      break;
    case KSRem:
      if (isOne(b)) return mkC(w, 0);
      if (w > 1 && a->lo >= 0 && b->lo > 0) return mkBin(KURem, a, b);
      break;
    case KAnd:
      if (isZero(b)) return b;
      if (isOnes(b)) return a;
      if (a == b) return a;
      if (isC(b) && a->k == KAnd && isC(a->a[1])) return mkBin(KAnd, a->a[0], mkC(w, a->a[1]->cv() & b->cv()));
      if (w > 1 && isC(b) && isPow2(b->cv() + 1) && a->lo >= 0 && a->hi <= (i128)b->cv()) return a;
      if (w > 1 && isC(b)) { unsigned tz = knownTZ(a); u128 low = tz >= 128 ? ~(u128)0 : maskw(tz ? tz : 1); if (tz && (b->cv() & ~low) == 0) return mkC(w, 0); 
        u128 inv = ~b->cv() & maskw(w); if (tz && (inv & ~low) == 0) return a; }
      if (w > 1 && isC(b) && isPow2(b->cv() + 1) && a->k == KAdd && isC(a->a[1])) { unsigned s = ilog2(b->cv() + 1); if (knownTZ(a->a[0]) >= s) return mkC(w, a->a[1]->cv() & b->cv()); }
      if (w == 1 && (a == mkNot(b))) return mkC(1, 0);
      if (w == 1) { // absorption: a & (a & x)
        if (b->k == KAnd && (b->a[0] == a || b->a[1] == a)) return b;
        if (a->k == KAnd && (a->a[0] == b || a->a[1] == b)) return a;
      }
      break;
    case KOr:
      if (isZero(b)) return a;
      if (isOnes(b)) return b;
      if (a == b) return a;
      if (w == 1 && (a == mkNot(b))) return mkC(1, 1);
      if (w > 1) { // disjoint bits: or == add
        unsigned tz = isC(b) ? knownTZ(a) : 0;
        if (isC(b) && tz && tz < 127 && b->cv() < ((u128)1 << tz)) return mkBin(KAdd, a, b);
      }
      break;
    case KXor:
      if (isZero(b)) return a;
      if (a == b) return mkC(w, 0);
      if (w == 1 && isOnes(b)) return mkNot(a);
      if (isC(b) && a->k == KXor && isC(a->a[1])) return mkBin(KXor, a->a[0], mkC(w, a->a[1]->cv() ^ b->cv()));
      break;
    case KShl:
      if (isZero(b)) return a;
      if (isC(b)) { if (b->cv() >= w) return mkC(w, 0); return mkBin(KMul, a, mkC(w, (u128)1 << b->c)); }
      break;
    case KLShr:
      if (isZero(b)) return a;
      if (isC(b) && b->cv() >= w) return mkC(w, 0);
      if (isC(b) && a->lo >= 0 && w > 1) { // exact shift of a multiple
        E r = exactShift(a, b->c); if (r) return r;
      }
      break;
    case KAShr:
      if (isZero(b)) return a;
      if (isC(b) && b->cv() >= w) b = mkC(w, w - 1);
      if (w > 1 && a->lo >= 0 && isC(b)) return mkBin(KLShr, a, b);
      if (isC(b) && w > 1) { E r = exactShift(a, b->c); if (r) return r; }
      break;
    case KEq: {
      if (a == b) return mkC(1, 1);
      if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); return mkNot(nary(KXor, false, 1, {a, b})); }
      if (a->hi < b->lo || b->hi < a->lo) return mkC(1, 0);
      if (isC(b)) {
        if (a->k == KZExt) { if (b->cv() > maskw(a->a[0]->w)) return mkC(1, 0); return mkBin(KEq, a->a[0], mkC(a->a[0]->w, b->cv())); }
        if (a->k == KSExt) { i128 v = sgn(b->cv(), w); if (v < smin(a->a[0]->w) || v > smax(a->a[0]->w)) { if (a->a[0]->w > 1) return mkC(1, 0); } else if (a->a[0]->w > 1) return mkBin(KEq, a->a[0], mkCs(a->a[0]->w, v)); }
        if (a->k == KIte && isC(a->a[1]) && isC(a->a[2])) { bool x = a->a[1] == b, y = a->a[2] == b; if (x && y) return mkC(1, 1); if (x) return a->a[0]; if (y) return mkNot(a->a[0]); return mkC(1, 0); }
        if (a->k == KIte && (isC(a->a[1]) || isC(a->a[2])) && (a->a[1]->k == KIte || a->a[2]->k == KIte)) {
          E ne = isC(a->a[1]) ? a->a[2] : a->a[1];
          if (isC(ne->a[1]) && isC(ne->a[2])) { E x = mkBin(KEq, a->a[1], b), y = mkBin(KEq, a->a[2], b); return mkBin(KOr, mkBin(KAnd, a->a[0], x), mkBin(KAnd, mkNot(a->a[0]), y)); }
        }
        if (a->k == KAdd && isC(a->a[1])) return mkBin(KEq, a->a[0], mkC(w, b->cv() - a->a[1]->cv()));
        if (a->k == KMul && isC(a->a[1]) && (a->lo > smin(w) || a->hi < smax(w)) && a->a[0]->lo > smin(w)) {
          i128 k = sgn(a->a[1]->cv(), w), v = sgn(b->cv(), w); i128 pl, ph;
          if (k != 0 && !mulOv(a->a[0]->lo, k, pl) && !mulOv(a->a[0]->hi, k, ph) && std::min(pl, ph) >= smin(w) && std::max(pl, ph) <= smax(w)) { if (v % k) return mkC(1, 0); return mkBin(KEq, a->a[0], mkCs(w, v / k)); }
        }
      } else {
        Poly p; g_polyBudget = 4000; polyAcc(a, 1, p); polyAcc(b, maskw(w), p);
        if (p.empty()) return mkC(1, 1);
        if (p.size() == 1 && p.begin()->first.empty()) return mkC(1, 0);
        if (a->k == KSExt && b->k == KSExt && a->a[0]->w == b->a[0]->w) return mkBin(KEq, a->a[0], b->a[0]);
        if (a->k == KZExt && b->k == KZExt && a->a[0]->w == b->a[0]->w) return mkBin(KEq, a->a[0], b->a[0]);
      }
      break;
    }
    case KSlt: case KSle: {
      if (a == b) return mkC(1, k == KSle);
      if (w == 1) break;
      // x + c < y + c when nothing wraps
      if (a->k == KAdd && isC(a->a[1]) && isC(b)) {
        i128 c = sgn(a->a[1]->cv(), w), v = sgn(b->cv(), w) - c;
        if (a->a[0]->lo + c >= smin(w) && a->a[0]->hi + c <= smax(w) && v >= smin(w) && v <= smax(w)) return mkBin(k, a->a[0], mkCs(w, v));
      }
      if (b->k == KAdd && isC(b->a[1]) && isC(a)) {
        i128 c = sgn(b->a[1]->cv(), w), v = sgn(a->cv(), w) - c;
        if (b->a[0]->lo + c >= smin(w) && b->a[0]->hi + c <= smax(w) && v >= smin(w) && v <= smax(w)) return mkBin(k, mkCs(w, v), b->a[0]);
      }
      if (a->k == KSExt && b->k == KSExt && a->a[0]->w == b->a[0]->w && a->a[0]->w > 1) return mkBin(k, a->a[0], b->a[0]);
      if (a->k == KSExt && isC(b) && a->a[0]->w > 1) { i128 v = sgn(b->cv(), w); unsigned q = a->a[0]->w; if (v >= smin(q) && v <= smax(q)) return mkBin(k, a->a[0], mkCs(q, v)); }
      if (b->k == KSExt && isC(a) && b->a[0]->w > 1) { i128 v = sgn(a->cv(), w); unsigned q = b->a[0]->w; if (v >= smin(q) && v <= smax(q)) return mkBin(k, mkCs(q, v), b->a[0]); }
      { // constant difference without wrap
        i128 dl, dh; Poly p; g_polyBudget = 200; polyAcc(a, 1, p); polyAcc(b, maskw(w), p);
        if (!subOv(a->lo, b->hi, dl) && !subOv(a->hi, b->lo, dh) && dl >= smin(w) && dh <= smax(w)) {
          if (p.empty()) return mkC(1, k == KSle);
          if (p.size() == 1 && p.begin()->first.empty()) { i128 d = sgn(p.begin()->second, w); return mkC(1, k == KSlt ? d < 0 : d <= 0); }
        }
      }
      break;
    }
    case KUlt: case KUle:
      if (a == b) return mkC(1, k == KUle);
      if (k == KUlt && isZero(b)) return mkC(1, 0);
      if (k == KUle && isZero(a)) return mkC(1, 1);
      if (w > 1 && a->lo >= 0 && b->lo >= 0) return mkBin(k == KUlt ? KSlt : KSle, a, b);
      break;
    default: break;
  }
  return nary(k, false, cmp ? 1 : w, {a, b});
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->fp) return mkFIte(c, a, b);
  if (c->k == KXor && isC(c->a[1]) && c->w == 1) return mkIte(c->a[0], b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkBin(KOr, c, b) : mkBin(KAnd, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(KOr, mkNot(c), a) : mkBin(KAnd, c, a);
  }
  if (a->k == KIte && a->a[0] == c) a = a->a[1];
  if (b->k == KIte && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  return nary(KIte, false, a->w, {c, a, b});
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkC(w, a->cv() >> lo);
  switch (a->k) {
    case KExtract: return mkExtract(a->a[0], a->op + lo, w);
    case KConcat: { unsigned lw = a->a[1]->w; if (lo >= lw) return mkExtract(a->a[0], lo - lw, w); if (lo + w <= lw) return mkExtract(a->a[1], lo, w); break; }
    case KZExt: { unsigned iw = a->a[0]->w; if (lo >= iw) return mkC(w, 0); if (lo + w <= iw) return mkExtract(a->a[0], lo, w); if (lo == 0) return mkZExt(a->a[0], w); break; }
    case KSExt: { unsigned iw = a->a[0]->w; if (lo + w <= iw) return mkExtract(a->a[0], lo, w); if (lo == 0) return mkSExt(a->a[0], w); break; }
    case KAdd: case KSub: case KMul: if (lo == 0) return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
    case KAnd: case KOr: case KXor: return mkBin(a->k, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
    case KIte: if (isC(a->a[1]) || isC(a->a[2])) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w)); break;
    case KLShr: if (isC(a->a[1]) && lo + w + a->a[1]->c <= a->w) return mkExtract(a->a[0], lo + a->a[1]->c, w); break;
    default: break;
  }
  return nary(KExtract, false, w, {a}, lo);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkC(w, (hi->cv() << lo->w) | lo->cv());
  if (isZero(hi)) return mkZExt(lo, w);
  if (hi->k == KExtract && lo->k == KExtract && hi->a[0] == lo->a[0] && hi->op == (int)(lo->op + lo->w)) return mkExtract(hi->a[0], lo->op, w);
  return nary(KConcat, false, w, {hi, lo});
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkC(w, a->cv());
  if (a->k == KZExt) return mkZExt(a->a[0], w);
  if (a->w > 1 && a->lo >= 0) return mkSExt(a, w);
  if (a->k == KIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
  if (a->k == KExtract && a->op == 0 && a->a[0]->lo >= 0 && a->a[0]->hi <= (i128)maskw(a->w) && a->a[0]->w > 1) { if (a->a[0]->w == w) return a->a[0]; if (a->a[0]->w < w) return mkZExt(a->a[0], w); }
  return nary(KZExt, false, w, {a});
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkCs(w, sgn(a->cv(), a->w));
  if (a->k == KSExt && a->a[0]->w > 1) return mkSExt(a->a[0], w);
  if (a->k == KZExt) return mkZExt(a->a[0], w);
  if (a->w == 1) return mkIte(a, mkC(w, ~(u128)0), mkC(w, 0));
  if (a->k == KExtract && a->op == 0 && fitsS(a->a[0], a->w) && a->a[0]->w > 1) {
    if (a->a[0]->w == w) return a->a[0];
    if (a->a[0]->w > w) return mkExtract(a->a[0], 0, w);
    return mkSExt(a->a[0], w);
  }
  if (a->k == KAdd || a->k == KSub || a->k == KMul) {
    E x = a->a[0], y = a->a[1]; i128 l = 0, h = 0; bool ok = false;
    if (a->k == KAdd) ok = !addOv(x->lo, y->lo, l) && !addOv(x->hi, y->hi, h);
    else if (a->k == KSub) ok = !subOv(x->lo, y->hi, l) && !subOv(x->hi, y->lo, h);
    else { i128 p[4]; ok = !mulOv(x->lo, y->lo, p[0]) && !mulOv(x->lo, y->hi, p[1]) && !mulOv(x->hi, y->lo, p[2]) && !mulOv(x->hi, y->hi, p[3]); if (ok) { l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); } }
    if (ok && l >= smin(a->w) && h <= smax(a->w)) return mkBin(a->k, mkSExt(x, w), mkSExt(y, w));
  }
  if (a->k == KIte) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return nary(KSExt, false, w, {a});
}
E mkAbs(E a) { return mkIte(mkBin(KSlt, a, mkC(a->w, 0)), mkBin(KSub, mkC(a->w, 0), a), a); }
E mkMinMax(bool isMax, bool sign, E a, E b) {
  E c = mkBin(sign ? KSlt : KUlt, a, b);
  return isMax ? mkIte(c, b, a) : mkIte(c, a, b);
}
E mkFunnel(bool left, E a, E b, E s) {
  unsigned w = a->w;
  E sh = mkBin(KURem, s, mkC(w, w));
  E z = mkBin(KEq, sh, mkC(w, 0)), inv = mkBin(KSub, mkC(w, w), sh);
  if (left) return mkIte(z, a, mkBin(KOr, mkBin(KShl, a, sh), mkBin(KLShr, b, inv)));
  return mkIte(z, b, mkBin(KOr, mkBin(KShl, a, inv), mkBin(KLShr, b, sh)));
}
E mkCtpop(E a) { E r = mkC(a->w, 0); for (unsigned i = 0; i < a->w; i++) r = mkBin(KAdd, r, mkZExt(mkExtract(a, i, 1), a->w)); return r; }
E mkCtz(E a) { E r = mkC(a->w, a->w); for (int i = a->w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkC(a->w, i), r); return r; }
E mkClz(E a) { E r = mkC(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkC(a->w, a->w - 1 - i), r); return r; }
E mkBswap(E a) { E r = mkExtract(a, 0, 8); for (unsigned i = 8; i < a->w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); return r; }
E mkOverflow(int kind, bool sign, E a, E b) {  // kind 0 add 1 sub 2 mul
  unsigned w = a->w, W = std::min(2 * w, 128u);
  if (w > 64) die("wide overflow intrinsic");
  E x = sign ? mkSExt(a, W) : mkZExt(a, W), y = sign ? mkSExt(b, W) : mkZExt(b, W);
  E r = mkBin(kind == 0 ? KAdd : kind == 1 ? KSub : KMul, x, y);
  E t = mkExtract(r, 0, w);
  return mkNot(mkEq(sign ? mkSExt(t, W) : mkZExt(t, W), r));
}
E mkUfBv(unsigned w, uint32_t op, E a, E b) { return b ? nary(KUfBv, false, w, {a, b}, op) : nary(KUfBv, false, w, {a}, op); }
E andList(const std::vector<E>& v) { E r = mkC(1, 1); for (E e : v) r = mkBin(KAnd, r, e); return r; }

// ------------------------------------------------------------------ FP
static std::vector<std::string>& fnNames() { static std::vector<std::string> v; return v; }
uint32_t namedFn(const std::string& n) {
  auto& v = fnNames();
  for (size_t i = 0; i < v.size(); i++) if (v[i] == n) return FO_NAMED + i;
  v.push_back(n);
  return FO_NAMED + v.size() - 1;
}
const std::string& namedFnName(uint32_t op) { return fnNames()[op - FO_NAMED]; }

uint64_t fbits(unsigned w, long double f) {
  if (w == 32) { float x = (float)f; uint32_t b; memcpy(&b, &x, 4); return b; }
  double x = (double)f; uint64_t b; memcpy(&b, &x, 8); return b;
}
long double ffrom(unsigned w, uint64_t bits) {
  if (w == 32) { uint32_t b = (uint32_t)bits; float x; memcpy(&x, &b, 4); return x; }
  double x; memcpy(&x, &bits, 8); return x;
}
static long double rnd(unsigned w, long double f) { return w == 32 ? (long double)(float)f : w == 64 ? (long double)(double)f : f; }
E mkF(unsigned w, long double v) {
  Expr t = blank(KFConst, true, w); t.f = rnd(w, v);
  if (t.f != t.f) t.f = __builtin_nanl("");
  return intern(t);
}
static long double arith(unsigned w, uint32_t op, long double a, long double b) {
  if (w == 32) { float x = a, y = b; switch (op) { case FO_ADD: return x + y; case FO_SUB: return x - y; case FO_MUL: return x * y; case FO_DIV: return x / y; case FO_REM: return fmodf(x, y); } }
  if (w == 64) { double x = a, y = b; switch (op) { case FO_ADD: return x + y; case FO_SUB: return x - y; case FO_MUL: return x * y; case FO_DIV: return x / y; case FO_REM: return fmod(x, y); } }
  switch (op) { case FO_ADD: return a + b; case FO_SUB: return a - b; case FO_MUL: return a * b; case FO_DIV: return a / b; case FO_REM: return fmodl(a, b); }
  die("arith");
  return 0;
}
static long double namedEval(const std::string& n, unsigned w, long double a, long double b) {
#define F1(x) if (n == #x) return w == 32 ? (long double)std::x((float)a) : w == 64 ? (long double)std::x((double)a) : std::x(a);
#define F2(x) if (n == #x) return w == 32 ? (long double)std::x((float)a, (float)b) : w == 64 ? (long double)std::x((double)a, (double)b) : std::x(a, b);
  F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh)
  F1(exp) F1(exp2) F1(log) F1(log2) F1(log10) F1(cbrt) F1(erf) F1(erfc) F1(lgamma) F1(tgamma) F1(expm1) F1(log1p) F1(logb) F1(ilogb)
  F2(pow) F2(atan2) F2(hypot) F2(fdim) F2(nextafter)
  if (n == "nearbyint") return nearbyintl(a);
#undef F1
#undef F2
  // unknown: any deterministic value
  return a * 0.5L + b + 1;
}
static long double evalFOp(unsigned w, uint32_t op, unsigned aw, long double a, long double b) {
  switch (op) {
    case FO_ADD: case FO_SUB: case FO_MUL: case FO_DIV: case FO_REM: return arith(w, op, a, b);
    case FO_NEG: return -a;
    case FO_ABS: return fabsl(a);
    case FO_FLOOR: return floorl(a);
    case FO_CEIL: return ceill(a);
    case FO_TRUNC: return truncl(a);
    case FO_ROUND: return roundl(a);
    case FO_RINT: return rintl(a);
    case FO_MIN: return fminl(a, b);
    case FO_MAX: return fmaxl(a, b);
    case FO_COPYSIGN: return copysignl(a, b);
    case FO_SQRT: return w == 32 ? (long double)sqrtf((float)a) : w == 64 ? (long double)sqrt((double)a) : sqrtl(a);
    case FO_EXT: case FO_TRUNCFP: return rnd(w, a);
    default: (void)aw; return rnd(w, namedEval(namedFnName(op), w, a, b));
  }
}

static i128 mantLimit(unsigned w) { return w == 32 ? ((i128)1 << 24) : ((i128)1 << 53); }
static std::unordered_map<E, E> g_canon;
static E canonMant(E m, int& e) {
  if (m->k != KAdd && m->k != KSub && m->k != KMul && m->k != KShl) return m;
  Poly p = polyOf(m);
  u128 any = 0;
  for (auto& t : p) any |= t.second;
  unsigned tz = 0;
  if (any) while (!((any >> tz) & 1)) tz++;
  if (tz > 62) tz = 62;
  i128 lo = m->lo >> tz, hi = m->hi >> tz;
  E r = polyRebuild(p, m->w, tz);
  if (r->k != KConst) { if (lo > r->lo) r->lo = lo; if (hi < r->hi) r->hi = hi; }
  e += tz;
  return r;
}
static E mkFDy(unsigned w, E m, int e) {
  if (isC(m)) { long double v = ldexpl((long double)(int64_t)sgn(m->cv(), 64), e); return mkF(w, v); }
  i128 lim = mantLimit(w);
  if (m->lo < -lim || m->hi > lim) return nullptr;
  if (e > 60 || e < -200) return nullptr;
  m = canonMant(m, e);
  if (isC(m)) { long double v = ldexpl((long double)(int64_t)sgn(m->cv(), 64), e); return mkF(w, v); }
  return nary(KFDy, true, w, {m}, e);
}
static bool asDy(E f, E& m, int& e) {
  if (f->k == KFDy) { m = f->a[0]; e = f->op; return true; }
  if (f->k == KFConst && std::isfinite(f->f)) {
    if (f->f == 0) { m = mkC(64, 0); e = 0; return true; }
    int ex; long double fr = frexpl(f->f, &ex);
    fr = ldexpl(fr, 53); ex -= 53;
    if (fr != floorl(fr)) return false;
    int64_t v = (int64_t)fr;
    while (!(v & 1)) { v /= 2; ex++; }
    if (ex > 60 || ex < -200) return false;
    m = mkC(64, (u128)(i128)v); e = ex;
    return true;
  }
  return false;
}
static bool alignDy(E& ma, int& ea, E& mb, int& eb) {
  if (isZero(ma)) { ea = eb; return true; }
  if (isZero(mb)) { eb = ea; return true; }
  if (ea == eb) return true;
  E& big = ea > eb ? ma : mb; int d = ea > eb ? ea - eb : eb - ea;
  if (d > 61) return false;
  i128 l = big->lo * ((i128)1 << d), h = big->hi * ((i128)1 << d);
  if (l < -((i128)1 << 62) || h > ((i128)1 << 62)) return false;
  big = mkBin(KMul, big, mkC(64, (u128)1 << d));
  if (ea > eb) ea = eb; else eb = ea;
  return true;
}
static E rawFOp(unsigned w, uint32_t op, E a, E b = nullptr) {
  if ((op == FO_ADD || op == FO_MUL) && b && a->id > b->id) std::swap(a, b);
  return b ? nary(KFOp, true, w, {a, b}, op) : nary(KFOp, true, w, {a}, op);
}
static E dyShiftFloor(E m, int s) { return mkBin(KAShr, m, mkC(64, s)); }
// exponent of a constant power of two which asDy does not represent
static int bigPower(E f) {
  if (f->k != KFConst || !std::isfinite(f->f) || f->f <= 0) return 0;
  int ex; long double fr = frexpl(f->f, &ex);
  return fr == 0.5L && (ex - 1 > 60 || ex - 1 < -200) ? ex - 1 : 0;
}
E mkFOp(unsigned w, uint32_t op, E a, E b, E c) {
  (void)c;
  if (!a->fp || (b && !b->fp)) die("mkFOp sort");
  if (a->k == KFConst && (!b || b->k == KFConst)) return mkF(w, evalFOp(w, op, a->w, a->f, b ? b->f : 0));
  // push into ite with constant-ish leaves to stay exact
  E ma, mb; int ea, eb;
  bool da = asDy(a, ma, ea), db = b && asDy(b, mb, eb);
  switch (op) {
    case FO_ADD: case FO_SUB:
      if (b->k == KFConst && b->f == 0) return a;
      if (a->k == KFConst && a->f == 0) return op == FO_ADD ? b : mkFOp(w, FO_NEG, b);
      if (da && db && alignDy(ma, ea, mb, eb)) { E r = mkFDy(w, mkBin(op == FO_ADD ? KAdd : KSub, ma, mb), ea); if (r) return r; }
      break;
    case FO_MUL:
      if (b->k == KFConst && b->f == 1) return a;
      if (int p = bigPower(b); p && da) { E r = mkFDy(w, ma, ea + p); if (r) return r; }
      if (int p = bigPower(a); p && db) { E r = mkFDy(w, mb, eb + p); if (r) return r; }
      if (a->k == KFConst && a->f == 1) return b;
      if (da && db) {
        if (isZero(ma) || isZero(mb)) return mkF(w, 0);
        i128 x = std::max(ma->hi, -ma->lo), y = std::max(mb->hi, -mb->lo), z;
        if (!mulOv(x, y, z) && z <= mantLimit(w)) { E r = mkFDy(w, mkBin(KMul, ma, mb), ea + eb); if (r) return r; }
      }
      break;
    case FO_DIV:
      if (b->k == KFConst && b->f == 1) return a;
      if (int p = bigPower(b); p && da) { E r = mkFDy(w, ma, ea - p); if (r) return r; }
      if (da && db && isC(mb) && !isZero(mb)) {
        i128 v = sgn(mb->cv(), 64), av = v < 0 ? -v : v;
        if (av == 1) { E r = mkFDy(w, v < 0 ? mkBin(KSub, mkC(64, 0), ma) : ma, ea - eb); if (r) return r; }
        else {  // exact quotient when every coefficient is a multiple
          Poly p = polyOf(ma); bool all = true;
          for (auto& t : p) if (sgn(t.second, 64) % v != 0) all = false;
          if (all && !p.empty()) { Poly q; for (auto& t : p) q[t.first] = (u128)(sgn(t.second, 64) / v); E r = mkFDy(w, polyRebuild(q, 64, 0), ea - eb); if (r) return r; }
        }
      }
      break;
    case FO_REM:
      if (da && db && alignDy(ma, ea, mb, eb) && (mb->lo > 0 || mb->hi < 0)) { E r = mkFDy(w, mkBin(KSRem, ma, mkAbs(mb)), ea); if (r) return r; }
      break;
    case FO_NEG:
      if (da) { E r = mkFDy(w, mkBin(KSub, mkC(64, 0), ma), ea); if (r) return r; }
      if (a->k == KFOp && a->op == FO_NEG) return a->a[0];
      break;
    case FO_ABS:
      if (da) { if (ma->lo >= 0) return a; E r = mkFDy(w, mkAbs(ma), ea); if (r) return r; }
      break;
    case FO_FLOOR: case FO_CEIL: case FO_TRUNC: case FO_ROUND: case FO_RINT:
      if (da) {
        if (ea >= 0) return a;
        int s = -ea;
        if (s > 60) break;
        E fl = dyShiftFloor(ma, s), r = nullptr;
        E frac = mkBin(KSub, ma, mkBin(KMul, fl, mkC(64, (u128)1 << s)));
        if (op == FO_FLOOR) r = fl;
        else if (op == FO_CEIL) r = mkIte(mkEq(frac, mkC(64, 0)), fl, mkBin(KAdd, fl, mkC(64, 1)));
        else if (op == FO_TRUNC) r = mkIte(mkBin(KAnd, mkBin(KSlt, ma, mkC(64, 0)), mkNot(mkEq(frac, mkC(64, 0)))), mkBin(KAdd, fl, mkC(64, 1)), fl);
        else if (op == FO_ROUND) {
          E h = mkC(64, (u128)1 << (s - 1)), neg = mkBin(KSlt, ma, mkC(64, 0));
          E up = dyShiftFloor(mkBin(KAdd, ma, h), s), dn = mkBin(KSub, mkC(64, 0), dyShiftFloor(mkBin(KAdd, mkBin(KSub, mkC(64, 0), ma), h), s));
          r = mkIte(neg, dn, up);
        } else {
          E h = mkC(64, (u128)1 << (s - 1)), up = mkBin(KAdd, fl, mkC(64, 1));
          E even = mkEq(mkBin(KAnd, fl, mkC(64, 1)), mkC(64, 0));
          r = mkIte(mkBin(KSlt, frac, h), fl, mkIte(mkBin(KSlt, h, frac), up, mkIte(even, fl, up)));
        }
        E d = mkFDy(w, r, 0);
        if (d) return d;
      }
      break;
    case FO_MIN: case FO_MAX:
      if (da && db) { E lt = mkFCmp(4, a, b); return op == FO_MIN ? mkFIte(lt, a, b) : mkFIte(lt, b, a); }
      break;
    case FO_EXT: if (da) { E r = mkFDy(w, ma, ea); if (r) return r; } break;
    case FO_TRUNCFP:
      if (da) { E r = mkFDy(w, ma, ea); if (r) return r; }
      if (a->k == KFOp && a->op == FO_EXT && a->a[0]->w == w) return a->a[0];
      break;
    case FO_COPYSIGN:
      if (b->k == KFConst) { E m = mkFOp(w, FO_ABS, a); return std::signbit(b->f) ? mkFOp(w, FO_NEG, m) : m; }
      break;
    default: break;
  }
  if (a->k == KFIte && (!b || b->k == KFConst)) return mkFIte(a->a[0], mkFOp(w, op, a->a[1], b), mkFOp(w, op, a->a[2], b));
  if (b && b->k == KFIte && a->k == KFConst) return mkFIte(b->a[0], mkFOp(w, op, a, b->a[1]), mkFOp(w, op, a, b->a[2]));
  return rawFOp(w, op, a, b);
}
static E cmpDy(uint32_t op, E ma, E mb) { return op == FO_OEQ ? mkEq(ma, mb) : mkBin(op == FO_OLT ? KSlt : KSle, ma, mb); }
// known not to be NaN
static bool finiteKnown(E a) {
  if (a->k == KFDy) return true;
  if (a->k == KFConst) return a->f == a->f;
  if (a->k == KFIte) return finiteKnown(a->a[1]) && finiteKnown(a->a[2]);
  if (a->k != KFOp) return false;
  if (a->op == FO_SITOFP || a->op == FO_UITOFP) return true;
  // one operation over bounded values does not yield NaN
  auto bounded = [](E x) { return x->k == KFDy || (x->k == KFConst && std::isfinite(x->f)) || (x->k == KFOp && (x->op == FO_SITOFP || x->op == FO_UITOFP)); };
  if (a->op == FO_DIV) return bounded(a->a[0]) && a->a[1]->k == KFConst && a->a[1]->f != 0 && a->a[1]->f == a->a[1]->f;
  if (a->op == FO_ADD || a->op == FO_SUB || a->op == FO_MUL) return bounded(a->a[0]) && bounded(a->a[1]);
  if (a->op == FO_EXT || a->op == FO_TRUNCFP || a->op == FO_NEG || a->op == FO_ABS) return finiteKnown(a->a[0]);
  if (a->op == FO_SQRT) return a->a[0]->k == KFDy && a->a[0]->a[0]->lo >= 0;
  return false;
}
static E fpred(uint32_t op, E a, E b) {
  if (a->k == KFConst && b->k == KFConst) {
    switch (op) { case FO_OEQ: return mkC(1, a->f == b->f); case FO_OLT: return mkC(1, a->f < b->f); case FO_OLE: return mkC(1, a->f <= b->f); case FO_UNO: return mkC(1, a->f != a->f || b->f != b->f); }
  }
  if (op == FO_UNO) {
    if (finiteKnown(a) && finiteKnown(b)) return mkC(1, 0);
    if ((a->k == KFConst && a->f != a->f) || (b->k == KFConst && b->f != b->f)) return mkC(1, 1);
    if (finiteKnown(b)) return nary(KUfBv, false, 1, {a, a}, FO_UNO);
    if (finiteKnown(a)) return nary(KUfBv, false, 1, {b, b}, FO_UNO);
    if (a->id > b->id) std::swap(a, b);
    return nary(KUfBv, false, 1, {a, b}, FO_UNO);
  }
  if ((a->k == KFConst && a->f != a->f) || (b->k == KFConst && b->f != b->f)) return mkC(1, 0);
  if (a->k == KFDy && b->k == KFConst && std::isinf(b->f)) return mkC(1, op == FO_OEQ ? 0 : b->f > 0);
  if (b->k == KFDy && a->k == KFConst && std::isinf(a->f)) return mkC(1, op == FO_OEQ ? 0 : a->f < 0);
  E ma, mb; int ea, eb;
  if (asDy(a, ma, ea) && asDy(b, mb, eb)) {
    if (alignDy(ma, ea, mb, eb)) return cmpDy(op, ma, mb);
    // compare through floor when one side has extra fraction bits
  }
  if (a == b && finiteKnown(a)) return mkC(1, op != FO_OLT);
  if (a == b && op == FO_OLT) return mkC(1, 0);
  if (a->k == KFIte) return mkIte(a->a[0], fpred(op, a->a[1], b), fpred(op, a->a[2], b));
  if (b->k == KFIte) return mkIte(b->a[0], fpred(op, a, b->a[1]), fpred(op, a, b->a[2]));
  if (op == FO_OEQ && a->id > b->id) std::swap(a, b);
  return nary(KUfBv, false, 1, {a, b}, op);
}
E mkFCmp(unsigned p, E a, E b) {
  auto eq = [&] { return fpred(FO_OEQ, a, b); };
  auto uno = [&] { return fpred(FO_UNO, a, b); };
  switch (p) {
    case 0: return mkC(1, 0);
    case 1: return eq();                                   // oeq
    case 2: return fpred(FO_OLT, b, a);                    // ogt
    case 3: return fpred(FO_OLE, b, a);                    // oge
    case 4: return fpred(FO_OLT, a, b);                    // olt
    case 5: return fpred(FO_OLE, a, b);                    // ole
    case 6: return mkBin(KAnd, mkNot(eq()), mkNot(uno())); // one
    case 7: return mkNot(uno());                           // ord
    case 8: return uno();                                  // uno
    case 9: return mkBin(KOr, eq(), uno());                // ueq
    case 10: return mkNot(fpred(FO_OLE, a, b));            // ugt
    case 11: return mkNot(fpred(FO_OLT, a, b));            // uge
    case 12: return mkNot(fpred(FO_OLE, b, a));            // ult
    case 13: return mkNot(fpred(FO_OLT, b, a));            // ule
    case 14: return mkNot(eq());                           // une
    default: return mkC(1, 1);
  }
}
E mkFSame(E a, E b) {
  if (a == b) return mkC(1, 1);
  if (a->k == KFConst && b->k == KFConst) return mkC(1, a->f == b->f || (a->f != a->f && b->f != b->f));
  E ma, mb; int ea, eb;
  if (asDy(a, ma, ea) && asDy(b, mb, eb) && alignDy(ma, ea, mb, eb)) return mkEq(ma, mb);
  if (finiteKnown(a) && finiteKnown(b) && (a->k == KFConst || b->k == KFConst)) return fpred(FO_OEQ, a, b);
  if (a->k == KFIte) return mkIte(a->a[0], mkFSame(a->a[1], b), mkFSame(a->a[2], b));
  if (b->k == KFIte) return mkIte(b->a[0], mkFSame(a, b->a[1]), mkFSame(a, b->a[2]));
  E eq = fpred(FO_OEQ, a, b);
  return mkBin(KOr, eq, mkBin(KAnd, fpred(FO_UNO, a, a), fpred(FO_UNO, b, b)));
}
E mkFIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  E ma, mb; int ea, eb;
  if (asDy(a, ma, ea) && asDy(b, mb, eb) && alignDy(ma, ea, mb, eb)) { E r = mkFDy(a->w, mkIte(c, ma, mb), ea); if (r) return r; }
  return nary(KFIte, true, a->w, {c, a, b});
}
E mkFpBits(E a) {
  if (a->k == KFConst && a->w <= 64) return mkC(a->w, fbits(a->w, a->f));
  if (a->k == KFFromBits) return a->a[0];
  return nary(KFpBits, false, a->w, {a});
}
E mkFFromBits(E a, unsigned w) {
  if (isC(a) && w <= 64) return mkF(w, ffrom(w, a->c));
  if (a->k == KFpBits) return a->a[0];
  if (a->k == KIte) return mkFIte(a->a[0], mkFFromBits(a->a[1], w), mkFFromBits(a->a[2], w));
  return nary(KFFromBits, true, w, {a});
}
E mkFToInt(E f, unsigned w, bool sign) {
  if (f->k == KFConst) { long double t = truncl(f->f); if (!std::isfinite(t)) return mkC(w, 0); if (fabsl(t) > ldexpl(1, 100)) return mkC(w, 0); return mkCs(w, (i128)t); }
  if (f->k == KFDy) {
    E m = f->a[0]; int e = f->op;
    if (e >= 0) { i128 l = m->lo * ((i128)1 << e); i128 h = m->hi * ((i128)1 << e); (void)l; (void)h; if (e < 10) m = mkBin(KMul, m, mkC(64, (u128)1 << e)); else goto uf; }
    else { E t = mkFOp(f->w, FO_TRUNC, f); if (t->k == KFConst) return mkFToInt(t, w, sign); if (t->k == KFDy && t->op >= 0) return mkFToInt(t, w, sign); goto uf; }
    if (w <= 64) return mkExtract(m, 0, w);
    return mkSExt(m, w);
  }
  if (f->k == KFIte) return mkIte(f->a[0], mkFToInt(f->a[1], w, sign), mkFToInt(f->a[2], w, sign));
uf:
  return nary(KUfBv, false, w, {f}, sign ? FO_TOSI : FO_TOUI);
}
E mkIntToF(E a, unsigned w, bool sign) {
  if (isC(a)) { if (sign) return mkF(w, (long double)(int64_t)(a->w == 1 ? -(i128)a->c : sgn(a->cv(), a->w))); return mkF(w, (long double)a->cv()); }
  if (a->w <= 64) {
    E m = nullptr;
    if (a->w == 1) m = sign ? mkSExt(a, 64) : mkZExt(a, 64);
    else if (sign) m = mkSExt(a, 64);
    else if (a->lo >= 0 || a->w < 64) m = mkZExt(a, 64);
    if (m) { E r = mkFDy(w, m, 0); if (r) return r; }
  }
  Expr t = blank(KFOp, true, w); t.op = sign ? FO_SITOFP : FO_UITOFP; t.a[t.n++] = a;
  E r = intern(t);
  return r;
}
E mkFClass(E a, unsigned mask) {
  // LLVM fpclass mask: 0x1 snan 0x2 qnan 0x4 -inf 0x8 -normal 0x10 -subnormal 0x20 -0 0x40 +0 0x80 +sub 0x100 +norm 0x200 +inf
  E r = mkC(1, 0);
  auto add = [&](E c) { r = mkBin(KOr, r, c); };
  if ((mask & 3) == 3) add(mkFCmp(8, a, a));
  if (mask & 4) add(mkFCmp(1, a, mkF(a->w, -INFINITY)));
  if (mask & 0x200) add(mkFCmp(1, a, mkF(a->w, INFINITY)));
  if ((mask & 0x60) == 0x60) add(mkFCmp(1, a, mkF(a->w, 0)));
  E absA = nullptr;
  if ((mask & 0x108) == 0x108 && (mask & 0x90) == 0x90 && (mask & 0x60) == 0x60) { absA = mkFOp(a->w, FO_ABS, a); add(mkFCmp(4, absA, mkF(a->w, INFINITY))); }
  else if (mask & 0x198 & ~0u) { if (mask & 0x198) die("fpclass"); }
  return r;
}

// ------------------------------------------------------------------ evaluation
uint64_t modelGet(const Model& m, uint32_t s) {
  const SymInfo& i = g_syms[s];
  if (m && s < m->size()) return (*m)[s];
  i128 v = i.lo <= 0 && i.hi >= 0 ? 0 : (i.lo > 0 ? i.lo : i.hi);
  return (uint64_t)((u128)v & maskw(i.w));
}
static const ModelV* g_evalModel = nullptr;
static uint32_t g_evalEpoch = 0;
static void evalNode(E e, const Model& m) {
  if (e->ep == g_evalEpoch) return;
  u128 r = 0; long double f = 0;
  auto B = [&](int i) { evalNode(e->a[i], m); return ((u128)e->a[i]->evh << 64) | e->a[i]->ev; };
  auto F = [&](int i) { evalNode(e->a[i], m); return e->a[i]->evf; };
  switch (e->k) {
    case KConst: r = e->cv(); break;
    case KSym: r = modelGet(m, e->op); break;
    case KIte: r = B(0) ? B(1) : B(2); break;
    case KConcat: r = (B(0) << e->a[1]->w) | B(1); break;
    case KExtract: r = (B(0) >> e->op) & maskw(e->w); break;
    case KZExt: r = B(0); break;
    case KSExt: r = (u128)sgn(B(0), e->a[0]->w) & maskw(e->w); break;
    case KFpBits: r = fbits(e->w, F(0)); break;
    case KUfBv: {
      if (e->op == FO_OEQ || e->op == FO_OLT || e->op == FO_OLE || e->op == FO_UNO) {
        long double a = F(0), b = F(1);
        r = e->op == FO_OEQ ? a == b : e->op == FO_OLT ? a < b : e->op == FO_OLE ? a <= b : (a != a || b != b);
      } else if (e->op == FO_TOSI || e->op == FO_TOUI) {
        long double t = truncl(F(0));
        if (!(fabsl(t) < ldexpl(1, 100))) r = e->w == 64 ? (u128)1 << 63 : e->w == 32 ? (u128)1 << 31 : 0; else r = (u128)(i128)t & maskw(e->w);
      } else r = 0;
      break;
    }
    case KFConst: f = e->f; break;
    case KFDy: f = ldexpl((long double)(int64_t)B(0), e->op); break;
    case KFIte: f = B(0) ? F(1) : F(2); break;
    case KFFromBits: f = ffrom(e->w, (uint64_t)B(0)); break;
    case KFOp: {
      if (e->op == FO_SITOFP) f = rnd(e->w, (long double)(int64_t)sgn(B(0), e->a[0]->w));
      else if (e->op == FO_UITOFP) f = rnd(e->w, (long double)(uint64_t)B(0));
      else f = evalFOp(e->w, e->op, e->a[0]->w, F(0), e->n > 1 ? F(1) : 0);
      break;
    }
    default: r = opBV(e->k, e->a[0]->w, B(0), B(1)); break;
  }
  e->ep = g_evalEpoch; e->ev = (uint64_t)r; e->evh = (uint64_t)(r >> 64); e->evf = f;
}
static Model g_evalHold;
static void evalStart(const Model& m) {
  if (g_evalEpoch == 0 || g_evalModel != m.get() || !m) { g_evalEpoch = newEpoch(); g_evalModel = m.get(); g_evalHold = m; }
}
void evalReset() { g_evalModel = nullptr; g_evalEpoch = 0; }
u128 evalBV(E e, const Model& m) { if (isC(e)) return e->cv(); evalStart(m); evalNode(e, m); return ((u128)e->evh << 64) | e->ev; }
long double evalF(E e, const Model& m) { evalStart(m); evalNode(e, m); return e->evf; }

// ------------------------------------------------------------------ substitution / refined intervals
static E rebuildNode(E e, E a, E b, E c) {
  switch (e->k) {
    case KIte: return mkIte(a, b, c);
    case KConcat: return mkConcat(a, b);
    case KExtract: return mkExtract(a, e->op, e->w);
    case KZExt: return mkZExt(a, e->w);
    case KSExt: return mkSExt(a, e->w);
    case KFpBits: return mkFpBits(a);
    case KFFromBits: return mkFFromBits(a, e->w);
    case KFIte: return mkFIte(a, b, c);
    case KFDy: { E r = mkFDy(e->w, a, e->op); if (!r) die("dy rebuild"); return r; }
    case KUfBv:
      if (e->op == FO_TOSI || e->op == FO_TOUI) return mkFToInt(a, e->w, e->op == FO_TOSI);
      if (e->op == FO_OEQ || e->op == FO_OLT || e->op == FO_OLE || e->op == FO_UNO) return fpred(e->op, a, b);
      return mkUfBv(e->w, e->op, a, b);
    case KFOp:
      if (e->op == FO_SITOFP || e->op == FO_UITOFP) return mkIntToF(a, e->w, e->op == FO_SITOFP);
      return mkFOp(e->w, e->op, a, b);
    default: return mkBin(e->k, a, b);
  }
}
static E substRec(E e, Bounds& b, uint32_t ep) {
  if (e->k == KConst || e->k == KFConst) return e;
  if (e->sep == ep) return e->sv;
  E r = e;
  if (e->k == KSym) {
    auto it = b.b.find(e->op);
    if (it != b.b.end() && it->second.first == it->second.second) r = mkCs(e->w, it->second.first);
  } else {
    bool hit = false;
    for (uint32_t s : e->syms->s) { auto it = b.b.find(s); if (it != b.b.end() && it->second.first == it->second.second) { hit = true; break; } }
    if (hit) {
      E c[3] = {nullptr, nullptr, nullptr};
      for (int i = 0; i < e->n; i++) c[i] = substRec(e->a[i], b, ep);
      r = rebuildNode(e, c[0], c[1], c[2]);
    }
  }
  e->sep = ep; e->sv = r;
  return r;
}
E substE(E e, Bounds& b) {
  if (b.b.empty() || e->k == KConst || e->k == KFConst) return e;
  if (!b.epoch) b.epoch = newEpoch();
  return substRec(e, b, b.epoch);
}
static IV ivalRec(E e, Bounds& b, uint32_t ep) {
  if (e->k == KConst) return IV(cval(e), cval(e));
  if (e->iep == ep) return IV(e->ilo, e->ihi);
  IV r(e->lo, e->hi);
  if (e->k == KSym) { auto it = b.b.find(e->op); if (it != b.b.end()) r = it->second; }
  else if (!e->fp) {
    bool hit = false;
    for (uint32_t s : e->syms->s) if (b.b.count(s)) { hit = true; break; }
    if (hit) { IV n = computeI(e, [&](E x) { return x->fp ? IV(0, 0) : ivalRec(x, b, ep); }); r = IV(std::max(r.first, n.first), std::min(r.second, n.second)); if (r.first > r.second) r = n; }
  }
  e->iep = ep; e->ilo = r.first; e->ihi = r.second;
  return r;
}
IV ivalE(E e, Bounds& b) {
  if (b.b.empty()) return IV(e->lo, e->hi);
  if (!b.epoch) b.epoch = newEpoch();
  return ivalRec(e, b, b.epoch);
}
static void refineVal(E x, i128 lo, i128 hi, Bounds& b, int depth = 0) {
  if (depth > 20 || x->fp || x->w == 1) return;
  switch (x->k) {
    case KSym: {
      auto it = b.b.find(x->op); IV cur = it != b.b.end() ? IV(it->second) : IV(x->lo, x->hi);
      i128 l = std::max(cur.first, lo), h = std::min(cur.second, hi);
      if (l > h) return;  // contradiction: leave to the solver
      if (l != cur.first || h != cur.second) { b.b[x->op] = {l, h}; b.epoch = 0; }
      return;
    }
    case KAdd: if (isC(x->a[1])) { i128 c = cval(x->a[1]); if (x->a[0]->lo + c >= smin(x->w) && x->a[0]->hi + c <= smax(x->w)) refineVal(x->a[0], lo - c, hi - c, b, depth + 1); } return;
    case KMul: if (isC(x->a[1])) { i128 c = cval(x->a[1]), p, q; if (c > 0 && !mulOv(x->a[0]->lo, c, p) && !mulOv(x->a[0]->hi, c, q) && p >= smin(x->w) && q <= smax(x->w)) {
        auto fl = [](i128 n, i128 d) { i128 r = n / d; return (n % d && n < 0) ? r - 1 : r; };
        refineVal(x->a[0], -fl(-lo, c), fl(hi, c), b, depth + 1); } } return;
    case KSExt: refineVal(x->a[0], lo, hi, b, depth + 1); return;
    case KZExt: if (x->a[0]->lo >= 0) refineVal(x->a[0], lo, hi, b, depth + 1); return;
    case KExtract: if (x->op == 0 && fitsS(x->a[0], x->w)) refineVal(x->a[0], lo, hi, b, depth + 1); return;
    default: return;
  }
}
void refine(E c, Bounds& b) {
  if (c->w != 1 || c->fp) return;
  switch (c->k) {
    case KAnd: refine(c->a[0], b); refine(c->a[1], b); return;
    case KSlt: case KSle: {
      if (c->a[0]->w == 1) return;
      IV x = ivalE(c->a[0], b), y = ivalE(c->a[1], b); int d = c->k == KSlt;
      refineVal(c->a[0], x.first, y.second - d, b); refineVal(c->a[1], x.first + d, y.second, b); return;
    }
    case KUlt: case KUle: {
      if (c->a[0]->w == 1) return;
      IV x = ivalE(c->a[0], b), y = ivalE(c->a[1], b); int d = c->k == KUlt;
      if (y.first >= 0) { refineVal(c->a[0], 0, y.second - d, b); if (x.first >= 0) refineVal(c->a[1], x.first + d, y.second, b); }
      else if (x.first >= 0 && y.second >= 0) {}
      return;
    }
    case KEq: {
      if (c->a[0]->fp || c->a[0]->w == 1) return;
      IV x = ivalE(c->a[0], b), y = ivalE(c->a[1], b); i128 l = std::max(x.first, y.first), h = std::min(x.second, y.second);
      refineVal(c->a[0], l, h, b); refineVal(c->a[1], l, h, b); return;
    }
    case KXor:
      if (isC(c->a[1]) && c->a[0]->k == KEq && !c->a[0]->a[0]->fp && isC(c->a[0]->a[1])) {
        E x = c->a[0]->a[0]; if (x->w == 1) return; i128 v = cval(c->a[0]->a[1]); IV iv = ivalE(x, b);
        if (iv.first == v) refineVal(x, v + 1, iv.second, b); else if (iv.second == v) refineVal(x, iv.first, v - 1, b);
      }
      return;
    default: return;
  }
}

// ------------------------------------------------------------------ Z3
static z3::context& ctx() { static z3::context c; return c; }
static std::unordered_map<E, z3::expr>& zmemo() { static std::unordered_map<E, z3::expr> m; return m; }
static z3::expr zb(E e);
static z3::expr zv(E e);
static z3::expr zconst(unsigned w, u128 v) {
  if (w <= 64) return ctx().bv_val((uint64_t)v, w);
  z3::expr hi = ctx().bv_val((uint64_t)(v >> 64), w - 64), lo = ctx().bv_val((uint64_t)v, 64);
  return z3::concat(hi, lo);
}
static unsigned bitsFor(i128 lo, i128 hi) { unsigned k = 1; while (lo < smin(k == 1 ? 2 : k) || hi > smax(k == 1 ? 2 : k)) k++; return std::max(k, 2u); }
static z3::expr zfun(const std::string& name, unsigned rw, bool rbool, const std::vector<z3::expr>& as) {
  z3::sort_vector sv(ctx()); z3::expr_vector av(ctx()); std::string nm = name;
  for (auto& a : as) { sv.push_back(a.get_sort()); av.push_back(a); nm += "_" + std::to_string(a.get_sort().bv_size()); }
  z3::func_decl d = z3::function(nm.c_str(), sv, rbool ? ctx().bool_sort() : ctx().bv_sort(rw));
  return d(av);
}
static z3::expr zbuild(E e) {
  auto& c = ctx(); unsigned w = e->w;
  switch (e->k) {
    case KConst: return w == 1 ? c.bool_val(e->c != 0) : zconst(w, e->cv());
    case KSym: { std::string n = "s" + std::to_string(e->op) + "_" + g_syms[e->op].name; return w == 1 ? c.bool_const(n.c_str()) : c.bv_const(n.c_str(), w); }
    case KFConst: return zconst(w > 64 ? 64 : w, fbits(w > 64 ? 64 : w, e->f));
    case KFDy: return zfun("dy" + std::to_string(e->op), w, false, {zv(e->a[0])});
    case KFOp: { std::vector<z3::expr> as; for (int i = 0; i < e->n; i++) as.push_back(zv(e->a[i])); return zfun("fop" + std::to_string(e->op), w, false, as); }
    case KFFromBits: case KFpBits: return zv(e->a[0]);
    case KFIte: return z3::ite(zb(e->a[0]), zv(e->a[1]), zv(e->a[2]));
    case KUfBv:
      if (e->n == 2 && (e->op == FO_OEQ || e->op == FO_OLT || e->op == FO_OLE)) {
        // equal operands (same token, hence same value) compare as IEEE says, unless NaN
        z3::expr a = zv(e->a[0]), b = zv(e->a[1]), u = zfun("uf" + std::to_string(e->op), w, true, {a, b});
        if (a.get_sort().bv_size() == b.get_sort().bv_size()) {
          z3::expr self = e->op == FO_OLT ? c.bool_val(false) : !zb(fpred(FO_UNO, e->a[0], e->a[0]));
          return z3::ite(a == b, self, u);
        }
        return u;
      }
      { std::vector<z3::expr> as; for (int i = 0; i < e->n; i++) as.push_back(zv(e->a[i])); return zfun("uf" + std::to_string(e->op), w, w == 1, as); }
    case KIte: return z3::ite(zb(e->a[0]), w == 1 ? zb(e->a[1]) : zv(e->a[1]), w == 1 ? zb(e->a[2]) : zv(e->a[2]));
    case KEq: if (e->a[0]->w == 1) return zb(e->a[0]) == zb(e->a[1]); break;
    case KConcat: return z3::concat(zv(e->a[0]), zv(e->a[1]));
    case KExtract: { z3::expr r = zv(e->a[0]).extract(e->op + w - 1, e->op); return w == 1 ? r == c.bv_val(1, 1) : r; }
    case KZExt: return z3::zext(zv(e->a[0]), w - e->a[0]->w);
    case KSExt: return z3::sext(zv(e->a[0]), w - e->a[0]->w);
    default: break;
  }
  if (w == 1 && e->a[0]->w == 1) {
    z3::expr a = zb(e->a[0]), b = zb(e->a[1]);
    switch (e->k) {
      case KAnd: return a && b;
      case KOr: return a || b;
      case KXor: return isTrue(e->a[1]) ? !a : (a != b);
      case KAdd: case KSub: return a != b;
      case KMul: return a && b;
      case KUlt: return !a && b;
      case KUle: return !a || b;
      case KSlt: return a && !b;
      case KSle: return a || !b;
      default: { z3::expr x = zv(e->a[0]), y = zv(e->a[1]); (void)x; (void)y; die("bool op"); }
    }
  }
  z3::expr a = zv(e->a[0]), b = zv(e->a[1]);
  unsigned aw = e->a[0]->w;
  switch (e->k) {
    case KMul: case KSDiv: case KSRem: case KUDiv: case KURem: {
      unsigned k = bitsFor(std::min(std::min(e->a[0]->lo, e->a[1]->lo), e->lo), std::max(std::max(e->a[0]->hi, e->a[1]->hi), e->hi)) + 1;
      bool narrow = k + 2 < aw && aw <= 64;
      // narrowing is valid only when the (unwrapped) result interval is known
      if (e->k == KMul) { IV x(e->a[0]->lo, e->a[0]->hi), y(e->a[1]->lo, e->a[1]->hi); i128 p[4]; if (mulOv(x.first, y.first, p[0]) || mulOv(x.first, y.second, p[1]) || mulOv(x.second, y.first, p[2]) || mulOv(x.second, y.second, p[3])) narrow = false; else { i128 l = *std::min_element(p, p + 4), h = *std::max_element(p, p + 4); unsigned kk = bitsFor(l, h) + 1; k = std::max(k, kk); narrow = k + 2 < aw && aw <= 64; } }
      if (e->k == KUDiv || e->k == KURem) narrow = narrow && e->a[0]->lo >= 0 && e->a[1]->lo >= 1;
      if ((e->k == KSDiv || e->k == KSRem) && !(e->a[1]->lo >= 1 || e->a[1]->hi <= -1)) narrow = false;
      if (narrow) {
        z3::expr na = a.extract(k - 1, 0), nb = b.extract(k - 1, 0);
        z3::expr r = e->k == KMul ? na * nb : e->k == KSDiv ? na / nb : e->k == KSRem ? z3::srem(na, nb) : e->k == KUDiv ? z3::udiv(na, nb) : z3::urem(na, nb);
        return z3::sext(r, aw - k);
      }
      return e->k == KMul ? a * b : e->k == KSDiv ? a / b : e->k == KSRem ? z3::srem(a, b) : e->k == KUDiv ? z3::udiv(a, b) : z3::urem(a, b);
    }
    case KAdd: return a + b;
    case KSub: return a - b;
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return z3::shl(a, b);
    case KLShr: return z3::lshr(a, b);
    case KAShr: return z3::ashr(a, b);
    case KEq: return a == b;
    case KUlt: return z3::ult(a, b);
    case KUle: return z3::ule(a, b);
    case KSlt: return a < b;
    case KSle: return a <= b;
    default: die("zbuild");
  }
  return a;
}
static z3::expr zraw(E e) {
  auto it = zmemo().find(e);
  if (it != zmemo().end()) return it->second;
  z3::expr r = zbuild(e);
  zmemo().insert({e, r});
  return r;
}
static z3::expr zb(E e) { if (e->w != 1) die("zb"); return zraw(e); }
static z3::expr zv(E e) { z3::expr r = zraw(e); if (e->w == 1 && !e->fp) return z3::ite(r, ctx().bv_val(1, 1), ctx().bv_val(0, 1)); return r; }

static std::unordered_map<std::string, std::pair<int, Model>> g_cache;
static bool intersects(const SymSet* a, const std::set<uint32_t>& s) { for (uint32_t x : a->s) if (s.count(x)) return true; return false; }

static bool concretize(const std::set<uint32_t>& syms, const std::vector<E>& cs, E extra, std::shared_ptr<ModelV>& nm, const Model& base) {
  static std::mt19937_64 rng(1);
  auto t0 = std::chrono::steady_clock::now();
  std::vector<uint32_t> ids(syms.begin(), syms.end());
  std::vector<uint64_t> best(ids.size());
  for (size_t i = 0; i < ids.size(); i++) best[i] = (*nm)[ids[i]];
  for (int it = 0; it < 20000; it++) {
    if (it % 16 == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 1.5) return false;
    auto cand = std::make_shared<ModelV>(*nm);
    for (size_t i = 0; i < ids.size(); i++) {
      E x = symExpr(ids[i]);
      uint64_t v = best[i];
      u128 span = (u128)(x->hi - x->lo) + 1;
      i128 w = 0; bool set = true;
      switch (rng() % (it < 64 ? 4 : 8)) {
        case 0: set = false; v = base ? modelGet(base, ids[i]) : v; break;
        case 1: w = x->lo + (i128)((u128)rng() % span); break;
        case 2: w = (i128)(rng() % 17) - 8; break;
        case 3: set = false; break;
        case 4: w = x->lo + (i128)((u128)rng() % span); break;
        case 5: w = rng() % 2 ? x->lo : x->hi; break;
        case 6: w = (i128)(rng() % 2049) - 1024; break;
        case 7: w = -sgn(v, x->w); break;
      }
      if (set) { if (w < x->lo) w = x->lo; if (w > x->hi) w = x->hi; v = (uint64_t)((u128)w & maskw(x->w)); }
      (*cand)[ids[i]] = v;
    }
    Model m(cand);
    evalReset();
    bool ok = true;
    for (E e : cs) if (!evalBV(e, m)) { ok = false; break; }
    if (ok && evalBV(extra, m)) { nm = cand; return true; }
  }
  return false;
}

// ------------------------------------------------------------------ precise floating-point encoding
// Used when a query is satisfiable only under a non-standard interpretation of the uninterpreted inexact operations:
// the same query is then decided again with the IEEE semantics of the operations (named functions remain uninterpreted).
static std::unordered_map<E, z3::expr>& xmemo() { static std::unordered_map<E, z3::expr> m; return m; }
struct NoPrecise {};
static z3::expr xe(E e);
static z3::sort fsort(unsigned w) {
  switch (w) { case 16: return ctx().fpa_sort(5, 11); case 32: return ctx().fpa_sort(8, 24); case 64: return ctx().fpa_sort(11, 53); case 80: return ctx().fpa_sort(15, 64); default: throw NoPrecise(); }
}
static z3::expr xz(Z3_ast a) { ctx().check_error(); return z3::expr(ctx(), a); }
static z3::expr rm(Z3_ast (*f)(Z3_context)) { return xz(f(ctx())); }
static z3::expr xfconst(unsigned w, long double f) {
  z3::sort so = fsort(w);
  if (f != f) return xz(Z3_mk_fpa_nan(ctx(), so));
  if (std::isinf(f)) return xz(Z3_mk_fpa_inf(ctx(), so, f < 0));
  if (w <= 64) return xz(Z3_mk_fpa_to_fp_bv(ctx(), zconst(w, fbits(w, f)), so));
  if ((long double)(double)f == f) { z3::expr d = xfconst(64, f); return xz(Z3_mk_fpa_to_fp_float(ctx(), rm(Z3_mk_fpa_rne), d, so)); }
  throw NoPrecise();
}
// does the term contain a floating-point subterm?
static bool hasFp(E e) {
  static std::unordered_map<E, bool> m;
  auto it = m.find(e); if (it != m.end()) return it->second;
  bool r = e->fp || e->k == KUfBv || e->k == KFpBits;
  for (int i = 0; i < e->n && !r; i++) r = hasFp(e->a[i]);
  return m[e] = r;
}
static z3::expr xv(E e) { z3::expr r = xe(e); if (e->w == 1 && !e->fp) return z3::ite(r, ctx().bv_val(1, 1), ctx().bv_val(0, 1)); return r; }
static z3::expr xfun(const std::string& name, const z3::sort& r, const std::vector<z3::expr>& as) {
  z3::sort_vector sv(ctx()); z3::expr_vector av(ctx()); std::string nm = name;
  for (auto& a : as) { sv.push_back(a.get_sort()); av.push_back(a); nm += "_" + std::to_string(a.get_sort().is_bv() ? a.get_sort().bv_size() : 1000 + Z3_fpa_get_sbits(ctx(), a.get_sort())); }
  return z3::function(nm.c_str(), sv, r)(av);
}
static z3::expr xbuild(E e) {
  auto& c = ctx(); unsigned w = e->w;
  auto B = [&](int i) { return xv(e->a[i]); };
  z3::expr rne = rm(Z3_mk_fpa_rne), rtz = rm(Z3_mk_fpa_rtz);
  switch (e->k) {
    case KFConst: return xfconst(w, e->f);
    case KFDy: {
      E m = e->a[0];
      unsigned k = std::min(64u, bitsFor(m->lo, m->hi) + 1);
      z3::expr r = xz(Z3_mk_fpa_to_fp_signed(c, rne, k < m->w ? xv(m).extract(k - 1, 0) : xv(m), fsort(w)));
      if (e->op) r = xz(Z3_mk_fpa_mul(c, rne, r, xfconst(w, ldexpl(1, e->op))));
      return r;
    }
    case KFFromBits: return xz(Z3_mk_fpa_to_fp_bv(c, B(0), fsort(w)));
    case KFpBits: if (w > 64) throw NoPrecise(); return xz(Z3_mk_fpa_to_ieee_bv(c, B(0)));
    case KFIte: return z3::ite(xe(e->a[0]), xe(e->a[1]), xe(e->a[2]));
    case KFOp: {
      if ((uint32_t)e->op >= FO_NAMED) { std::vector<z3::expr> as; for (int i = 0; i < e->n; i++) as.push_back(B(i)); return xfun("xop" + std::to_string(e->op) + "w" + std::to_string(w), fsort(w), as); }
      switch (e->op) {
        case FO_ADD: return xz(Z3_mk_fpa_add(c, rne, B(0), B(1)));
        case FO_SUB: return xz(Z3_mk_fpa_sub(c, rne, B(0), B(1)));
        case FO_MUL: return xz(Z3_mk_fpa_mul(c, rne, B(0), B(1)));
        case FO_DIV: return xz(Z3_mk_fpa_div(c, rne, B(0), B(1)));
        case FO_NEG: return xz(Z3_mk_fpa_neg(c, B(0)));
        case FO_ABS: return xz(Z3_mk_fpa_abs(c, B(0)));
        case FO_FLOOR: return xz(Z3_mk_fpa_round_to_integral(c, rm(Z3_mk_fpa_rtn), B(0)));
        case FO_CEIL: return xz(Z3_mk_fpa_round_to_integral(c, rm(Z3_mk_fpa_rtp), B(0)));
        case FO_TRUNC: return xz(Z3_mk_fpa_round_to_integral(c, rtz, B(0)));
        case FO_ROUND: return xz(Z3_mk_fpa_round_to_integral(c, rm(Z3_mk_fpa_rna), B(0)));
        case FO_RINT: return xz(Z3_mk_fpa_round_to_integral(c, rne, B(0)));
        case FO_SQRT: return xz(Z3_mk_fpa_sqrt(c, rne, B(0)));
        case FO_EXT: case FO_TRUNCFP: return xz(Z3_mk_fpa_to_fp_float(c, rne, B(0), fsort(w)));
        case FO_SITOFP: return xz(Z3_mk_fpa_to_fp_signed(c, rne, B(0), fsort(w)));
        case FO_UITOFP: return xz(Z3_mk_fpa_to_fp_unsigned(c, rne, B(0), fsort(w)));
        default: throw NoPrecise(); // fmod, fmin, fmax, copysign
      }
    }
    case KUfBv:
      switch (e->op) {
        case FO_OEQ: return xz(Z3_mk_fpa_eq(c, B(0), B(1)));
        case FO_OLT: return xz(Z3_mk_fpa_lt(c, B(0), B(1)));
        case FO_OLE: return xz(Z3_mk_fpa_leq(c, B(0), B(1)));
        case FO_UNO: return xz(Z3_mk_fpa_is_nan(c, B(0))) || xz(Z3_mk_fpa_is_nan(c, B(1)));
        case FO_TOSI: case FO_TOUI: {
          if (w > 64) throw NoPrecise();
          unsigned fw = e->a[0]->w; bool sg = e->op == FO_TOSI;
          z3::expr x = B(0), lo = xfconst(fw, sg ? -ldexpl(1, w - 1) : 0.L), hi = xfconst(fw, ldexpl(1, sg ? w - 1 : w));
          z3::expr tr = xz(Z3_mk_fpa_round_to_integral(c, rtz, x));
          z3::expr ok = xz(Z3_mk_fpa_leq(c, lo, tr)) && xz(Z3_mk_fpa_lt(c, tr, hi));
          z3::expr v = xz(sg ? Z3_mk_fpa_to_sbv(c, rtz, x, w) : Z3_mk_fpa_to_ubv(c, rtz, x, w));
          return z3::ite(ok, v, zconst(w, w == 64 || w == 32 ? (u128)1 << (w - 1) : 0));
        }
        default: { std::vector<z3::expr> as; for (int i = 0; i < e->n; i++) as.push_back(B(i)); return xfun("xuf" + std::to_string(e->op) + "w" + std::to_string(w), w == 1 ? c.bool_sort() : c.bv_sort(w), as); }
      }
    case KIte: return w == 1 ? z3::ite(xe(e->a[0]), xe(e->a[1]), xe(e->a[2])) : z3::ite(xe(e->a[0]), xv(e->a[1]), xv(e->a[2]));
    case KEq: if (e->a[0]->w == 1) return xe(e->a[0]) == xe(e->a[1]); return B(0) == B(1);
    case KConcat: return z3::concat(B(0), B(1));
    case KExtract: { z3::expr r = B(0).extract(e->op + w - 1, e->op); return w == 1 ? r == c.bv_val(1, 1) : r; }
    case KZExt: return z3::zext(B(0), w - e->a[0]->w);
    case KSExt: return z3::sext(B(0), w - e->a[0]->w);
    default: break;
  }
  if (w == 1 && e->a[0]->w == 1) {
    z3::expr a = xe(e->a[0]), b = xe(e->a[1]);
    switch (e->k) {
      case KAnd: case KMul: return a && b;
      case KOr: return a || b;
      case KXor: return isTrue(e->a[1]) ? !a : (a != b);
      case KAdd: case KSub: return a != b;
      case KUlt: return !a && b;
      case KUle: return !a || b;
      case KSlt: return a && !b;
      case KSle: return a || !b;
      default: throw NoPrecise();
    }
  }
  z3::expr a = B(0), b = B(1);
  switch (e->k) {
    case KMul: return a * b;
    case KSDiv: return a / b;
    case KSRem: return z3::srem(a, b);
    case KUDiv: return z3::udiv(a, b);
    case KURem: return z3::urem(a, b);
    case KAdd: return a + b;
    case KSub: return a - b;
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return z3::shl(a, b);
    case KLShr: return z3::lshr(a, b);
    case KAShr: return z3::ashr(a, b);
    case KUlt: return z3::ult(a, b);
    case KUle: return z3::ule(a, b);
    case KSlt: return a < b;
    case KSle: return a <= b;
    default: throw NoPrecise();
  }
}
static z3::expr xe(E e) {
  if (!hasFp(e)) return zraw(e);
  auto it = xmemo().find(e);
  if (it != xmemo().end()) return it->second;
  z3::expr r = xbuild(e);
  xmemo().insert({e, r});
  return r;
}
// 0 unsat, 1 sat (model verified), -1 no answer
static int solvePrecise(const std::set<uint32_t>& syms, const std::vector<E>& cs, E extra, std::shared_ptr<ModelV>& nm, unsigned timeoutMs) {
  try {
    z3::solver s(ctx());
    z3::params p(ctx()); p.set("timeout", timeoutMs); s.set(p);
    for (uint32_t i : syms) {
      E x = symExpr(i);
      if (x->lo > smin(x->w)) s.add(zconst(x->w, (u128)x->lo & maskw(x->w)) <= zv(x));
      if (x->hi < smax(x->w)) s.add(zv(x) <= zconst(x->w, (u128)x->hi & maskw(x->w)));
    }
    for (E e : cs) s.add(xe(e));
    s.add(xe(extra));
    g_stats.queries++; g_stats.precise++;
    z3::check_result r = s.check();
    if (r == z3::unsat) { g_stats.unsat++; return 0; }
    if (r == z3::unknown) return -1;
    z3::model zm = s.get_model();
    auto cand = std::make_shared<ModelV>(*nm);
    for (uint32_t i : syms) {
      E x = symExpr(i);
      if (x->w == 1) { z3::expr v = zm.eval(zb(x), true); (*cand)[i] = v.is_true() ? 1 : 0; }
      else { z3::expr v = zm.eval(zv(x), true); uint64_t u = 0; if (!v.is_numeral_u64(u)) { std::string d = v.get_decimal_string(0); u = strtoull(d.c_str(), 0, 10); } (*cand)[i] = u; }
    }
    Model m(cand);
    evalReset();
    for (E e : cs) if (!evalBV(e, m)) return -1;
    if (!evalBV(extra, m)) return -1;
    g_stats.sat++;
    nm = cand;
    return 1;
  } catch (NoPrecise&) { return -1; }
  catch (z3::exception& ex) { fprintf(stderr, "z3 (precise): %s\n", ex.msg()); return -1; }
}

SatRes solveSat(const std::vector<E>& pc, E extra, const Model& base, Model& out, bool& spurious, unsigned timeoutMs) {
  spurious = false;
  if (isTrue(extra)) { out = base; return SR_SAT; }
  if (isFalse(extra)) return SR_UNSAT;
  // slice
  std::set<uint32_t> syms(extra->syms->s.begin(), extra->syms->s.end());
  std::vector<char> in(pc.size(), 0); bool ch = true; bool uf = extra->uf;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i] && (intersects(pc[i]->syms, syms))) { in[i] = 1; ch = true; for (uint32_t s : pc[i]->syms->s) syms.insert(s); }
    // constraints linked only through UFs share symbols of their arguments, hence are covered
  }
  std::vector<E> cs;
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) { cs.push_back(pc[i]); uf |= pc[i]->uf; }
  std::vector<uint32_t> ids; for (E e : cs) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  ids.push_back(extra->id);
  std::string key((char*)ids.data(), ids.size() * 4);
  auto merge = [&](const Model& m) {
    auto nm = std::make_shared<ModelV>();
    size_t n = std::max(base ? base->size() : 0, (size_t)g_syms.size()); nm->resize(n);
    for (size_t i = 0; i < n; i++) (*nm)[i] = syms.count(i) ? modelGet(m, i) : modelGet(base, i);
    return Model(nm);
  };
  auto it = g_cache.find(key);
  if (it != g_cache.end()) {
    g_stats.cacheHits++;
    if (it->second.first == SR_SAT) { out = merge(it->second.second); return SR_SAT; }
    if (it->second.first == 3) { spurious = true; return SR_SAT; }
    return (SatRes)it->second.first;
  }
  auto t0 = std::chrono::steady_clock::now();
  g_stats.queries++;
  z3::solver s(ctx(), uf ? "QF_UFBV" : "QF_BV");
  z3::params p(ctx()); p.set("timeout", timeoutMs); s.set(p);
  for (uint32_t i : syms) {
    E x = symExpr(i);
    if (x->lo > smin(x->w)) s.add(zconst(x->w, (u128)x->lo & maskw(x->w)) <= zv(x));
    if (x->hi < smax(x->w)) s.add(zv(x) <= zconst(x->w, (u128)x->hi & maskw(x->w)));
  }
  for (E e : cs) s.add(zb(e));
  s.add(zb(extra));
  if (!g_smtDumpDir.empty()) {
    static int n = 0;
    std::ofstream f(g_smtDumpDir + "/q" + std::to_string(n++) + ".smt2"); f << s.to_smt2();
  }
  z3::check_result r = z3::unknown;
  try { r = s.check(); } catch (z3::exception& ex) { fprintf(stderr, "z3: %s\n", ex.msg()); }
  double ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
  g_stats.ms += ms;
  if (r == z3::unsat) { g_stats.unsat++; g_cache[key] = {SR_UNSAT, nullptr}; return SR_UNSAT; }
  if (r == z3::unknown) { g_stats.unknown++; return SR_UNKNOWN; }
  g_stats.sat++;
  z3::model zm = s.get_model();
  auto nm = std::make_shared<ModelV>(); nm->resize(g_syms.size());
  for (size_t i = 0; i < g_syms.size(); i++) {
    if (syms.count(i)) {
      E x = symExpr(i);
      if (x->w == 1) { z3::expr v = zm.eval(zb(x), true); (*nm)[i] = v.is_true() ? 1 : 0; }
      else { z3::expr v = zm.eval(zv(x), true); uint64_t u = 0; if (!v.is_numeral_u64(u)) { std::string d = v.get_decimal_string(0); u = strtoull(d.c_str(), 0, 10); } (*nm)[i] = u; }
    } else (*nm)[i] = modelGet(base, i);
  }
  Model m(nm);
  evalReset();
  bool ok = evalBV(extra, m) != 0;
  for (E e : cs) ok = ok && evalBV(e, m) != 0;
  if (!ok) {
    if (!uf) { fprintf(stderr, "translation mismatch: %s\n", showE(extra, 12).c_str()); die("model does not satisfy the query it came from (encoder bug)"); }
    // The model relies on an interpretation of libm (or of inexact operations) which is not the real one:
    // look for another solution of the same query under the real functions.
    if (concretize(syms, cs, extra, nm, base)) { m = Model(nm); ok = true; }
    else { // or decide it with the exact semantics of the operations
      auto t1 = std::chrono::steady_clock::now();
      static int slow = 0; // at most a few long queries
      int x = solvePrecise(syms, cs, extra, nm, slow < 2 ? 90000u : 20000u);
      if (x < 0) slow++;
      g_stats.ms += std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t1).count();
      if (x == 0) { g_cache[key] = {SR_UNSAT, nullptr}; return SR_UNSAT; }
      if (x == 1) { m = Model(nm); ok = true; }
    }
    if (!ok) { spurious = true; g_cache[key] = {3, nullptr}; return SR_SAT; }
  }
  g_cache[key] = {SR_SAT, m};
  out = m;
  return SR_SAT;
}

std::string showE(E e, int d) {
  static const char* nm[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "=", "u<", "u<=", "s<", "s<=", "ite", "concat", "extract", "zext", "sext", "fpbits", "uf", "fconst", "fdy", "fop", "ffrombits", "fite"};
  if (e->k == KConst) return i128s(e->w == 1 ? (i128)e->c : sgn(e->cv(), e->w));
  if (e->k == KSym) return g_syms[e->op].name;
  if (e->k == KFConst) { char b[64]; snprintf(b, 64, "%.17Lg", e->f); return b; }
  if (d <= 0) return "..";
  std::string s = std::string("(") + nm[e->k];
  if (e->k == KExtract || e->k == KFDy || e->k == KFOp || e->k == KUfBv) s += ":" + ((e->k == KFOp || e->k == KUfBv) && (uint32_t)e->op >= FO_NAMED ? namedFnName(e->op) : std::to_string(e->op));
  if (e->k == KExtract || e->k == KZExt || e->k == KSExt) s += "/" + std::to_string(e->w);
  for (int i = 0; i < e->n; i++) s += " " + showE(e->a[i], d - 1);
  return s + ")";
}
