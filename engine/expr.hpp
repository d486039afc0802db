// Hash-consed bit-vector / floating-point terms with interval tracking, and their
// translation to Z3.  FP terms live in an *exact dyadic* domain (integer mantissa * 2^e,
// |mantissa| < 2^53 resp. 2^24, so that IEEE arithmetic is exact); whatever leaves that
// domain becomes an uninterpreted function of its operands (congruence only).
#pragma once
#include <z3++.h>

#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  KConst, KSym,
  KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem,
  KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KEq, KUlt, KUle, KSlt, KSle,
  KIte, KConcat, KExtract, KZExt, KSExt,
  KFpBits, KUfBv,              // BV-sorted views of FP terms
  KFConst, KFDy, KFOp, KFFromBits, KFIte   // FP-sorted
};

enum FOpCode : uint32_t {
  FO_ADD = 1, FO_SUB, FO_MUL, FO_DIV, FO_REM, FO_NEG, FO_ABS, FO_FLOOR, FO_CEIL, FO_TRUNC, FO_ROUND, FO_RINT,
  FO_MIN, FO_MAX, FO_COPYSIGN, FO_SQRT, FO_EXT, FO_TRUNCFP, FO_SITOFP, FO_UITOFP,
  // predicates / conversions (BV sorted)
  FO_OEQ, FO_OLT, FO_OLE, FO_UNO, FO_TOSI, FO_TOUI,
  FO_NAMED = 1000              // 1000 + index in named function table
};

struct SymSet { std::vector<uint32_t> s; };

struct Expr {
  Kind k; bool fp; uint16_t w; uint32_t id;
  int32_t op;                  // Extract low bit / dyadic exponent / FOp code / symbol index
  uint64_t c; uint64_t chi;    // const value (128 bits)
  long double f;               // FConst
  const Expr* a[3]; uint8_t n;
  mutable i128 lo, hi;         // signed interval (unsigned for w==1); for FDy unused
  const SymSet* syms; bool uf = false;
  mutable uint32_t ep = 0; mutable uint64_t ev = 0, evh = 0; mutable long double evf = 0; // eval memo
  mutable uint32_t iep = 0; mutable i128 ilo = 0, ihi = 0;                                // interval memo
  mutable uint32_t sep = 0; mutable const Expr* sv = nullptr;                              // subst memo
  u128 cv() const { return ((u128)chi << 64) | c; }
};
typedef const Expr* E;

struct SymInfo { std::string name; unsigned w; i128 lo, hi; bool undef; };
typedef std::vector<uint64_t> ModelV;      // values (masked), index = symbol
typedef std::shared_ptr<const ModelV> Model;

extern std::vector<SymInfo> g_syms;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sgn(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  v &= maskw(w);
  if ((v >> (w - 1)) & 1) return (i128)(v | ~maskw(w));
  return (i128)v;
}

// --- constructors
E mkC(unsigned w, u128 v);
E mkSym(const std::string& name, unsigned w, i128 lo, i128 hi, bool undef);
E mkBin(Kind k, E a, E b);
E mkNot(E a);                       // bitwise / logical not
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
inline E mkEq(E a, E b) { return mkBin(KEq, a, b); }
E mkF(unsigned w, long double v);
E mkFOp(unsigned w, uint32_t op, E a, E b = nullptr, E c = nullptr);  // smart FP arithmetic
E mkFCmp(unsigned pred, E a, E b);  // LLVM fcmp predicate number (0..15)
E mkFIte(E c, E a, E b);
E mkFpBits(E a);
E mkFFromBits(E a, unsigned w);
E mkFToInt(E a, unsigned w, bool sign);
E mkIntToF(E a, unsigned w, bool sign);
E mkFSame(E a, E b);                // "same value" (NaN==NaN)
uint32_t namedFn(const std::string& n);
const std::string& namedFnName(uint32_t op);
typedef long double (*NamedEval)(const std::string& n, unsigned w, long double a, long double b, long double c);

inline bool isC(E e) { return e->k == KConst; }
inline bool isTrue(E e) { return e->k == KConst && e->c; }
inline bool isFalse(E e) { return e->k == KConst && !e->c; }
uint64_t fbits(unsigned w, long double f);
long double ffrom(unsigned w, uint64_t bits);

// --- evaluation under a model
u128 evalBV(E e, const Model& m);
long double evalF(E e, const Model& m);
void evalReset();
uint64_t modelGet(const Model& m, uint32_t s);

// --- substitution sym -> const and interval evaluation under refined bounds
struct Bounds { std::map<uint32_t, std::pair<i128, i128>> b; uint32_t epoch = 0; };
E substE(E e, Bounds& b);
std::pair<i128, i128> ivalE(E e, Bounds& b);
void refine(E cond, Bounds& b);     // narrow bounds from an asserted condition
uint32_t newEpoch();

unsigned knownTZ(E e);

// --- solver
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, precise = 0; double ms = 0; };
extern SolverStats g_stats;
enum SatRes { SR_UNSAT, SR_SAT, SR_UNKNOWN };
// is (pc /\ extra) satisfiable?  On SAT fills model (complete; evaluates true with the real functions) unless spurious
SatRes solveSat(const std::vector<E>& pc, E extra, const Model& base, Model& out, bool& spurious, unsigned timeoutMs);
std::string showE(E e, int depth = 6);
extern std::string g_smtDumpDir;
E mkUfBv(unsigned w, uint32_t op, E a, E b = nullptr);
std::string i128s(i128 v);
E symExpr(uint32_t idx);
E andList(const std::vector<E>& v);
E mkAbs(E a);
E mkMinMax(bool isMax, bool sign, E a, E b);
E mkBoolAnd(E a, E b);
E mkBoolOr(E a, E b);
E mkFunnel(bool left, E a, E b, E s);
E mkCtpop(E a);
E mkCtz(E a);
E mkClz(E a);
E mkBswap(E a);
E mkOverflow(int kind, bool sign, E a, E b);
E mkFClass(E a, unsigned mask);
