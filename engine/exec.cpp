// Symbolic executor for LLVM IR.  Every path condition, memory-safety condition and harness
// assertion is decided by Z3 over all values of the symbolic inputs (see expr.cpp).
#include "expr.hpp"

#include <llvm/ADT/MapVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <sys/resource.h>

#include <algorithm>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <pthread.h>
#include <set>
#include <sstream>
#include <unordered_set>

using namespace llvm;

// ---------------------------------------------------------------------------------------
struct TInfo { uint8_t cls; uint16_t w; };  // cls 0 int, 1 fp, 2 ptr
struct Val { E e = nullptr; uint64_t c = 0; Val() {} Val(uint64_t x) : c(x) {} explicit Val(E x) : e(x) {} };

static Val fromE(E e) {
  if (e->k == KConst && e->w <= 64) return Val(e->c);
  if (e->k == KFConst && e->w <= 64) return Val(fbits(e->w, e->f));
  return Val(e);
}
static E toE(const Val& v, TInfo t) {
  if (v.e) return v.e;
  if (t.cls == 1) return mkF(t.w, ffrom(t.w, v.c));
  return mkC(t.w, v.c);
}

struct SymB { E e; uint8_t idx; };
enum OKind : uint8_t { OGlobal, OConst, OStack, OHeap, OExc, OFunc };
struct Obj {
  uint64_t base = 0, size = 0; OKind kind = OGlobal; const char* name = ""; char how = 0;  // how: 'm' malloc 'n' new 'a' new[]
  std::vector<uint8_t> data, tag; std::vector<SymB> sym;
  void init(uint64_t n) { size = n; data.assign(n, 0); tag.assign(n, 0); }
};
typedef std::shared_ptr<Obj> OP;

struct DFunc; struct DInst;
struct Frame {
  DFunc* f = nullptr; int bb = 0, ip = 0, prev = -1; std::vector<Val> s; std::vector<uint32_t> allocas; uint64_t va = 0;
  int noRet = 0;  // frame pushed by the engine: discard the result, do not advance the caller
};
struct ExcInfo { uint64_t obj; uint64_t ti; uint64_t dtor; int handlers; };
struct Input { std::string name; E e; };
struct Obs { std::string label; E e; bool fp; };
struct State {
  std::vector<Frame> fr;
  std::shared_ptr<std::vector<OP>> glob;
  std::vector<std::pair<uint32_t, OP>> objs;
  uint32_t nextId = 0;
  std::vector<E> pc; std::unordered_set<E> pcSet; Bounds bounds; Model model; bool modelOk = true;
  std::vector<Input> inputs; std::map<std::string, int> nameCount; std::vector<Obs> obs; std::vector<std::string> reached;
  uint64_t instrs = 0; int undefs = 0; uint64_t skew = 0;
  std::map<uint64_t, ExcInfo> excs; std::vector<uint64_t> caught; uint64_t curExc = 0;
  uint64_t heapLive = 0;
  std::string log;
  int depth = 0;
};

struct Opnd { int slot = -1; std::vector<Val> c; };
struct PhiMove { int dst; int n; Opnd src; };
struct DInst {
  Instruction* I; unsigned op; int dst = -1; std::vector<TInfo> rt; std::vector<Opnd> o; std::vector<std::vector<TInfo>> ot;
  TInfo t{0, 0};           // operand type for binary/cmp
  unsigned pred = 0; int succ[2] = {-1, -1};
  int64_t gepC = 0; std::vector<std::pair<int, int64_t>> gepV;  // operand index, scale
  Function* callee = nullptr; struct Handler* h = nullptr; DFunc* df = nullptr; bool hit = false; bool memLoop = false;
  std::vector<uint64_t> offs;  // flattened offsets for load/store
  std::vector<std::pair<uint64_t, int>> cases; int defBB = -1; unsigned idx = 0, cnt = 0;
  bool isInvoke = false;
};
struct DBB { std::vector<DInst> ins; std::map<int, std::vector<PhiMove>> phis; };
struct DFunc { Function* F; std::vector<DBB> bbs; int nslots = 0; std::vector<int> argSlot; std::vector<std::vector<TInfo>> argT; std::vector<TInfo> retT; bool used = false; };

struct Violation { std::string kind, label, loc, detail; std::vector<std::pair<std::string, std::string>> inputs; bool unconfirmed = false; };
struct PathEnd {};           // this path is finished
struct Budget { std::string what; };
struct Unsupported { std::string what; };

struct Exec;
typedef std::function<Val(Exec&, State&, DInst&, std::vector<std::vector<Val>>&)> HFn;
struct Handler { HFn f; };

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DLp;
static const unsigned RSHIFT = 36;
static const uint64_t RMID = 1ull << 35;

static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; }
  return r;
}

struct Exec {
  std::map<Function*, std::unique_ptr<DFunc>> dfs;
  std::map<const GlobalValue*, uint64_t> gaddr;
  std::map<uint64_t, Function*> faddr;
  std::map<std::string, uint64_t> pseudoTI; std::map<uint64_t, std::string> tiName;
  std::map<std::string, Handler> handlers;
  std::vector<std::unique_ptr<State>> work;
  std::vector<Violation> viols;
  std::map<std::string, uint64_t> asserts; std::map<std::string, uint64_t> assertsTrivial; std::set<std::string> reach;
  std::map<std::string, std::pair<std::string, std::string>> syms;
  std::set<std::string> externs;
  uint64_t paths = 0, totInstr = 0, forks = 0, dropped = 0, memChecks = 0;
  struct Wit { std::vector<std::pair<std::string, std::string>> in; std::vector<std::array<std::string, 2>> obs; };
  std::vector<Wit> wits; uint64_t witCount = 0; unsigned maxWit = 6; uint64_t seed = 1; uint64_t rng = 88172645463325252ull;
  uint64_t maxInstr = 20000000; double maxSec = 200; unsigned maxViol = 4; unsigned qTimeout = 20000; unsigned maxPaths = 200000;
  std::chrono::steady_clock::time_point t0;
  std::string entry; std::string status = "complete"; std::string inconcl;
  bool stop = false;
  uint64_t pathTrunc = 0;

  // ------------------------------------------------------------- types
  void flat(Type* t, std::vector<TInfo>& out, std::vector<uint64_t>* offs = nullptr, uint64_t off = 0) {
    if (t->isVoidTy()) return;
    if (t->isIntegerTy()) { out.push_back({0, (uint16_t)t->getIntegerBitWidth()}); if (offs) offs->push_back(off); return; }
    if (t->isPointerTy()) { out.push_back({2, 64}); if (offs) offs->push_back(off); return; }
    if (t->isFloatTy()) { out.push_back({1, 32}); if (offs) offs->push_back(off); return; }
    if (t->isDoubleTy()) { out.push_back({1, 64}); if (offs) offs->push_back(off); return; }
    if (t->isX86_FP80Ty()) { out.push_back({1, 80}); if (offs) offs->push_back(off); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DLp->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), out, offs, off + sl->getElementOffset(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DLp->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), out, offs, off + i * es); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DLp->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), out, offs, off + i * es); return; }
    if (t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return;
    std::string s; raw_string_ostream os(s); t->print(os); throw Unsupported{"type " + s};
  }
  int flatCount(Type* t) { std::vector<TInfo> v; flat(t, v); return v.size(); }

  // ------------------------------------------------------------- constants
  void constVals(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || c->isNullValue()) { std::vector<TInfo> ti; flat(t, ti); for (auto& x : ti) { if (x.w > 64) out.push_back(Val(x.cls == 1 ? mkF(x.w, 0) : mkC(x.w, 0))); else out.push_back(Val((uint64_t)0)); } return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w <= 64) out.push_back(Val(ci->getZExtValue())); else { APInt a = ci->getValue(); out.push_back(Val(mkC(w, ((u128)a.extractBitsAsZExtValue(w - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0)))); } return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      if (t->isX86_FP80Ty()) { APInt a = cf->getValueAPF().bitcastToAPInt(); unsigned char b[16] = {0}; uint64_t lo = a.extractBitsAsZExtValue(64, 0), hi = a.extractBitsAsZExtValue(16, 64); memcpy(b, &lo, 8); memcpy(b + 8, &hi, 2); long double ld; memcpy(&ld, b, 16); out.push_back(Val(mkF(80, ld))); }
      else out.push_back(Val(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
      return;
    }
    if (auto* gv = dyn_cast<GlobalValue>(c)) { out.push_back(Val(globalAddr(gv))); return; }
    if (auto* ca = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ca->getNumElements(); i++) constVals(ca->getElementAsConstant(i), out); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      auto sub = [&](unsigned i) { std::vector<Val> v; constVals(ce->getOperand(i), v); return v[0].c; };
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DLp, off)) break; out.push_back(Val(sub(0) + off.getZExtValue())); return; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: out.push_back(Val(sub(0))); return;
        case Instruction::Add: out.push_back(Val(sub(0) + sub(1))); return;
        case Instruction::Sub: out.push_back(Val(sub(0) - sub(1))); return;
        case Instruction::Trunc: out.push_back(Val(sub(0) & (uint64_t)maskw(t->getIntegerBitWidth()))); return;
        case Instruction::ICmp: { uint64_t a = sub(0), b = sub(1); bool r = ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b; out.push_back(Val((uint64_t)r)); return; }
        default: break;
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os); throw Unsupported{"constant " + s.substr(0, 200)};
  }
  std::shared_ptr<std::vector<OP>> g0;  // initial globals
  std::map<std::string, const GlobalValue*> byName;
  uint64_t newGlobal(uint64_t size, OKind k, const char* nm) {
    uint32_t id = g0->size(); auto o = std::make_shared<Obj>(); o->init(size); o->kind = k; o->name = nm; o->base = ((uint64_t)id << RSHIFT) + RMID; g0->push_back(o); return o->base;
  }
  uint64_t globalAddr(const GlobalValue* gv) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv)) { std::vector<Val> v; constVals(ga->getAliasee(), v); return v[0].c; }
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) throw Unsupported{"global " + gv->getName().str()};
    return it->second;
  }
  void initMem(Obj& o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    uint64_t sz = DLp->getTypeStoreSize(t);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { std::fill(o.tag.begin() + off, o.tag.begin() + off + sz, 1); return; }
    if (auto* ca = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = ca->getElementByteSize(); StringRef raw = ca->getRawDataValues(); (void)es; memcpy(&o.data[off], raw.data(), raw.size()); std::fill(o.tag.begin() + off, o.tag.begin() + off + raw.size(), 1); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DLp->getStructLayout(cs->getType()); std::fill(o.tag.begin() + off, o.tag.begin() + off + sz, 1); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { Type* et = t->getContainedType(0); uint64_t es = DLp->getTypeAllocSize(et); for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
    std::vector<Val> v; constVals(c, v);
    if (v.size() != 1) throw Unsupported{"init"};
    if (v[0].e) { if (v[0].e->fp) { long double ld = v[0].e->f; memcpy(&o.data[off], &ld, 10); sz = 10; } else { u128 x = v[0].e->cv(); memcpy(&o.data[off], &x, sz); } }
    else memcpy(&o.data[off], &v[0].c, std::min<uint64_t>(sz, 8));
    std::fill(o.tag.begin() + off, o.tag.begin() + off + sz, 1);
  }
  void setupGlobals() {
    g0 = std::make_shared<std::vector<OP>>();
    g0->push_back(nullptr);  // region 0: null
    for (auto& F : *M) { if (F.isIntrinsic()) continue; uint64_t a = newGlobal(1, OFunc, strdup(F.getName().str().c_str())); gaddr[&F] = a; faddr[a] = &F; }
    for (auto& G : M->globals()) {
      if (G.getName().startswith("llvm.")) { if (G.getName() != "llvm.used") continue; continue; }
      uint64_t sz = G.getValueType()->isSized() ? DLp->getTypeAllocSize(G.getValueType()) : 8;
      if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 4096);  // external object (vtables, type_infos, cout): opaque storage
      uint64_t a = newGlobal(sz, G.isConstant() ? OConst : OGlobal, strdup(G.getName().str().c_str()));
      gaddr[&G] = a; byName[G.getName().str()] = &G;
      if (G.getName().startswith("_ZTI")) tiName[a] = G.getName().str();
    }
    for (auto& G : M->globals()) {
      if (!gaddr.count(&G)) continue;
      Obj& o = *(*g0)[gaddr[&G] >> RSHIFT];
      if (G.hasInitializer()) initMem(o, 0, G.getInitializer());
      else std::fill(o.tag.begin(), o.tag.end(), 1);
    }
  }

  // ------------------------------------------------------------- decode
  DFunc* decode(Function* F) {
    auto& p = dfs[F];
    if (p) return p.get();
    p = std::make_unique<DFunc>();
    DFunc* d = p.get(); d->F = F;
    std::map<const Value*, std::pair<int, int>> slot;
    auto alloc = [&](const Value* v) { int n = flatCount(v->getType()); slot[v] = {d->nslots, n}; d->nslots += std::max(n, 1); };
    for (auto& a : F->args()) { alloc(&a); d->argSlot.push_back(slot[&a].first); std::vector<TInfo> t; flat(a.getType(), t); d->argT.push_back(t); }
    flat(F->getReturnType(), d->retT);
    std::map<const BasicBlock*, int> bbi; int nb = 0;
    for (auto& B : *F) { bbi[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) alloc(&I); }
    d->bbs.resize(nb);
    auto opnd = [&](const Value* v) {
      Opnd o;
      if (auto* c = dyn_cast<Constant>(v)) { constVals(c, o.c); }
      else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) {}
      else o.slot = slot.at(v).first;
      return o;
    };
    nb = 0;
    for (auto& B : *F) {
      DBB& db = d->bbs[nb++];
      for (auto& I : B) {
        if (auto* ph = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { PhiMove m; m.dst = slot[&I].first; m.n = slot[&I].second; m.src = opnd(ph->getIncomingValue(i)); db.phis[bbi[ph->getIncomingBlock(i)]].push_back(m); }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        DInst x; x.I = &I; x.op = I.getOpcode();
        if (!I.getType()->isVoidTy()) { x.dst = slot[&I].first; flat(I.getType(), x.rt); }
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          if (auto* ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) // assembler comments are compiler barriers
            if (I.getType()->isVoidTy() && cb->arg_size() == 0 && (ia->getAsmString().empty() || ia->getAsmString()[0] == '#')) continue;
          for (auto& a : cb->args()) { Value* v = a.get(); x.o.push_back(opnd(v)); std::vector<TInfo> t; if (!v->getType()->isMetadataTy()) flat(v->getType(), t); x.ot.push_back(t); }
          x.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
          if (!x.callee) if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) x.callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
          if (!x.callee) { x.o.push_back(opnd(cb->getCalledOperand())); x.ot.push_back({{2, 64}}); }
          if (x.callee && x.callee->getName() == "_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z") if (auto* r = M->getFunction("vfrt_to_xstring")) x.callee = r;
          if (x.callee) { auto it = handlers.find(x.callee->getName().str()); if (it != handlers.end()) x.h = &it->second; }
          if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.isInvoke = true; x.succ[0] = bbi[iv->getNormalDest()]; x.succ[1] = bbi[iv->getUnwindDest()]; }
          db.ins.push_back(std::move(x));
          continue;
        }
        if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { x.o.push_back(opnd(br->getCondition())); x.succ[0] = bbi[br->getSuccessor(0)]; x.succ[1] = bbi[br->getSuccessor(1)]; } else x.succ[0] = bbi[br->getSuccessor(0)]; db.ins.push_back(std::move(x)); continue; }
        if (auto* sw = dyn_cast<SwitchInst>(&I)) { x.o.push_back(opnd(sw->getCondition())); x.t = {0, (uint16_t)sw->getCondition()->getType()->getIntegerBitWidth()}; for (auto& c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); x.defBB = bbi[sw->getDefaultDest()]; db.ins.push_back(std::move(x)); continue; }
        for (auto& u : I.operands()) { Value* v = u.get(); x.o.push_back(opnd(v)); std::vector<TInfo> t; if (!isa<BasicBlock>(v)) flat(v->getType(), t); x.ot.push_back(t); }
        if (x.ot.size() && x.ot[0].size()) x.t = x.ot[0][0];
        if (auto* c = dyn_cast<CmpInst>(&I)) x.pred = c->getPredicate();
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value*, APInt> vo; APInt co(64, 0);
          if (!cast<GEPOperator>(g)->collectOffset(*DLp, 64, vo, co)) throw Unsupported{"gep"};
          x.gepC = co.getSExtValue();
          for (auto& kv : vo) { x.o.push_back(opnd(kv.first)); std::vector<TInfo> t; flat(kv.first->getType(), t); x.ot.push_back(t); x.gepV.push_back({(int)x.o.size() - 1, kv.second.getSExtValue()}); }
        }
        if (auto* l = dyn_cast<LoadInst>(&I)) { std::vector<TInfo> t; flat(l->getType(), t, &x.offs); }
        if (auto* s = dyn_cast<StoreInst>(&I)) { std::vector<TInfo> t; flat(s->getValueOperand()->getType(), t, &x.offs); }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { x.idx = aggIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); }
        if (auto* iv = dyn_cast<InsertValueInst>(&I)) { x.idx = aggIndex(iv->getAggregateOperand()->getType(), iv->getIndices()); }
        db.ins.push_back(std::move(x));
      }
    }
    return d;
  }
  unsigned aggIndex(Type* t, ArrayRef<unsigned> idx) {
    unsigned r = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) r += flatCount(st->getElementType(j)); t = st->getElementType(i); }
      else { Type* et = t->getContainedType(0); r += i * flatCount(et); t = et; }
    }
    return r;
  }

  // ------------------------------------------------------------- state utilities
  State* S = nullptr;
  const Val& get(Frame& f, const Opnd& o, int i = 0) { return o.slot >= 0 ? f.s[o.slot + i] : o.c[i]; }
  std::string locOf(Instruction* I) {
    DebugLoc dl = I->getDebugLoc();
    std::string r;
    const DILocation* l = dl.get();
    while (l) { r += (r.empty() ? "" : " < ") + l->getFilename().str() + ":" + std::to_string(l->getLine()); l = l->getInlinedAt(); if (r.size() > 400) break; }
    return r;
  }
  std::string curLoc() {
    std::string r;
    for (int i = (int)S->fr.size() - 1; i >= 0 && r.size() < 900; i--) { Frame& f = S->fr[i]; if (f.ip < (int)f.f->bbs[f.bb].ins.size()) r += (r.empty() ? "" : " << ") + locOf(f.f->bbs[f.bb].ins[f.ip].I); }
    return r;
  }
  std::string symStr(E e, const Model& m) { u128 v = evalBV(e, m); return i128s(e->w == 1 ? (i128)v : sgn(v, e->w)); }
  void report(const std::string& kind, const std::string& label, const Model& m, bool unconf, const std::string& detail = "") {
    Violation v; v.kind = kind; v.label = label; v.loc = curLoc(); v.detail = detail; v.unconfirmed = unconf;
    evalReset();
    for (auto& in : S->inputs) v.inputs.push_back({in.name, symStr(in.e, m)});
    viols.push_back(v);
    if (viols.size() >= maxViol) stop = true;
  }
  [[noreturn]] void fatal(const std::string& kind, const std::string& label, const std::string& detail = "") {
    // the path itself is the violation: its condition is satisfiable
    Model m = S->model; bool unconf = false;
    if (!S->modelOk) { bool sp; Model out; auto r = solveAll(mkC(1, 1), out, sp); if (r == SR_UNSAT) throw PathEnd(); if (r == SR_SAT && !sp) m = out; else unconf = true; }
    report(kind, label, m, unconf, detail);
    throw PathEnd();
  }
  SatRes solveAll(E extra, Model& out, bool& sp) {
    E all = extra;
    for (E e : S->pc) all = mkBin(KAnd, all, e);
    return solveSat({}, all, S->model, out, sp, qTimeout);
  }
  void addPC(E c) {
    if (isTrue(c)) return;
    if (c->k == KAnd) { addPC(c->a[0]); addPC(c->a[1]); return; }
    if (S->pcSet.count(c)) return;
    S->pc.push_back(c); S->pcSet.insert(c);
    refine(c, S->bounds);
  }
  // returns 1 / 0 if decided, -1 if both possible (then mT / mF carry models of each side)
  int feasible(E c, Model& mT, Model& mF, bool& okT, bool& okF) {
    c = substE(c, S->bounds);
    if (isC(c)) return c->c ? 1 : 0;
    if (S->pcSet.count(c)) return 1;
    E n = mkNot(c);
    if (S->pcSet.count(n)) return 0;
    auto iv = ivalE(c, S->bounds);
    if (iv.first == 1) return 1;
    if (iv.second == 0) return 0;
    okT = okF = true;
    bool haveT = false, haveF = false;
    if (S->modelOk) { if (evalBV(c, S->model)) { haveT = true; mT = S->model; } else { haveF = true; mF = S->model; } g_stats.modelHits++; }
    bool sp;
    SatRes rT = SR_SAT, rF = SR_SAT;
    if (!haveT) { rT = solveSat(S->pc, c, S->model, mT, sp, qTimeout); okT = !(rT == SR_SAT && sp); if (rT == SR_UNKNOWN) { inconcl = "solver timeout on a branch"; okT = false; } }
    if (rT == SR_UNSAT) return 0;
    if (!haveF) { rF = solveSat(S->pc, n, S->model, mF, sp, qTimeout); okF = !(rF == SR_SAT && sp); if (rF == SR_UNKNOWN) { inconcl = "solver timeout on a branch"; okF = false; } }
    if (rF == SR_UNSAT) return 1;
    if (!okT) mT = S->model;
    if (!okF) mF = S->model;
    return -1;
  }
  // decide a condition in the current state, forking when both outcomes are possible (the sibling re-executes the instruction)
  bool decide(E c) {
    if (isC(c)) return c->c;
    Model mT, mF; bool okT = true, okF = true;
    int r = feasible(c, mT, mF, okT, okF);
    if (r >= 0) return r;
    c = substE(c, S->bounds);
    forks++;
    auto sib = std::make_unique<State>(*S);
    State* cur = S;
    S = sib.get(); S->model = mF; S->modelOk = okF; addPC(mkNot(c));
    S = cur; S->model = mT; S->modelOk = okT; addPC(c);
    work.push_back(std::move(sib));
    if (work.size() > 20000) throw Budget{"too many pending states"};
    return true;
  }
  // make a value concrete, forking over every feasible value
  uint64_t concretize(const Val& v, TInfo t) {
    if (!v.e) return v.c;
    E e = substE(v.e, S->bounds);
    if (isC(e)) return e->c;
    if (e->fp) throw Unsupported{"concretise fp"};
    for (int guard = 0;; guard++) {
      if (!S->modelOk) { bool sp; Model out; auto r = solveAll(mkC(1, 1), out, sp); if (r == SR_UNSAT) throw PathEnd(); if (r == SR_SAT && !sp) { S->model = out; S->modelOk = true; } else throw Budget{"cannot concretise under uninterpreted functions"}; }
      uint64_t k = (uint64_t)evalBV(e, S->model);
      E c = mkEq(e, mkC(e->w, k));
      if (decide(c)) return k;
      if (guard > 4) throw Budget{"concretise"};
    }
    (void)t;
  }

  // ------------------------------------------------------------- memory
  OP* findObj(uint64_t addr) {
    uint32_t id = addr >> RSHIFT;
    if (id == 0) return nullptr;
    if (id < S->glob->size()) return &(*S->glob)[id];
    auto& v = S->objs;
    auto it = std::lower_bound(v.begin(), v.end(), id, [](const std::pair<uint32_t, OP>& p, uint32_t k) { return p.first < k; });
    if (it == v.end() || it->first != id) return nullptr;
    return &it->second;
  }
  Obj& writable(OP* o) {
    if (o->use_count() > 1 || ((uint32_t)((*o)->base >> RSHIFT) < S->glob->size() && S->glob.use_count() > 1)) {
      uint32_t id = (*o)->base >> RSHIFT;
      if (id < S->glob->size()) {
        if (S->glob.use_count() > 1) S->glob = std::make_shared<std::vector<OP>>(*S->glob);
        OP& slot = (*S->glob)[id];
        if (slot.use_count() > 1) slot = std::make_shared<Obj>(*slot);
        return *slot;
      }
      *o = std::make_shared<Obj>(**o);
    }
    return **o;
  }
  uint64_t allocObj(uint64_t size, OKind k, const char* nm, uint64_t skew = 0) {
    uint32_t id = S->nextId++;
    if (id >= (1u << 27)) throw Budget{"object ids"};
    auto o = std::make_shared<Obj>(); o->init(size); o->kind = k; o->name = nm; o->base = ((uint64_t)id << RSHIFT) + RMID + skew;
    S->objs.push_back({id, o});
    return o->base;
  }
  void removeObj(uint64_t addr) {
    uint32_t id = addr >> RSHIFT; auto& v = S->objs;
    auto it = std::lower_bound(v.begin(), v.end(), id, [](const std::pair<uint32_t, OP>& p, uint32_t k2) { return p.first < k2; });
    if (it != v.end() && it->first == id) v.erase(it);
  }
  std::string objDesc(OP* o) { if (!o || !*o) return "no live object"; return std::string((*o)->kind == OHeap ? "heap block" : (*o)->kind == OStack ? "stack variable" : "object") + " of " + std::to_string((*o)->size) + " bytes"; }

  // resolve an access: returns object, and either a concrete offset or (symbolic) offset term
  struct Ref { OP* o; uint64_t off; E soff; };
  Ref resolve(const Val& p, uint64_t n, const char* what, bool write) {
    memChecks++;
    if (!p.e) {
      OP* o = findObj(p.c);
      if (!o || !*o) fatal("memory", std::string("invalid ") + what, (p.c >> RSHIFT) == 0 ? "null or tiny address" : "address of a freed or out-of-scope object");
      uint64_t off = p.c - (*o)->base;
      if (off > (*o)->size || n > (*o)->size - off) fatal("memory", std::string("out-of-bounds ") + what, objDesc(o) + ", offset " + std::to_string((int64_t)off) + ", access of " + std::to_string(n));
      if (write && ((*o)->kind == OConst || (*o)->kind == OFunc)) fatal("memory", "write to constant", (*o)->name);
      return {o, off, nullptr};
    }
    E a = substE(p.e, S->bounds);
    if (isC(a)) return resolve(Val(a->c), n, what, write);
    ensureModel();
    uint64_t av = (uint64_t)evalBV(a, S->model);
    uint64_t id = av >> RSHIFT;
    auto iv = ivalE(a, S->bounds);
    if (!((iv.first >> RSHIFT) == (i128)id && (iv.second >> RSHIFT) == (i128)id)) {
      E same = mkEq(mkBin(KLShr, a, mkC(64, RSHIFT)), mkC(64, id));
      if (!decide(same)) { return resolve(Val(a), n, what, write); }
    }
    OP* o = findObj(av);
    if (!o || !*o) fatal("memory", std::string("invalid ") + what, "symbolic address of no live object");
    E off = mkBin(KSub, a, mkC(64, (*o)->base));
    if (n > (*o)->size) fatal("memory", std::string("out-of-bounds ") + what, objDesc(o));
    E oob = mkBin(KUlt, mkC(64, (*o)->size - n), off);
    oob = substE(oob, S->bounds);
    auto iv2 = ivalE(oob, S->bounds);
    if (iv2.second != 0) {
      Model m; bool sp; SatRes r = isTrue(oob) ? SR_SAT : solveSat(S->pc, oob, S->model, m, sp = false, qTimeout);
      if (isTrue(oob)) { m = S->model; sp = !S->modelOk; }
      if (r == SR_UNKNOWN) inconcl = "solver timeout on a bounds check";
      if (r == SR_SAT) {
        std::string d = objDesc(o) + ", access of " + std::to_string(n);
        if (!sp) d += ", offset " + symStr(off, m);
        report("memory", std::string("out-of-bounds ") + what, m, sp, d);
        Model m2; bool sp2; if (isTrue(oob) || solveSat(S->pc, mkNot(oob), S->model, m2, sp2, qTimeout) == SR_UNSAT) throw PathEnd();
        S->model = m2; S->modelOk = !sp2; addPC(mkNot(oob));
        o = findObj(av);
      }
    }
    if (write && ((*o)->kind == OConst || (*o)->kind == OFunc)) fatal("memory", "write to constant", (*o)->name);
    off = substE(off, S->bounds);
    if (isC(off)) return {o, off->c, nullptr};
    return {o, 0, off};
  }
  void ensureModel() {
    if (S->modelOk) return;
    bool sp; Model out; auto r = solveAll(mkC(1, 1), out, sp);
    if (r == SR_UNSAT) throw PathEnd();
    if (r == SR_SAT && !sp) { S->model = out; S->modelOk = true; }
  }
  E freshUndef(unsigned w) { return mkSym("undef#" + std::to_string(S->undefs++), w, w == 1 ? 0 : (w >= 127 ? (i128)1 << 127 : -((i128)1 << (w - 1))), w == 1 ? 1 : ((i128)1 << (w - 1)) - 1, true); }
  static E asBV(E e) { return e->fp ? mkFpBits(e) : e; }
  Val readAt(OP* op, uint64_t off, TInfo t) {
    unsigned n = (t.w + 7) / 8; Obj* o = op->get();
    uint8_t all = 1; bool anyUn = false, allUn = true;
    for (unsigned i = 0; i < n; i++) { uint8_t g = o->tag[off + i]; if (g != 1) all = 0; if (g == 0) anyUn = true; else allUn = false; }
    if (all) {
      if (n <= 8) { uint64_t v = 0; memcpy(&v, &o->data[off], n); if (t.w < 64) v &= (1ull << t.w) - 1; return Val(v); }
      if (t.cls == 1) { long double ld = 0; memcpy(&ld, &o->data[off], 10); return Val(mkF(80, ld)); }
      u128 v = 0; memcpy(&v, &o->data[off], n); return Val(mkC(t.w, v));
    }
    if (anyUn) {
      Obj& w = writable(op); o = &w;
      if (w.sym.empty()) w.sym.resize(w.size);
      if (allUn && n <= 8) { E u = freshUndef(n * 8); for (unsigned i = 0; i < n; i++) { w.tag[off + i] = 2; w.sym[off + i] = {u, (uint8_t)i}; } }
      else for (unsigned i = 0; i < n; i++) if (w.tag[off + i] == 0) { w.tag[off + i] = 2; w.sym[off + i] = {freshUndef(8), 0}; }
    }
    if (o->tag[off] == 2 && o->sym[off].idx == 0) {
      E e = o->sym[off].e; bool same = (e->w + 7u) / 8 == n;
      for (unsigned i = 1; i < n && same; i++) same = o->tag[off + i] == 2 && o->sym[off + i].e == e && o->sym[off + i].idx == i;
      if (same) {
        if (t.cls == 1) { if (e->fp) return fromE(e); return fromE(mkFFromBits(e, t.w)); }
        E b = asBV(e); if (t.w < b->w) b = mkExtract(b, 0, t.w);
        return fromE(substE(b, S->bounds));
      }
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; i++) {
      E b; if (o->tag[off + i] == 1) b = mkC(8, o->data[off + i]); else { E e = asBV(o->sym[off + i].e); unsigned lo = 8 * o->sym[off + i].idx; b = lo + 8 <= e->w ? mkExtract(e, lo, 8) : mkZExt(mkExtract(e, lo, e->w - lo), 8); }
      r = r ? mkConcat(b, r) : b;
    }
    if (t.cls == 1) return fromE(mkFFromBits(r, t.w));
    if (t.w < r->w) r = mkExtract(r, 0, t.w);
    return fromE(r);
  }
  void writeAt(Obj& o, uint64_t off, const Val& v, TInfo t) {
    unsigned n = (t.w + 7) / 8;
    E e = v.e ? v.e : nullptr;
    if (e && e->k == KFConst && e->w == 80) { long double ld = e->f; memcpy(&o.data[off], &ld, 10); std::fill(o.tag.begin() + off, o.tag.begin() + off + 10, 1); return; }
    if (e && e->k == KConst) { u128 x = e->cv(); memcpy(&o.data[off], &x, n); std::fill(o.tag.begin() + off, o.tag.begin() + off + n, 1); return; }
    if (!e) { memcpy(&o.data[off], &v.c, n); std::fill(o.tag.begin() + off, o.tag.begin() + off + n, 1); return; }
    if (o.sym.empty()) o.sym.resize(o.size);
    if (!e->fp && e->w < n * 8) e = mkZExt(e, n * 8);
    if (e->k == KConst) { writeAt(o, off, Val(e), {0, (uint16_t)(n * 8)}); return; }
    for (unsigned i = 0; i < n; i++) { o.tag[off + i] = 2; o.sym[off + i] = {e, (uint8_t)i}; }
  }
  std::vector<uint64_t> candidates(E off, uint64_t size, uint64_t n) {
    auto iv = ivalE(off, S->bounds);
    uint64_t lo = iv.first > 0 ? (uint64_t)iv.first : 0, hi = size - n;
    if (iv.second >= 0 && (u128)iv.second < hi) hi = (uint64_t)iv.second;
    unsigned tz = std::min(knownTZ(off), 12u); uint64_t step = 1ull << tz;
    lo = (lo + step - 1) / step * step;
    std::vector<uint64_t> c;
    if (hi < lo || (hi - lo) / step > 512) return c;
    for (uint64_t x = lo; x <= hi; x += step) c.push_back(x);
    return c;
  }
  Val loadVal(const Val& p, TInfo t) {
    unsigned n = (t.w + 7) / 8;
    Ref r = resolve(p, n, "read", false);
    if (!r.soff) return readAt(r.o, r.off, t);
    auto c = candidates(r.soff, (*r.o)->size, n);
    if (c.empty() || c.size() > 160) { uint64_t a = concretize(Val(r.soff), {0, 64}); return readAt(r.o = findObj((*r.o)->base), a, t); }
    E res = nullptr;
    uint64_t base = (*r.o)->base;
    for (int i = (int)c.size() - 1; i >= 0; i--) { E v = toE(readAt(findObj(base), c[i], t), t); res = res ? mkIte(mkEq(r.soff, mkC(64, c[i])), v, res) : v; }
    return fromE(res);
  }
  void storeVal(const Val& p, const Val& v, TInfo t) {
    unsigned n = (t.w + 7) / 8;
    Ref r = resolve(p, n, "write", true);
    if (!r.soff) { writeAt(writable(r.o), r.off, v, t); return; }
    auto c = candidates(r.soff, (*r.o)->size, n);
    uint64_t base = (*r.o)->base;
    bool anyUninit = false;
    if (!c.empty() && c.size() <= 64) for (auto x : c) for (unsigned i = 0; i < n; i++) if ((*r.o)->tag[x + i] == 0) anyUninit = true;
    if (c.empty() || c.size() > 64 || anyUninit) { uint64_t a = concretize(Val(r.soff), {0, 64}); writeAt(writable(findObj(base)), a, v, t); return; }
    E nv = toE(v, t);
    std::vector<E> nw;
    for (auto x : c) nw.push_back(mkIte(mkEq(r.soff, mkC(64, x)), nv, toE(readAt(findObj(base), x, t), t)));
    unsigned step = c.size() > 1 ? c[1] - c[0] : n;
    if (step < n) { uint64_t a = concretize(Val(r.soff), {0, 64}); writeAt(writable(findObj(base)), a, v, t); return; }
    Obj& o = writable(findObj(base));
    for (size_t i = 0; i < c.size(); i++) writeAt(o, c[i], fromE(nw[i]), t);
  }
  void copyMem(const Val& d, const Val& s, uint64_t n) {
    if (!n) return;
    Val dd = d, ss = s;
    if (dd.e) dd = Val(concretize(dd, {2, 64}));
    if (ss.e) ss = Val(concretize(ss, {2, 64}));
    Ref rs = resolve(ss, n, "read", false), rd = resolve(dd, n, "write", true);
    std::vector<uint8_t> da((*rs.o)->data.begin() + rs.off, (*rs.o)->data.begin() + rs.off + n), ta((*rs.o)->tag.begin() + rs.off, (*rs.o)->tag.begin() + rs.off + n);
    std::vector<SymB> sy; if (!(*rs.o)->sym.empty()) sy.assign((*rs.o)->sym.begin() + rs.off, (*rs.o)->sym.begin() + rs.off + n);
    Obj& o = writable(rd.o);
    std::copy(da.begin(), da.end(), o.data.begin() + rd.off); std::copy(ta.begin(), ta.end(), o.tag.begin() + rd.off);
    if (!sy.empty()) { if (o.sym.empty()) o.sym.resize(o.size); std::copy(sy.begin(), sy.end(), o.sym.begin() + rd.off); }
  }
  void setMem(const Val& d, const Val& v, uint64_t n) {
    if (!n) return;
    Val dd = d; if (dd.e) dd = Val(concretize(dd, {2, 64}));
    Ref rd = resolve(dd, n, "write", true);
    Obj& o = writable(rd.o);
    if (!v.e) { std::fill(o.data.begin() + rd.off, o.data.begin() + rd.off + n, (uint8_t)v.c); std::fill(o.tag.begin() + rd.off, o.tag.begin() + rd.off + n, 1); }
    else for (uint64_t i = 0; i < n; i++) writeAt(o, rd.off + i, v, {0, 8});
  }
  std::string cstr(const Val& p) {
    std::string r; uint64_t a = p.c;
    if (p.e) return "?";
    for (int i = 0; i < 400; i++) { OP* o = findObj(a + i); if (!o || !*o) break; uint64_t off = a + i - (*o)->base; if (off >= (*o)->size || (*o)->tag[off] != 1 || !(*o)->data[off]) break; r += (char)(*o)->data[off]; }
    return r;
  }

  // ------------------------------------------------------------- calls, returns, exceptions
  void pushFrame(Function* F, const std::vector<std::vector<Val>>& args, CallBase* cb, bool noRet = false) {
    if (S->fr.size() > 400) fatal("recursion", "call depth over 400");
    DFunc* d = decode(F); d->used = true;
    Frame f; f.f = d; f.s.resize(d->nslots); f.noRet = noRet;
    for (size_t i = 0; i < d->argSlot.size() && i < args.size(); i++) {
      for (size_t j = 0; j < args[i].size(); j++) {
        Val v = args[i][j];
        if (j < d->argT[i].size() && v.e) { unsigned tw = d->argT[i][j].w; if (!v.e->fp && v.e->w != tw) v = fromE(v.e->w < tw ? mkZExt(v.e, tw) : mkExtract(v.e, 0, tw)); }
        f.s[d->argSlot[i] + j] = v;
      }
      if (F->hasParamAttribute(i, Attribute::ByVal)) {
        uint64_t sz = DLp->getTypeAllocSize(F->getParamByValType(i)); uint64_t a = allocObj(sz, OStack, "byval"); f.allocas.push_back(a >> RSHIFT); copyMem(Val(a), args[i][0], sz); f.s[d->argSlot[i]] = Val(a);
      }
    }
    (void)cb;
    S->fr.push_back(std::move(f));
  }
  void popFrame() { Frame& f = S->fr.back(); for (auto id : f.allocas) removeObj((uint64_t)id << RSHIFT); S->fr.pop_back(); }
  void enter(Frame& f, int bb) {
    f.prev = f.bb; f.bb = bb; f.ip = 0;
    auto& ph = f.f->bbs[bb].phis;
    if (ph.empty()) return;
    auto it = ph.find(f.prev);
    if (it == ph.end()) return;
    static std::vector<Val> tmp; tmp.clear();
    for (auto& m : it->second) for (int i = 0; i < m.n; i++) tmp.push_back(get(f, m.src, i));
    size_t k = 0;
    for (auto& m : it->second) for (int i = 0; i < m.n; i++) f.s[m.dst + i] = tmp[k++];
  }
  std::string tiBaseByTable(const std::string& n) {
    static std::map<std::string, std::string> b = {
      {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
      {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
      {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}};
    auto it = b.find(n); return it == b.end() ? "" : it->second;
  }
  std::vector<std::string> tiBases(const std::string& n) {
    std::vector<std::string> r;
    auto it = byName.find(n);
    if (it != byName.end()) if (auto* g = dyn_cast<GlobalVariable>(it->second)) if (g->hasInitializer()) {
      if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer())) {
        for (unsigned i = 2; i < cs->getNumOperands(); i++) { auto* c = cs->getOperand(i)->stripPointerCasts(); if (auto* b = dyn_cast<GlobalVariable>(c)) if (b->getName().startswith("_ZTI")) r.push_back(b->getName().str()); }
        return r;
      }
    }
    std::string b = tiBaseByTable(n);
    if (!b.empty()) r.push_back(b);
    return r;
  }
  bool isA(const std::string& t, const std::string& base) { if (t == base) return true; for (auto& b : tiBases(t)) if (isA(b, base)) return true; return false; }
  uint64_t tiAddr(const std::string& n) {
    auto it = byName.find(n);
    if (it != byName.end()) return gaddr[it->second];
    auto jt = pseudoTI.find(n);
    if (jt != pseudoTI.end()) return jt->second;
    uint64_t a = ((uint64_t)(0x4000000u + pseudoTI.size()) << RSHIFT) + RMID;  // never dereferenced
    pseudoTI[n] = a; tiName[a] = n;
    return a;
  }
  std::map<std::string, int> selIds;
  int selOf(const std::string& n) { auto it = selIds.find(n); if (it != selIds.end()) return it->second; int k = selIds.size() + 1; selIds[n] = k; return k; }
  void throwNamed(const std::string& ti) { uint64_t o = allocObj(16, OExc, "exception"); S->excs[o] = {o, tiAddr(ti), 0, 0}; unwind(o); }
  [[noreturn]] void unwind(uint64_t exc) {
    S->curExc = exc;
    std::string tn = tiName[S->excs[exc].ti];
    State saved0; (void)saved0;
    // is there any handler? (otherwise std::terminate without unwinding)
    while (!S->fr.empty()) {
      Frame& f = S->fr.back();
      DInst& ci = f.f->bbs[f.bb].ins[f.ip];
      if (f.noRet == 2 || !ci.isInvoke) {
        if (S->fr.size() == 1) fatal("exception", "uncaught exception " + demangle(tn.size() > 4 ? "_Z" + tn.substr(2) : tn));
        popFrame();
        continue;
      }
      int ub = ci.succ[1];
      // landing pad of the unwind destination
      DInst* lp = nullptr;
      for (auto& x : f.f->bbs[ub].ins) if (x.op == Instruction::LandingPad) { lp = &x; break; }
      if (!lp) throw Unsupported{"no landingpad"};
      auto* L = cast<LandingPadInst>(lp->I); int sel = -1;
      for (unsigned i = 0; i < L->getNumClauses() && sel < 0; i++) {
        if (L->isCatch(i)) {
          Constant* c = L->getClause(i);
          if (c->isNullValue()) sel = selOf("<any>");
          else { auto* g = dyn_cast<GlobalVariable>(c->stripPointerCasts()); std::string cn = g->getName().str(); if (isA(tn, cn)) sel = selOf(cn); }
        } else { // filter: exception specification; empty filter = terminate
          auto* arr = L->getClause(i); bool allowed = false;
          for (unsigned j = 0; j < arr->getNumOperands(); j++) { auto* g = dyn_cast<GlobalVariable>(arr->getOperand(j)->stripPointerCasts()); if (g && isA(tn, g->getName().str())) allowed = true; }
          if (!allowed) fatal("terminate", "exception escapes an exception specification");
        }
      }
      if (sel < 0) { if (!L->isCleanup()) { if (S->fr.size() == 1) fatal("exception", "uncaught exception " + tn); popFrame(); continue; } sel = 0; }
      enter(f, ub);
      f.s[lp->dst] = Val(exc); f.s[lp->dst + 1] = Val((uint64_t)sel);
      throw 1;  // control transferred
    }
    fatal("exception", "uncaught exception " + tn);
  }
  void doReturn(const std::vector<Val>& rv) {
    int nr = S->fr.back().noRet;
    popFrame();
    if (S->fr.empty()) throw PathEnd();
    Frame& c = S->fr.back();
    DInst& ci = c.f->bbs[c.bb].ins[c.ip];
    if (!nr && ci.dst >= 0) for (size_t i = 0; i < rv.size(); i++) c.s[ci.dst + i] = rv[i];
    if (ci.isInvoke) enter(c, ci.succ[0]); else c.ip++;
  }

  // ------------------------------------------------------------- harness primitives
  void checkAssert(const Val& v, TInfo t, const std::string& label, const std::string& kind = "assert") {
    asserts[label]++;
    E c = toE(v, t);
    if (c->w > 1) c = mkNot(mkEq(c, mkC(c->w, 0)));
    c = substE(c, S->bounds);
    if (isTrue(c)) { assertsTrivial[label]++; return; }
    E n = mkNot(c);
    if (isFalse(c)) fatal(kind, label);
    if (S->pcSet.count(c)) return;
    auto iv = ivalE(c, S->bounds); if (iv.first == 1) return;
    Model m; bool sp = false; SatRes r;
    evalReset();
    if (S->modelOk && !evalBV(c, S->model)) { r = SR_SAT; m = S->model; }
    else r = solveSat(S->pc, n, S->model, m, sp, qTimeout * 3);
    if (r == SR_UNKNOWN) { inconcl = "solver timeout on assertion: " + label; return; }
    if (r == SR_SAT) {
      if (sp) { // try concrete sampling of inputs within the path for a genuine witness
        report(kind, label, S->model, true, "counterexample only under a non-standard interpretation of uninterpreted functions: " + showE(n, 7));
      } else report(kind, label, m, false, "");
      Model m2; bool sp2; if (solveSat(S->pc, c, S->model, m2, sp2, qTimeout) == SR_UNSAT) throw PathEnd();
      S->model = m2; S->modelOk = !sp2;
    }
    addPC(c);
  }
  void doAssume(E c) {
    if (c->w > 1) c = mkNot(mkEq(c, mkC(c->w, 0)));
    c = substE(c, S->bounds);
    if (isTrue(c)) return;
    if (isFalse(c)) throw PathEnd();
    Model m; bool sp = false;
    if (S->modelOk && evalBV(c, S->model)) { addPC(c); return; }
    SatRes r = solveSat(S->pc, c, S->model, m, sp, qTimeout);
    if (r == SR_UNSAT) throw PathEnd();
    if (r == SR_UNKNOWN) inconcl = "solver timeout on assumption";
    addPC(c);
    if (r == SR_SAT && !sp) { S->model = m; S->modelOk = true; } else S->modelOk = false;
  }
  void pathDone() {
    paths++;
    for (auto& r : S->reached) reach.insert(r);
    totInstr += S->instrs;
    if (!S->modelOk) return;
    bool undefInfl = false; (void)undefInfl;
    // reservoir of witnesses
    witCount++;
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    size_t at;
    if (wits.size() < maxWit) { at = wits.size(); wits.emplace_back(); }
    else { uint64_t k = rng % witCount; if (k >= maxWit) return; at = k; }
    Wit w; evalReset();
    for (auto& in : S->inputs) w.in.push_back({in.name, symStr(in.e, S->model)});
    for (auto& o : S->obs) {
      if (!o.e->fp) { bool un = false; for (uint32_t s : o.e->syms->s) un |= g_syms[s].undef; if (un) continue; w.obs.push_back({o.label, symStr(o.e, S->model)}); }
      else { bool un = false; for (uint32_t s : o.e->syms->s) un |= g_syms[s].undef; if (un) continue; char b[64]; double d = (double)evalF(o.e, S->model); if (d == 0) d = 0; if (d != d) snprintf(b, 64, "nan"); else snprintf(b, 64, "%a", d); w.obs.push_back({o.label, b}); }
    }
    wits[at] = w;
  }

  void setupHandlers();
  Val intrinsic(DInst& x, std::vector<std::vector<Val>>& a, bool& done);
  void step();
  void run(Function* F);
  void runState();
  void out(const std::string& file);
};

static Val bin(unsigned op, TInfo t, const Val& a, const Val& b) {
  unsigned w = t.w;
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c, m = w == 64 ? ~0ull : (1ull << w) - 1;
    switch (op) {
      case Instruction::Add: return Val((x + y) & m);
      case Instruction::Sub: return Val((x - y) & m);
      case Instruction::Mul: return Val((x * y) & m);
      case Instruction::And: return Val(x & y);
      case Instruction::Or: return Val(x | y);
      case Instruction::Xor: return Val(x ^ y);
      case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m);
      case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
      case Instruction::AShr: return Val((uint64_t)((int64_t)sgn(x, w) >> (y >= w ? w - 1 : y)) & m);
      case Instruction::UDiv: return Val(x / y);
      case Instruction::URem: return Val(x % y);
      case Instruction::SDiv: { int64_t p = (int64_t)sgn(x, w), q = (int64_t)sgn(y, w); if (q == -1) return Val((0 - (uint64_t)p) & m); return Val((uint64_t)(p / q) & m); }
      case Instruction::SRem: { int64_t p = (int64_t)sgn(x, w), q = (int64_t)sgn(y, w); if (q == -1) return Val((uint64_t)0); return Val((uint64_t)(p % q) & m); }
    }
  }
  E x = toE(a, t), y = toE(b, t); Kind k;
  switch (op) {
    case Instruction::Add: k = KAdd; break; case Instruction::Sub: k = KSub; break; case Instruction::Mul: k = KMul; break;
    case Instruction::And: k = KAnd; break; case Instruction::Or: k = KOr; break; case Instruction::Xor: k = KXor; break;
    case Instruction::Shl: k = KShl; break; case Instruction::LShr: k = KLShr; break; case Instruction::AShr: k = KAShr; break;
    case Instruction::UDiv: k = KUDiv; break; case Instruction::URem: k = KURem; break; case Instruction::SDiv: k = KSDiv; break;
    default: k = KSRem; break;
  }
  return fromE(mkBin(k, x, y));
}
static Val cmpI(unsigned p, TInfo t, const Val& a, const Val& b) {
  unsigned w = t.w;
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)sgn(x, w), sy = (int64_t)sgn(y, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y;
      case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y; case CmpInst::ICMP_SGT: return sx > sy; case CmpInst::ICMP_SGE: return sx >= sy;
      case CmpInst::ICMP_SLT: return sx < sy; default: return sx <= sy;
    }
  }
  E x = toE(a, t), y = toE(b, t);
  switch (p) {
    case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_UGT: return fromE(mkBin(KUlt, y, x)); case CmpInst::ICMP_UGE: return fromE(mkBin(KUle, y, x));
    case CmpInst::ICMP_ULT: return fromE(mkBin(KUlt, x, y)); case CmpInst::ICMP_ULE: return fromE(mkBin(KUle, x, y));
    case CmpInst::ICMP_SGT: return fromE(mkBin(KSlt, y, x)); case CmpInst::ICMP_SGE: return fromE(mkBin(KSle, y, x));
    case CmpInst::ICMP_SLT: return fromE(mkBin(KSlt, x, y)); default: return fromE(mkBin(KSle, x, y));
  }
}
static Val fbin(uint32_t op, TInfo t, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    if (t.w == 64) { double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); switch (op) { case FO_ADD: r = x + y; break; case FO_SUB: r = x - y; break; case FO_MUL: r = x * y; break; case FO_DIV: r = x / y; break; default: r = fmod(x, y); } uint64_t u; memcpy(&u, &r, 8); return Val(u); }
    if (t.w == 32) { float x, y, r; memcpy(&x, &a.c, 4); memcpy(&y, &b.c, 4); switch (op) { case FO_ADD: r = x + y; break; case FO_SUB: r = x - y; break; case FO_MUL: r = x * y; break; case FO_DIV: r = x / y; break; default: r = fmodf(x, y); } uint32_t u; memcpy(&u, &r, 4); return Val((uint64_t)u); }
  }
  return fromE(mkFOp(t.w, op, toE(a, t), toE(b, t)));
}

void Exec::step() {
  Frame& f = S->fr.back();
  DInst& x = f.f->bbs[f.bb].ins[f.ip];
  x.hit = true;
  S->instrs++;
  auto setN = [&](int i, const Val& v) { f.s[x.dst + i] = v; };
  switch (x.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      for (size_t i = 0; i < x.rt.size(); i++) setN(i, bin(x.op, x.rt[i], get(f, x.o[0], i), get(f, x.o[1], i)));
      break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      for (size_t i = 0; i < x.rt.size(); i++) {
        const Val& d = get(f, x.o[1], i);
        if (!d.e) { if (d.c == 0) fatal("arithmetic", "integer division by zero"); }
        else { E z = mkEq(d.e, mkC(d.e->w, 0)); if (decide(z)) fatal("arithmetic", "integer division by zero"); }
        setN(i, bin(x.op, x.rt[i], get(f, x.o[0], i), get(f, x.o[1], i)));
      }
      break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      uint32_t op = x.op == Instruction::FAdd ? FO_ADD : x.op == Instruction::FSub ? FO_SUB : x.op == Instruction::FMul ? FO_MUL : x.op == Instruction::FDiv ? FO_DIV : FO_REM;
      for (size_t i = 0; i < x.rt.size(); i++) setN(i, fbin(op, x.rt[i], get(f, x.o[0], i), get(f, x.o[1], i)));
      break;
    }
    case Instruction::FNeg: for (size_t i = 0; i < x.rt.size(); i++) setN(i, fromE(mkFOp(x.rt[i].w, FO_NEG, toE(get(f, x.o[0], i), x.rt[i])))); break;
    case Instruction::ICmp: for (size_t i = 0; i < x.rt.size(); i++) setN(i, cmpI(x.pred, x.ot[0][i], get(f, x.o[0], i), get(f, x.o[1], i))); break;
    case Instruction::FCmp:
      for (size_t i = 0; i < x.rt.size(); i++) setN(i, fromE(mkFCmp(x.pred, toE(get(f, x.o[0], i), x.ot[0][i]), toE(get(f, x.o[1], i), x.ot[1][i]))));
      break;
    case Instruction::Select: {
      bool vec = x.ot[0].size() > 1;
      for (size_t i = 0; i < x.rt.size(); i++) {
        const Val& c = get(f, x.o[0], vec ? i : 0);
        if (!c.e) setN(i, get(f, x.o[(c.c & 1) ? 1 : 2], i));
        else { E ce = substE(c.e, S->bounds); setN(i, fromE(mkIte(ce, toE(get(f, x.o[1], i), x.rt[i]), toE(get(f, x.o[2], i), x.rt[i])))); }
      }
      break;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
      for (size_t i = 0; i < x.rt.size(); i++) {
        const Val& v = get(f, x.o[0], i); unsigned sw = x.ot[0][i].w, dw = x.rt[i].w;
        if (!v.e && dw <= 64) { uint64_t m = dw == 64 ? ~0ull : (1ull << dw) - 1; setN(i, Val(x.op == Instruction::SExt ? (uint64_t)(int64_t)sgn(v.c, sw) & m : v.c & m)); }
        else { E e = toE(v, x.ot[0][i]); setN(i, fromE(dw < sw ? mkExtract(e, 0, dw) : dw == sw ? e : x.op == Instruction::SExt ? mkSExt(e, dw) : mkZExt(e, dw))); }
      }
      break;
    case Instruction::FPExt: case Instruction::FPTrunc:
      for (size_t i = 0; i < x.rt.size(); i++) setN(i, fromE(mkFOp(x.rt[i].w, x.op == Instruction::FPExt ? FO_EXT : FO_TRUNCFP, toE(get(f, x.o[0], i), x.ot[0][i]))));
      break;
    case Instruction::FPToSI: case Instruction::FPToUI:
      for (size_t i = 0; i < x.rt.size(); i++) setN(i, fromE(mkFToInt(toE(get(f, x.o[0], i), x.ot[0][i]), x.rt[i].w, x.op == Instruction::FPToSI)));
      break;
    case Instruction::SIToFP: case Instruction::UIToFP:
      for (size_t i = 0; i < x.rt.size(); i++) setN(i, fromE(mkIntToF(toE(get(f, x.o[0], i), x.ot[0][i]), x.rt[i].w, x.op == Instruction::SIToFP)));
      break;
    case Instruction::BitCast: case Instruction::AddrSpaceCast: {
      if (x.rt.size() != x.ot[0].size()) throw Unsupported{"vector bitcast"};
      for (size_t i = 0; i < x.rt.size(); i++) {
        const Val& v = get(f, x.o[0], i);
        if (!v.e) { setN(i, v); continue; }
        E e = v.e; bool df = x.rt[i].cls == 1;
        if (x.rt[i].w != x.ot[0][i].w) throw Unsupported{"bitcast width"};
        if (df && !e->fp) e = mkFFromBits(e, x.rt[i].w); else if (!df && e->fp) e = mkFpBits(e);
        setN(i, fromE(e));
      }
      break;
    }
    case Instruction::Freeze: for (size_t i = 0; i < x.rt.size(); i++) setN(i, get(f, x.o[0], i)); break;
    case Instruction::GetElementPtr: {
      const Val& b = get(f, x.o[0]);
      bool sym = b.e != nullptr; for (auto& g : x.gepV) if (get(f, x.o[g.first]).e) sym = true;
      if (!sym) { uint64_t a = b.c + x.gepC; for (auto& g : x.gepV) { const Val& v = get(f, x.o[g.first]); a += (uint64_t)((int64_t)sgn(v.c, x.ot[g.first][0].w) * g.second); } setN(0, Val(a)); }
      else {
        E a = mkC(64, x.gepC);
        for (auto& g : x.gepV) { E v = toE(get(f, x.o[g.first]), x.ot[g.first][0]); if (v->w < 64) v = mkSExt(v, 64); else if (v->w > 64) v = mkExtract(v, 0, 64); a = mkBin(KAdd, a, mkBin(KMul, v, mkC(64, (uint64_t)g.second))); }
        setN(0, fromE(mkBin(KAdd, toE(b, {2, 64}), a)));
      }
      break;
    }
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(x.I); uint64_t n = concretize(get(f, x.o[0]), x.ot[0][0]) * DLp->getTypeAllocSize(ai->getAllocatedType());
      uint64_t a = allocObj(n, OStack, "stack"); f.allocas.push_back(a >> RSHIFT); setN(0, Val(a)); break;
    }
    case Instruction::Load: {
      Val p = get(f, x.o[0]);
      for (size_t i = 0; i < x.rt.size(); i++) { Val q = p; if (x.offs[i]) q = q.e ? fromE(mkBin(KAdd, q.e, mkC(64, x.offs[i]))) : Val(q.c + x.offs[i]); Val v = loadVal(q, x.rt[i]); f.s[x.dst + i] = v; }
      break;
    }
    case Instruction::Store: {
      Val p = get(f, x.o[1]);
      for (size_t i = 0; i < x.ot[0].size(); i++) { Val q = p; if (x.offs[i]) q = q.e ? fromE(mkBin(KAdd, q.e, mkC(64, x.offs[i]))) : Val(q.c + x.offs[i]); storeVal(q, get(f, x.o[0], i), x.ot[0][i]); }
      break;
    }
    case Instruction::ExtractValue: for (size_t i = 0; i < x.rt.size(); i++) setN(i, get(f, x.o[0], x.idx + i)); break;
    case Instruction::InsertValue: for (size_t i = 0; i < x.rt.size(); i++) setN(i, get(f, x.o[0], i)); for (size_t i = 0; i < x.ot[1].size(); i++) setN(x.idx + i, get(f, x.o[1], i)); break;
    case Instruction::ExtractElement: { uint64_t k = concretize(get(f, x.o[1]), x.ot[1][0]); setN(0, get(f, x.o[0], k)); break; }
    case Instruction::InsertElement: { uint64_t k = concretize(get(f, x.o[2]), x.ot[2][0]); for (size_t i = 0; i < x.rt.size(); i++) setN(i, get(f, x.o[0], i)); setN(k, get(f, x.o[1])); break; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(x.I); int n = x.ot[0].size(); std::vector<Val> r; for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? Val((uint64_t)0) : m < n ? get(f, x.o[0], m) : get(f, x.o[1], m - n)); for (size_t i = 0; i < r.size(); i++) setN(i, r[i]); break; }
    case Instruction::Br:
      if (x.o.empty()) { enter(f, x.succ[0]); return; }
      else { const Val& c = get(f, x.o[0]); bool t = c.e ? decide(c.e) : (c.c & 1); enter(f, x.succ[t ? 0 : 1]); return; }
    case Instruction::Switch: {
      Val v = get(f, x.o[0]);
      if (v.e) v.e = substE(v.e, S->bounds);
      if (!v.e || isC(v.e)) { uint64_t k = v.e ? v.e->c : v.c; for (auto& c : x.cases) if (c.first == k) { enter(f, c.second); return; } enter(f, x.defBB); return; }
      for (auto& c : x.cases) if (decide(mkEq(v.e, mkC(x.t.w, c.first)))) { enter(f, c.second); return; }
      enter(f, x.defBB); return;
    }
    case Instruction::Ret: { std::vector<Val> rv; if (!x.o.empty()) for (size_t i = 0; i < x.ot[0].size(); i++) rv.push_back(get(f, x.o[0], i)); doReturn(rv); return; }
    case Instruction::Unreachable: fatal("unreachable", "unreachable code executed (undefined behaviour)");
    case Instruction::LandingPad: break;
    case Instruction::Resume: { uint64_t e = get(f, x.o[0], 0).c; if (S->fr.size() == 1) fatal("exception", "uncaught exception " + demangle("_Z" + tiName[S->excs[e].ti].substr(2))); popFrame(); unwind(e); }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: {
      if (auto* rmw = dyn_cast<AtomicRMWInst>(x.I)) {
        Val old = loadVal(get(f, x.o[0]), x.rt[0]); Val nv = get(f, x.o[1]);
        if (rmw->getOperation() == AtomicRMWInst::Add) nv = bin(Instruction::Add, x.rt[0], old, nv); else if (rmw->getOperation() == AtomicRMWInst::Sub) nv = bin(Instruction::Sub, x.rt[0], old, nv); else if (rmw->getOperation() != AtomicRMWInst::Xchg) throw Unsupported{"atomicrmw"};
        storeVal(get(f, x.o[0]), nv, x.rt[0]); setN(0, old); break;
      }
      throw Unsupported{"cmpxchg"};
    }
    case Instruction::VAArg: throw Unsupported{"va_arg"};
    case Instruction::Call: case Instruction::Invoke: {
      if (cast<CallBase>(x.I)->isInlineAsm()) throw Unsupported{"inline assembly"};
      std::vector<std::vector<Val>> a(x.ot.size());
      for (size_t i = 0; i < x.ot.size(); i++) for (size_t j = 0; j < x.ot[i].size(); j++) a[i].push_back(get(f, x.o[i], j));
      Function* cal = x.callee; Handler* h = x.h;
      if (!cal) {
        Val p = a.back()[0]; a.pop_back(); uint64_t pa = concretize(p, {2, 64});
        auto it = faddr.find(pa);
        if (it == faddr.end()) fatal("memory", "call through an invalid function pointer");
        cal = it->second; auto ht = handlers.find(cal->getName().str()); if (ht != handlers.end()) h = &ht->second;
      }
      if (cal->isIntrinsic()) {
        bool done = true; Val r = intrinsic(x, a, done);
        if (x.dst >= 0 && x.rt.size() == 1) S->fr.back().s[x.dst] = r;
        Frame& ff = S->fr.back();
        if (x.isInvoke) enter(ff, x.succ[0]); else ff.ip++;
        return;
      }
      if (h) {
        Val r = h->f(*this, *S, x, a);
        Frame& ff = S->fr.back();
        if (x.dst >= 0 && x.rt.size() >= 1) ff.s[x.dst] = r;
        if (x.isInvoke) enter(ff, x.succ[0]); else ff.ip++;
        return;
      }
      if (!cal->isDeclaration()) { pushFrame(cal, a, cast<CallBase>(x.I)); return; }
      throw Unsupported{"external function " + cal->getName().str() + " (" + demangle(cal->getName().str()) + ") at " + curLoc()};
    }
    default: { std::string s; raw_string_ostream os(s); x.I->print(os); throw Unsupported{"instruction " + s}; }
  }
  S->fr.back().ip++;
}

static uint32_t fpFn(const std::string& base) {
  static std::map<std::string, uint32_t> m = {{"fabs", FO_ABS}, {"floor", FO_FLOOR}, {"ceil", FO_CEIL}, {"trunc", FO_TRUNC}, {"round", FO_ROUND}, {"rint", FO_RINT}, {"nearbyint", FO_RINT}, {"sqrt", FO_SQRT}, {"fmin", FO_MIN}, {"fmax", FO_MAX}, {"copysign", FO_COPYSIGN}, {"fmod", FO_REM}, {"minnum", FO_MIN}, {"maxnum", FO_MAX}};
  auto it = m.find(base);
  if (it != m.end()) return it->second;
  return namedFn(base);
}

Val Exec::intrinsic(DInst& x, std::vector<std::vector<Val>>& a, bool& done) {
  auto* cb = cast<CallBase>(x.I); auto id = cb->getCalledFunction()->getIntrinsicID();
  auto lanes = [&](std::function<Val(int)> fn) { if (x.rt.size() == 1) return fn(0); for (size_t i = 0; i < x.rt.size(); i++) S->fr.back().s[x.dst + i] = fn(i); return S->fr.back().s[x.dst]; };
  auto e = [&](int k, int i) { return toE(a[k][i], x.ot[k][i]); };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(a[2][0], x.ot[2][0]); Val d = a[0][0], s = a[1][0]; copyMem(d, s, n); return Val(); }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(a[2][0], x.ot[2][0]); setMem(a[0][0], a[1][0], n); return Val(); }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
      // a variable (re-)entering or leaving scope has indeterminate contents
      if (!a[1][0].e) { OP* o = findObj(a[1][0].c); if (o && *o && (*o)->kind == OStack && (*o)->base == a[1][0].c) { Obj& w = writable(o); std::fill(w.tag.begin(), w.tag.end(), 0); } }
      return Val();
    }
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::invariant_end: return Val();
    case Intrinsic::invariant_start: case Intrinsic::stacksave: return Val((uint64_t)0);
    case Intrinsic::stackrestore: return Val();
    case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0][0];
    case Intrinsic::is_constant: return Val((uint64_t)0);
    case Intrinsic::objectsize: return Val(~0ull);
    case Intrinsic::trap: case Intrinsic::ubsantrap: fatal("trap", "trap executed");
    case Intrinsic::eh_typeid_for: { auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()); return Val((uint64_t)selOf(g ? g->getName().str() : "<any>")); }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
      return lanes([&](int i) { return fromE(mkMinMax(id == Intrinsic::umax || id == Intrinsic::smax, id == Intrinsic::smax || id == Intrinsic::smin, e(0, i), e(1, i))); });
    case Intrinsic::abs: return lanes([&](int i) { return fromE(mkAbs(e(0, i))); });
    case Intrinsic::ctpop: return lanes([&](int i) { return fromE(mkCtpop(e(0, i))); });
    case Intrinsic::ctlz: return lanes([&](int i) { return fromE(mkClz(e(0, i))); });
    case Intrinsic::cttz: return lanes([&](int i) { return fromE(mkCtz(e(0, i))); });
    case Intrinsic::bswap: return lanes([&](int i) { return fromE(mkBswap(e(0, i))); });
    case Intrinsic::fshl: case Intrinsic::fshr: return lanes([&](int i) { return fromE(mkFunnel(id == Intrinsic::fshl, e(0, i), e(1, i), e(2, i))); });
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      int k = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? 0 : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? 1 : 2;
      Frame& f = S->fr.back();
      E p = e(0, 0), q = e(1, 0);
      f.s[x.dst] = fromE(mkBin(k == 0 ? KAdd : k == 1 ? KSub : KMul, p, q)); f.s[x.dst + 1] = fromE(mkOverflow(k, sg, p, q));
      return f.s[x.dst];
    }
    case Intrinsic::usub_sat: return lanes([&](int i) { E p = e(0, i), q = e(1, i); return fromE(mkIte(mkBin(KUlt, p, q), mkC(p->w, 0), mkBin(KSub, p, q))); });
    case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::sqrt: {
      uint32_t op = id == Intrinsic::fabs ? FO_ABS : id == Intrinsic::floor ? FO_FLOOR : id == Intrinsic::ceil ? FO_CEIL : id == Intrinsic::trunc ? FO_TRUNC : id == Intrinsic::round ? FO_ROUND : id == Intrinsic::sqrt ? FO_SQRT : FO_RINT;
      return lanes([&](int i) { return fromE(mkFOp(x.rt[i].w, op, e(0, i))); });
    }
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::copysign: return lanes([&](int i) { return fromE(mkFOp(x.rt[i].w, id == Intrinsic::minnum ? FO_MIN : id == Intrinsic::maxnum ? FO_MAX : FO_COPYSIGN, e(0, i), e(1, i))); });
    case Intrinsic::fmuladd: return lanes([&](int i) { return fromE(mkFOp(x.rt[i].w, FO_ADD, mkFOp(x.rt[i].w, FO_MUL, e(0, i), e(1, i)), e(2, i))); });
    case Intrinsic::is_fpclass: return fromE(mkFClass(e(0, 0), (unsigned)a[1][0].c));
    case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: {
      std::string n = id == Intrinsic::sin ? "sin" : id == Intrinsic::cos ? "cos" : id == Intrinsic::exp ? "exp" : id == Intrinsic::exp2 ? "exp2" : id == Intrinsic::log ? "log" : id == Intrinsic::log2 ? "log2" : "log10";
      return lanes([&](int i) { return fromE(mkFOp(x.rt[i].w, fpFn(n), e(0, i))); });
    }
    case Intrinsic::pow: return lanes([&](int i) { return fromE(mkFOp(x.rt[i].w, fpFn("pow"), e(0, i), e(1, i))); });
    case Intrinsic::powi: return lanes([&](int i) { return fromE(mkFOp(x.rt[i].w, fpFn("pow"), e(0, i), mkIntToF(e(1, 0), x.rt[i].w, true))); });
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return Val();
    case Intrinsic::vector_reduce_add: { E r = e(0, 0); for (size_t i = 1; i < a[0].size(); i++) r = mkBin(KAdd, r, e(0, i)); return fromE(r); }
    default: break;
  }
  done = false;
  throw Unsupported{"intrinsic " + cb->getCalledFunction()->getName().str()};
}

void Exec::setupHandlers() {
  auto H = [&](std::vector<std::string> ns, HFn f) { for (auto& n : ns) handlers[n].f = f; };
  typedef std::vector<std::vector<Val>> AV;
  // ---- harness
  H({"vf_int"}, [](Exec& X, State& S, DInst& x, AV& a) {
    std::string n = X.cstr(a[0][0]); i128 lo = (int64_t)a[1][0].c, hi = (int64_t)a[2][0].c;
    if (a[1][0].e || a[2][0].e) throw Unsupported{"vf_int bounds must be concrete"};
    int k = S.nameCount[n]++; std::string full = n + "#" + std::to_string(k);
    if (lo > hi) throw PathEnd();
    E e = lo == hi ? mkC(64, (u128)lo) : mkSym(full, 64, lo, hi, false);
    if (S.model && S.model->size() < g_syms.size()) { auto m = std::make_shared<ModelV>(*S.model); size_t o = m->size(); Model none; for (size_t i = o; i < g_syms.size(); i++) m->push_back(modelGet(none, i)); S.model = m; evalReset(); }
    S.inputs.push_back({full, e});
    auto& b = X.syms[n]; b.first = i128s(lo); b.second = i128s(hi);
    return fromE(e);
  });
  H({"vf_assume"}, [](Exec& X, State& S, DInst& x, AV& a) { X.doAssume(toE(a[0][0], x.ot[0][0])); return Val(); });
  H({"vf_assert"}, [](Exec& X, State& S, DInst& x, AV& a) { X.checkAssert(a[0][0], x.ot[0][0], X.cstr(a[1][0])); return Val(); });
  H({"vf_reach"}, [](Exec& X, State& S, DInst& x, AV& a) { S.reached.push_back(X.cstr(a[0][0])); return Val(); });
  H({"vf_split"}, [](Exec& X, State& S, DInst& x, AV& a) { return Val(X.concretize(a[0][0], x.ot[0][0])); });
  H({"vf_heap_live"}, [](Exec& X, State& S, DInst& x, AV& a) { return Val(S.heapLive); });
  H({"vf_heap_skew"}, [](Exec& X, State& S, DInst& x, AV& a) { S.skew = X.concretize(a[0][0], x.ot[0][0]); return Val(); });
  H({"vf_observe"}, [](Exec& X, State& S, DInst& x, AV& a) { S.obs.push_back({X.cstr(a[0][0]), toE(a[1][0], x.ot[1][0]), false}); return Val(); });
  H({"vf_observe_d"}, [](Exec& X, State& S, DInst& x, AV& a) { S.obs.push_back({X.cstr(a[0][0]), toE(a[1][0], x.ot[1][0]), true}); return Val(); });
  H({"vf_same_d", "vf_same_f"}, [](Exec& X, State& S, DInst& x, AV& a) { E r = mkFSame(toE(a[0][0], x.ot[0][0]), toE(a[1][0], x.ot[1][0])); unsigned w = x.rt[0].w; return fromE(w == 1 ? r : mkZExt(r, w)); });
  H({"vf_is_concrete"}, [](Exec& X, State& S, DInst& x, AV& a) { bool c = !a[0][0].e || isC(substE(a[0][0].e, S.bounds)); return Val((uint64_t)c); });
  H({"vf_symbolic"}, [](Exec& X, State& S, DInst& x, AV& a) { return Val((uint64_t)1); });
  // ---- heap
  auto mallocN = [](Exec& X, State& S, uint64_t n, char how) { uint64_t p = X.allocObj(n, OHeap, "heap", S.skew); (*X.findObj(p))->how = how; S.heapLive++; return p; };
  auto newH = [=](char how) { return HFn([=](Exec& X, State& S, DInst& x, AV& a) {
    if (a[0][0].e) { // huge sizes do not fit: std::bad_alloc
      E big = mkBin(KUlt, mkC(64, 1ull << 32), a[0][0].e);
      if (X.decide(big)) { X.throwNamed("_ZTISt9bad_alloc"); }
    }
    uint64_t n = X.concretize(a[0][0], x.ot[0][0]);
    if (n > (1ull << 32)) X.throwNamed("_ZTISt9bad_alloc");
    return Val(mallocN(X, S, n, how)); }); };
  H({"_Znwm"}, newH('n')); H({"_Znam"}, newH('a'));
  H({"_ZnwmRKSt9nothrow_t"}, newH('n')); H({"_ZnamRKSt9nothrow_t"}, newH('a'));
  H({"malloc"}, [=](Exec& X, State& S, DInst& x, AV& a) {
    if (a[0][0].e) { E big = mkBin(KUlt, mkC(64, 1ull << 32), a[0][0].e); if (X.decide(big)) return Val((uint64_t)0); }
    uint64_t n = X.concretize(a[0][0], x.ot[0][0]); if (n > (1ull << 32)) return Val((uint64_t)0); return Val(mallocN(X, S, n, 'm')); });
  H({"fftw_malloc", "fftwf_malloc"}, handlers["malloc"].f);
  H({"calloc"}, [=](Exec& X, State& S, DInst& x, AV& a) { uint64_t n = X.concretize(a[0][0], x.ot[0][0]) * X.concretize(a[1][0], x.ot[1][0]); uint64_t p = mallocN(X, S, n, 'm'); if (n) X.setMem(Val(p), Val((uint64_t)0), n); return Val(p); });
  H({"aligned_alloc"}, [=](Exec& X, State& S, DInst& x, AV& a) { uint64_t n = X.concretize(a[1][0], x.ot[1][0]); uint64_t sk = S.skew; S.skew = 0; uint64_t p = mallocN(X, S, n, 'm'); S.skew = sk; return Val(p); });
  H({"posix_memalign"}, [=](Exec& X, State& S, DInst& x, AV& a) { uint64_t n = X.concretize(a[2][0], x.ot[2][0]); uint64_t sk = S.skew; S.skew = 0; uint64_t p = mallocN(X, S, n, 'm'); S.skew = sk; X.storeVal(a[0][0], Val(p), {2, 64}); return Val((uint64_t)0); });
  auto freeH = [](char how) { return HFn([=](Exec& X, State& S, DInst& x, AV& a) {
    uint64_t p = X.concretize(a[0][0], x.ot[0][0]);
    if (!p) return Val();
    OP* o = X.findObj(p);
    if (!o || !*o) X.fatal("memory", "double free or free of an invalid pointer");
    if ((*o)->kind != OHeap) X.fatal("memory", "free of a non-heap object");
    if ((*o)->base != p) X.fatal("memory", "free of an interior pointer");
    if ((*o)->how != how) X.fatal("memory", "mismatched allocation and deallocation functions");
    S.heapLive--; X.removeObj(p);
    return Val(); }); };
  H({"free", "fftw_free", "fftwf_free"}, freeH('m'));
  H({"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t"}, freeH('n')); H({"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}, freeH('a'));
  auto anew = [=](char how) { return HFn([=](Exec& X, State& S, DInst& x, AV& a) { uint64_t n = X.concretize(a[0][0], x.ot[0][0]); uint64_t sk = S.skew; S.skew = 0; uint64_t p = mallocN(X, S, n, how); S.skew = sk; return Val(p); }); };
  H({"_ZnwmSt11align_val_t"}, anew('N')); H({"_ZnamSt11align_val_t"}, anew('A'));
  H({"_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}, freeH('N')); H({"_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}, freeH('A'));
  // ---- mem*
  H({"memcpy", "memmove"}, [](Exec& X, State& S, DInst& x, AV& a) { uint64_t n = X.concretize(a[2][0], x.ot[2][0]); X.copyMem(a[0][0], a[1][0], n); return a[0][0]; });
  H({"memset"}, [](Exec& X, State& S, DInst& x, AV& a) { uint64_t n = X.concretize(a[2][0], x.ot[2][0]); Val b = a[1][0]; if (b.e) b = fromE(mkExtract(b.e, 0, 8)); else b.c &= 255; X.setMem(a[0][0], b, n); return a[0][0]; });
  H({"strlen"}, [](Exec& X, State& S, DInst& x, AV& a) {
    uint64_t p = X.concretize(a[0][0], x.ot[0][0]), n = 0;
    for (;; n++) { Val v = X.loadVal(Val(p + n), {0, 8}); if (v.e ? X.decide(mkEq(v.e, mkC(8, 0))) : !(v.c & 255)) break; }
    return Val(n); });
  H({"memcmp", "bcmp"}, [](Exec& X, State& S, DInst& x, AV& a) {
    uint64_t n = X.concretize(a[2][0], x.ot[2][0]); uint64_t p = X.concretize(a[0][0], x.ot[0][0]), q = X.concretize(a[1][0], x.ot[1][0]);
    // equality at the widest granularity at which memory was written; order byte by byte
    std::function<E(uint64_t, unsigned)> eqAt = [&](uint64_t i, unsigned w) -> E {
      E u = toE(X.loadVal(Val(p + i), {0, 8 * w}), {0, 8 * w}), v = toE(X.loadVal(Val(q + i), {0, 8 * w}), {0, 8 * w});
      if (w > 1 && (u->k == KConcat || v->k == KConcat)) return mkBin(KAnd, eqAt(i, w / 2), eqAt(i + w / 2, w / 2));
      return mkEq(u, v); };
    E all = mkC(1, 1);
    for (uint64_t i = 0; i < n && !isFalse(all);) { unsigned w = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1; all = mkBin(KAnd, all, eqAt(i, w)); i += w; }
    if (isTrue(all)) return Val((uint64_t)0);
    E less = mkC(1, 0);
    if (x.callee && x.callee->getName() == "bcmp") less = mkC(1, 1);
    else for (int64_t i = (int64_t)n - 1; i >= 0; i--) { E u = toE(X.loadVal(Val(p + i), {0, 8}), {0, 8}), v = toE(X.loadVal(Val(q + i), {0, 8}), {0, 8}); less = mkIte(mkEq(u, v), less, mkBin(KUlt, u, v)); }
    E r = mkIte(all, mkC(32, 0), mkIte(less, mkC(32, (u128)-1), mkC(32, 1)));
    return fromE(r); });
  H({"strcmp"}, [](Exec& X, State& S, DInst& x, AV& a) {
    uint64_t p = X.concretize(a[0][0], x.ot[0][0]), q = X.concretize(a[1][0], x.ot[1][0]);
    for (;; p++, q++) { E u = toE(X.loadVal(Val(p), {0, 8}), {0, 8}), v = toE(X.loadVal(Val(q), {0, 8}), {0, 8}); if (!X.decide(mkEq(u, v))) return Val((uint64_t)(uint32_t)(X.decide(mkBin(KUlt, u, v)) ? -1 : 1)); if (X.decide(mkEq(u, mkC(8, 0)))) return Val((uint64_t)0); } });
  H({"memchr"}, [](Exec& X, State& S, DInst& x, AV& a) {
    uint64_t p = X.concretize(a[0][0], x.ot[0][0]), c = X.concretize(a[1][0], x.ot[1][0]) & 255, n = X.concretize(a[2][0], x.ot[2][0]);
    for (uint64_t i = 0; i < n; i++) { Val u = X.loadVal(Val(p + i), {0, 8}); if (u.e ? X.decide(mkEq(u.e, mkC(8, c))) : (u.c & 255) == c) return Val(p + i); }
    return Val((uint64_t)0); });
  // ---- exceptions
  H({"__cxa_allocate_exception"}, [](Exec& X, State& S, DInst& x, AV& a) { uint64_t n = X.concretize(a[0][0], x.ot[0][0]); uint64_t o = X.allocObj(n, OExc, "exception"); S.excs[o] = {o, 0, 0, 0}; return Val(o); });
  H({"__cxa_free_exception"}, [](Exec& X, State& S, DInst& x, AV& a) { X.removeObj(a[0][0].c); S.excs.erase(a[0][0].c); return Val(); });
  H({"__cxa_throw"}, [](Exec& X, State& S, DInst& x, AV& a) -> Val { uint64_t o = a[0][0].c; S.excs[o] = {o, a[1][0].c, a[2][0].c, 0}; X.unwind(o); });
  H({"__cxa_begin_catch"}, [](Exec& X, State& S, DInst& x, AV& a) { uint64_t o = a[0][0].c; S.excs[o].handlers++; S.caught.push_back(o); return Val(o); });
  H({"__cxa_get_exception_ptr"}, [](Exec& X, State& S, DInst& x, AV& a) { return a[0][0]; });
  H({"__cxa_end_catch"}, [](Exec& X, State& S, DInst& x, AV& a) {
    if (S.caught.empty()) return Val();
    uint64_t o = S.caught.back(); S.caught.pop_back(); auto it = S.excs.find(o);
    if (it != S.excs.end() && --it->second.handlers <= 0) {
      uint64_t d = it->second.dtor; it->second.dtor = 0;
      if (d && X.faddr.count(d) && !X.faddr[d]->isDeclaration() && !X.handlers.count(X.faddr[d]->getName().str())) { X.pushFrame(X.faddr[d], {{Val(o)}}, nullptr, true); throw 1; }
    }
    return Val(); });
  H({"__cxa_rethrow"}, [](Exec& X, State& S, DInst& x, AV& a) -> Val { uint64_t o = S.caught.back(); S.excs[o].handlers++; X.unwind(o); });
  H({"_Unwind_Resume"}, [](Exec& X, State& S, DInst& x, AV& a) -> Val { X.popFrame(); X.unwind(a[0][0].c); });
  H({"_ZSt9terminatev", "__clang_call_terminate"}, [](Exec& X, State& S, DInst& x, AV& a) -> Val { X.fatal("terminate", "std::terminate called"); });
  H({"abort", "exit", "_exit", "__assert_fail", "__cxa_pure_virtual", "quick_exit"}, [](Exec& X, State& S, DInst& x, AV& a) -> Val { X.fatal("abort", "abort/exit/assertion failure"); });
  auto thr = [&](const char* fn, const char* ti) { std::string t = ti; H({fn}, [t](Exec& X, State& S, DInst& x, AV& a) -> Val { X.throwNamed(t); return Val(); }); };
  thr("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"); thr("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"); thr("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range");
  thr("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"); thr("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"); thr("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc");
  thr("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"); thr("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"); thr("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast");
  thr("__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"); thr("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"); thr("__cxa_bad_cast", "_ZTISt8bad_cast");
  H({"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt9bad_allocD2Ev"}, [](Exec& X, State& S, DInst& x, AV& a) { return Val(); });
  // ---- misc environment: output and process-exit hooks have no observable effect here
  H({"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "fwrite", "__cxa_atexit", "__cxa_thread_atexit", "atexit"}, [](Exec& X, State& S, DInst& x, AV& a) { return Val((uint64_t)0); });
  H({"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}, [](Exec& X, State& S, DInst& x, AV& a) { return Val(); });
  H({"__cxa_guard_acquire"}, [](Exec& X, State& S, DInst& x, AV& a) { Val v = X.loadVal(a[0][0], {0, 8}); return Val((uint64_t)(v.c ? 0 : 1)); });
  H({"__cxa_guard_release"}, [](Exec& X, State& S, DInst& x, AV& a) { X.storeVal(a[0][0], Val((uint64_t)1), {0, 8}); return Val(); });
  H({"__cxa_guard_abort"}, [](Exec& X, State& S, DInst& x, AV& a) { return Val(); });
  // ---- libm
  for (std::string n : {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "log", "log2", "log10", "cbrt", "erf", "erfc", "lgamma", "tgamma", "expm1", "log1p", "logb", "fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "sqrt"})
    for (std::string suf : {"", "f", "l"}) H({n + suf}, [n](Exec& X, State& S, DInst& x, AV& a) { return fromE(mkFOp(x.rt[0].w, fpFn(n), toE(a[0][0], x.ot[0][0]))); });
  for (std::string n : {"pow", "atan2", "hypot", "fmod", "fmin", "fmax", "copysign", "fdim"})
    for (std::string suf : {"", "f", "l"}) H({n + suf}, [n](Exec& X, State& S, DInst& x, AV& a) { return fromE(mkFOp(x.rt[0].w, fpFn(n), toE(a[0][0], x.ot[0][0]), toE(a[1][0], x.ot[1][0]))); });
  for (std::string n : {"cabs", "carg"}) // one vector argument or two scalar ones
    for (std::string suf : {"", "f"}) H({n + suf}, [n](Exec& X, State& S, DInst& x, AV& a) {
      const bool v = a.size() == 1;
      E re = toE(a[0][0], x.ot[0][0]), im = v ? toE(a[0][1], x.ot[0][1]) : toE(a[1][0], x.ot[1][0]);
      return fromE(n == "cabs" ? mkFOp(x.rt[0].w, fpFn("hypot"), re, im) : mkFOp(x.rt[0].w, fpFn("atan2"), im, re)); });
  for (std::string suf : {"", "f", "l"}) H({"ilogb" + suf}, [](Exec& X, State& S, DInst& x, AV& a) { return fromE(mkFToInt(mkFOp(x.ot[0][0].w, fpFn("ilogb"), toE(a[0][0], x.ot[0][0])), 32, true)); });
  for (std::string n : {"lround", "llround", "lrint", "llrint"})
    for (std::string suf : {"", "f"}) H({n + suf}, [n](Exec& X, State& S, DInst& x, AV& a) { return fromE(mkFToInt(mkFOp(x.ot[0][0].w, n.find("round") != std::string::npos ? FO_ROUND : FO_RINT, toE(a[0][0], x.ot[0][0])), 64, true)); });
}

void Exec::runState() {
  for (;;) {
    if ((S->instrs & 0xfff) == 0xfff) {
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > maxSec) throw Budget{"time"};
      struct rusage ru; getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 6000000) throw Budget{"memory"};
    }
    if (S->instrs > maxInstr) fatal("nontermination", "instruction budget of one path exceeded");
    try { step(); } catch (int) {}
  }
}
void Exec::run(Function* F) {
  t0 = std::chrono::steady_clock::now();
  setupHandlers();
  setupGlobals();
  auto s0 = std::make_unique<State>();
  S = s0.get();
  S->glob = g0;
  try {
    // every function must have its address before decoding; pseudo type infos live far away
    S->nextId = g0->size() + 16;
    S->model = std::make_shared<ModelV>();
    // static initialisers
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) {
      auto* fn = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
      if (!fn || fn->isDeclaration()) continue;
      S->fr.clear(); pushFrame(fn, {}, nullptr);
      try { runState(); } catch (PathEnd&) {}
    }
    S->glob = std::make_shared<std::vector<OP>>(*S->glob);
    S->fr.clear(); pushFrame(F, {}, nullptr); S->instrs = 0;
  } catch (Unsupported& u) { status = "unsupported: " + u.what; return; } catch (Budget& b) { status = "budget: " + b.what; return; }
  work.push_back(std::move(s0));
  while (!work.empty() && !stop) {
    std::unique_ptr<State> cur = std::move(work.back()); work.pop_back();
    S = cur.get();
    try { runState(); }
    catch (PathEnd&) { if (S->fr.empty()) pathDone(); else { dropped++; totInstr += S->instrs; } }
    catch (Budget& b) { status = "budget: " + b.what + " at " + curLoc(); break; }
    catch (Unsupported& u) { status = "unsupported: " + u.what + " at " + curLoc(); break; }
    catch (z3::exception& ex) { status = std::string("z3 exception: ") + ex.msg(); break; }
    if (paths > maxPaths) { status = "budget: paths"; break; }
  }
  if (stop && status == "complete") status = "stopped-at-violation";
}
void Exec::out(const std::string& file) {
  std::ofstream o(file);
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::set<std::string> fns, lines;
  for (auto& kv : dfs) if (kv.second && kv.second->used) for (auto& B : kv.second->bbs) for (auto& x : B.ins) if (x.hit) {
    const DILocation* l = x.I->getDebugLoc().get();
    while (l) {
      auto* sp = l->getScope()->getSubprogram(); std::string file = l->getFilename().str();
      size_t p = file.find("Litl");
      if (sp && p != std::string::npos && file.find("/harness/") == std::string::npos) { std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); fns.insert(file.substr(p) + "|" + sp->getName().str() + "|" + nm.substr(0, 220)); lines.insert(file.substr(p) + ":" + std::to_string(l->getLine())); }
      l = l->getInlinedAt();
    }
  }
  auto kv = [&](std::ostream& s, const std::vector<std::pair<std::string, std::string>>& v) { s << "["; for (size_t i = 0; i < v.size(); i++) s << (i ? "," : "") << "[\"" << jesc(v[i].first) << "\",\"" << jesc(v[i].second) << "\"]"; s << "]"; };
  o << "{\n\"entry\":\"" << entry << "\",\n\"status\":\"" << jesc(status) << "\",\n\"inconclusive\":\"" << jesc(inconcl) << "\",\n";
  o << "\"paths\":" << paths << ",\"dropped\":" << dropped << ",\"forks\":" << forks << ",\"instructions\":" << totInstr << ",\"mem_checks\":" << memChecks << ",\n";
  o << "\"queries\":" << g_stats.queries << ",\"sat\":" << g_stats.sat << ",\"unsat\":" << g_stats.unsat << ",\"unknown\":" << g_stats.unknown << ",\"cache_hits\":" << g_stats.cacheHits << ",\"solver_ms\":" << g_stats.ms << ",\"wall_s\":" << el << ",\n";
  o << "\"asserts\":{"; bool first = true; for (auto& a : asserts) { o << (first ? "" : ",") << "\"" << jesc(a.first) << "\":[" << a.second << "," << assertsTrivial[a.first] << "]"; first = false; } o << "},\n";
  o << "\"reached\":["; first = true; for (auto& a : reach) { o << (first ? "" : ",") << "\"" << jesc(a) << "\""; first = false; } o << "],\n";
  o << "\"symbols\":{"; first = true; for (auto& a : syms) { o << (first ? "" : ",") << "\"" << jesc(a.first) << "\":[" << a.second.first << "," << a.second.second << "]"; first = false; } o << "},\n";
  o << "\"violations\":["; first = true;
  for (auto& v : viols) { o << (first ? "" : ",") << "\n{\"kind\":\"" << v.kind << "\",\"label\":\"" << jesc(v.label) << "\",\"detail\":\"" << jesc(v.detail) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"unconfirmed\":" << (v.unconfirmed ? "true" : "false") << ",\"inputs\":"; kv(o, v.inputs); o << "}"; first = false; }
  o << "],\n\"witnesses\":["; first = true;
  for (auto& w : wits) { o << (first ? "" : ",") << "\n{\"inputs\":"; kv(o, w.in); o << ",\"obs\":["; for (size_t i = 0; i < w.obs.size(); i++) o << (i ? "," : "") << "[\"" << jesc(w.obs[i][0]) << "\",\"" << jesc(w.obs[i][1]) << "\"]"; o << "]}"; first = false; }
  o << "],\n\"functions\":["; first = true; for (auto& f : fns) { o << (first ? "" : ",") << "\n\"" << jesc(f) << "\""; first = false; }
  o << "],\n\"lines\":["; first = true; for (auto& f : lines) { o << (first ? "" : ",") << "\"" << jesc(f) << "\""; first = false; }
  o << "]\n}\n";
}

struct Args { std::vector<std::string> mods; std::string entry, out; double maxSec = 200; uint64_t maxInstr = 20000000; unsigned maxViol = 3; uint64_t seed = 1; unsigned q = 20000; std::string dump; bool list = false; unsigned wit = 6; };
static Args A;
static void* mainThread(void*) {
  SMDiagnostic err;
  M = parseIRFile(A.mods[0], err, LC);
  if (!M) { err.print("vfx", errs()); _Exit(70); }
  for (size_t i = 1; i < A.mods.size(); i++) {
    auto m2 = parseIRFile(A.mods[i], err, LC);
    if (!m2) { err.print("vfx", errs()); _Exit(70); }
    // definitions of the first module that the runtime model overrides are dropped
    for (auto& F : *m2) if (!F.isDeclaration() && F.hasExternalLinkage()) if (auto* f1 = M->getFunction(F.getName())) if (!f1->isDeclaration() && f1->isWeakForLinker()) f1->deleteBody();
    if (Linker::linkModules(*M, std::move(m2))) { fprintf(stderr, "link failed\n"); _Exit(70); }
  }
  static DataLayout DL(M.get()); DLp = &DL;
  if (A.list) { for (auto& F : *M) if (!F.isDeclaration() && F.getName().startswith("vf_main_")) printf("%s\n", F.getName().str().c_str()); _Exit(0); }
  Function* F = M->getFunction(A.entry);
  if (!F) { fprintf(stderr, "no entry %s\n", A.entry.c_str()); _Exit(70); }
  g_smtDumpDir = A.dump;
  auto* X = new Exec; X->entry = A.entry; X->maxSec = A.maxSec; X->maxInstr = A.maxInstr; X->maxViol = A.maxViol; X->seed = A.seed; X->rng += A.seed * 7919; X->qTimeout = A.q; X->maxWit = A.wit;
  X->run(F);
  X->out(A.out);
  fflush(nullptr);
  _Exit(0);
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (s == "--entry") A.entry = nx(); else if (s == "--out") A.out = nx(); else if (s == "--max-sec") A.maxSec = atof(nx().c_str()); else if (s == "--max-instr") A.maxInstr = strtoull(nx().c_str(), 0, 10);
    else if (s == "--max-viol") A.maxViol = atoi(nx().c_str()); else if (s == "--seed") A.seed = strtoull(nx().c_str(), 0, 10); else if (s == "--qtimeout") A.q = atoi(nx().c_str()); else if (s == "--dump") A.dump = nx(); else if (s == "--list") A.list = true; else if (s == "--wit") A.wit = atoi(nx().c_str());
    else A.mods.push_back(s);
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048ull << 20);
  pthread_t t; if (pthread_create(&t, &at, mainThread, nullptr)) { perror("thread"); return 70; }
  pthread_join(t, nullptr);
  return 0;
}
