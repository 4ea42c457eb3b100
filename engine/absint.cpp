#include "absint.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <fstream>
#include <iostream>
#include <algorithm>
#include <list>
#include <chrono>

static const int64_t I64MIN = INT64_MIN, I64MAX = INT64_MAX;
static int64_t clampI(i128 v) { return v < (i128)I64MIN ? I64MIN : v > (i128)I64MAX ? I64MAX : (int64_t)v; }

typedef uint64_t VN;
static inline VN hmix(VN a, VN b) {
  VN x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15F39CC060ull + (a << 6) + (a >> 2));
  x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
  return x ? x : 1;
}

// ---------------------------------------------------------------- values
struct Val {
  int64_t lo = I64MIN, hi = I64MAX;
  bool taint = false, ls = false, hs = false; // solid bounds
  bool bot = false, nz = false; // nz: known to differ from zero although the range contains it
  bool nonZero() const { return nz || lo > 0 || hi < 0; }
  uint32_t ps = 0; // pointer set id (0 = none/unknown)
  VN vn = 0;
  uint32_t srcCell = 0; VN srcKey = 0, srcVer = 0;
  bool same(const Val &o) const { return bot == o.bot && lo == o.lo && hi == o.hi && taint == o.taint && nonZero() == o.nonZero() && ls == o.ls && hs == o.hs && ps == o.ps; }
};
struct Target { uint32_t loc; int64_t n; int64_t lo, hi; bool ls, hs, taint; };
typedef std::vector<Target> PSet;

struct Cell {
  Val s, r; VN rkey = 0, ver = 0; bool hasR = false;
  bool same(const Cell &o) const { return s.same(o.s) && hasR == o.hasR && (!hasR || (r.same(o.r) && rkey == o.rkey)) ; }
};
static const int NTAG = 64;
struct State { PMap<Val> env; PMap<Cell> mem; int tag = 0; }; // tag > 0: the callee at that call site (numbered per function) has reported a non-zero status

struct Loc {
  enum K { Alloca, Global, TypeObj, Deref, Field, Elem } k;
  uint32_t parent = 0; int idx = 0; Type *ty = nullptr; const void *id = nullptr; int64_t n = -1;
  uint32_t root = 0; bool summary = false;
};

struct Engine {
  Module &M; const DataLayout &DL;
  std::vector<Loc> locs; std::map<std::tuple<int, uint32_t, int, const void *>, uint32_t> locIx;
  std::vector<PSet> psets; std::map<std::vector<int64_t>, uint32_t> psIx;
  std::set<StructType *> multi; // struct types with several instances
  std::map<std::string, std::vector<std::string>> fieldNames; // struct name -> member names
  unsigned long nCalls = 0, nMemo = 0, nBlocks = 0;
  std::map<std::string, long> funcVisits; std::unordered_map<const Function *, long> blkCnt;
  bool trace = false, streamTaint = true; bool dbg = getenv("ABSDBG");
  Engine(Module &m) : M(m), DL(m.getDataLayout()) {
    locs.resize(1); psets.resize(1);
    prepass();
  }

  // ------------------------------------------------------------ naming
  static std::string baseName(StructType *S) {
    std::string n = S->hasName() ? S->getName().str() : "anon";
    if (n.rfind("struct.", 0) == 0) n = n.substr(7); else if (n.rfind("union.", 0) == 0) n = n.substr(6);
    // strip .123 suffixes
    size_t p = n.rfind('.');
    if (p != std::string::npos && p + 1 < n.size() && std::all_of(n.begin() + p + 1, n.end(), ::isdigit)) n = n.substr(0, p);
    return n;
  }
  StructType *canon(StructType *S) { // merge renamed duplicates
    auto it = canonTy.find(baseName(S));
    if (S->isLiteral() || it == canonTy.end()) return S;
    return it->second;
  }
  std::map<std::string, StructType *> canonTy;
  void collectNames() {
    DebugInfoFinder F; F.processModule(M);
    auto rec = [&](DICompositeType *C, StringRef name) {
      if (name.empty() || C->getTag() != llvm::dwarf::DW_TAG_structure_type) return;
      std::vector<std::string> v;
      for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) v.push_back(D->getName().str());
      if (v.size()) fieldNames[name.str()] = v;
    };
    for (auto *T : F.types()) {
      if (auto *C = dyn_cast<DICompositeType>(T)) rec(C, C->getName());
      if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == llvm::dwarf::DW_TAG_typedef) if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType())) if (C->getName().empty()) rec(C, D->getName());
    }
  }
  std::string fname(StructType *S, int i) {
    auto it = fieldNames.find(baseName(S));
    if (it != fieldNames.end() && i < (int)it->second.size()) return it->second[i];
    return std::to_string(i);
  }
  std::string locName(uint32_t l) {
    if (!l) return "?";
    Loc &L = locs[l];
    switch (L.k) {
    case Loc::Alloca: { auto *A = (const AllocaInst *)L.id; return A->getFunction()->getName().str() + "::" + localName(A); }
    case Loc::Global: return ((const GlobalVariable *)L.id)->getName().str();
    case Loc::TypeObj: return baseName((StructType *)L.ty);
    case Loc::Deref: return "*" + locName(L.parent);
    case Loc::Field: return locName(L.parent) + "." + fname((StructType *)L.id, L.idx);
    case Loc::Elem: return locName(L.parent) + "[]";
    }
    return "?";
  }
  std::map<const Value *, std::string> dbgNames;
  std::string localName(const Value *v) { auto it = dbgNames.find(v); return it == dbgNames.end() ? (v->hasName() ? v->getName().str() : "local") : it->second; }

  // ------------------------------------------------------------ prepass
  std::unordered_map<const Value *, uint32_t> vidx; // per function numbering
  std::map<const Function *, std::vector<BasicBlock *>> rpo;
  std::unordered_map<const BasicBlock *, int> rpoNo;
  std::set<const BasicBlock *> headers, smallB;
  void markMulti(Type *T) {
    if (auto *A = dyn_cast<ArrayType>(T)) { markMulti2(A->getElementType(), A->getNumElements() > 1); }
    else if (auto *S = dyn_cast<StructType>(T)) { if (!seenTy.insert(S).second) return; for (Type *E : S->elements()) markMulti(E); }
  }
  std::set<Type *> seenTy, seenMulti;
  void markMulti2(Type *T, bool m) {
    if (auto *A = dyn_cast<ArrayType>(T)) { markMulti2(A->getElementType(), m || A->getNumElements() > 1); return; }
    if (auto *S = dyn_cast<StructType>(T)) {
      if (m) { if (!seenMulti.insert(S).second) return; multi.insert(canon(S)); for (Type *E : S->elements()) markMulti2(E, true); }
      else markMulti(S);
    }
  }
  std::vector<uint32_t> defBlk; std::vector<char> isPhi;
  std::unordered_map<const BasicBlock *, std::vector<bool>> domSets; std::map<const Function *, DominatorTree *> dts;
  std::vector<bool> &domSet(BasicBlock *B) {
    auto it = domSets.find(B);
    if (it != domSets.end()) return it->second;
    Function *F = B->getParent(); DominatorTree *&D = dts[F]; if (!D) D = new DominatorTree(*F);
    auto &v = domSets[B]; v.assign(rpo[F].size(), false);
    for (auto *N = D->getNode(B)->getIDom(); N; N = N->getIDom()) v[rpoNo[N->getBlock()]] = true;
    return v;
  }
  std::map<StructType *, int> embedCount;
  void prepass() {
    collectNames();
    for (StructType *S : M.getIdentifiedStructTypes()) {
      std::string b = baseName(S);
      auto it = canonTy.find(b);
      if (it == canonTy.end() || (it->second->isOpaque() && !S->isOpaque()) || (!S->isOpaque() && S->getName().size() < it->second->getName().size())) canonTy[b] = S;
    }
    for (StructType *S : M.getIdentifiedStructTypes()) if (!S->isOpaque()) markMulti(S);
    // a struct embedded by value in two or more places has several instances
    for (StructType *S : M.getIdentifiedStructTypes()) if (!S->isOpaque()) for (Type *E : S->elements()) {
      while (auto *A = dyn_cast<ArrayType>(E)) E = A->getElementType();
      if (auto *T = dyn_cast<StructType>(E)) embedCount[canon(T)]++;
    }
    for (auto &p : embedCount) if (p.second > 1) markMulti2(p.first, true);
    for (auto &G : M.globals()) markMulti(G.getValueType());
    uint32_t n = 1;
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      for (Argument &A : F.args()) vidx[&A] = n++;
      for (BasicBlock &B : F) for (Instruction &I : B) {
        vidx[&I] = n++;
        if (auto *A = dyn_cast<AllocaInst>(&I)) markMulti(A->getAllocatedType());
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) if (auto *S = dyn_cast<StructType>(G->getSourceElementType())) {
          auto *c = dyn_cast<ConstantInt>(G->getOperand(1));
          if (!c || !c->isZero()) markMulti2(S, true);
        }
        if (auto *D = dyn_cast<DbgDeclareInst>(&I)) if (D->getAddress()) dbgNames[D->getAddress()] = D->getVariable()->getName().str();
        if (auto *D = dyn_cast<DbgValueInst>(&I)) if (D->getNumVariableLocationOps() == 1 && D->getValue(0)) if (!isa<Constant>(D->getValue(0))) dbgNames.insert({D->getValue(0), D->getVariable()->getName().str()});
      }
      ReversePostOrderTraversal<Function *> R(&F);
      auto &v = rpo[&F]; int k = 0;
      for (BasicBlock *B : R) { rpoNo[B] = k++; v.push_back(B); }
      defBlk.resize(n); isPhi.resize(n);
      for (BasicBlock *B : v) for (Instruction &I : *B) { defBlk[vidx[&I]] = rpoNo[B] + 1; isPhi[vidx[&I]] = isa<PHINode>(I); }
      for (BasicBlock *B : v) for (BasicBlock *S : successors(B)) if (rpoNo[S] <= rpoNo[B]) headers.insert(S);
      for (BasicBlock *B : v) {
        if (headers.count(B)) continue;
        int cnt = 0; bool ok = isa<PHINode>(B->front());
        for (Instruction &I : *B) {
          if (isa<DbgInfoIntrinsic>(I) || isa<PHINode>(I)) continue;
          if (isa<ICmpInst>(I) || isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<ReturnInst>(I) || isa<BranchInst>(I) || isa<SwitchInst>(I) || isa<SelectInst>(I)) { cnt++; continue; }
          ok = false; break;
        }
        if (ok && cnt <= 8) smallB.insert(B);
      }
    }
  }

  // ------------------------------------------------------------ locations
  uint32_t mkLoc(Loc::K k, uint32_t parent, int idx, const void *id, Type *ty, int64_t n) {
    auto key = std::make_tuple((int)k, parent, idx, id);
    auto it = locIx.find(key);
    if (it != locIx.end()) return it->second;
    Loc L; L.k = k; L.parent = parent; L.idx = idx; L.id = id; L.ty = ty; L.n = n;
    uint32_t me = locs.size();
    if (k == Loc::Field || k == Loc::Elem) { L.root = locs[parent].root; L.summary = locs[parent].summary || (k == Loc::Elem && n != 1); }
    else { L.root = me; L.summary = k == Loc::Deref || (k == Loc::TypeObj && multi.count((StructType *)ty)); }
    locs.push_back(L); locIx[key] = me;
    return me;
  }
  uint32_t locType(StructType *S) { S = canon(S); return mkLoc(Loc::TypeObj, 0, 0, S, S, -1); }
  uint32_t locField(uint32_t p, StructType *S, int i) { S = canon(S); return mkLoc(Loc::Field, p, i, S, i < (int)S->getNumElements() ? S->getElementType(i) : nullptr, -1); }
  uint32_t locElem(uint32_t p, Type *ety, int64_t n) { return mkLoc(Loc::Elem, p, 0, nullptr, ety, n); }

  uint32_t mkPS(PSet s) {
    if (s.empty() || s.size() > 48) return 0;
    std::sort(s.begin(), s.end(), [](const Target &a, const Target &b) { return a.loc < b.loc; });
    std::vector<int64_t> k;
    for (auto &t : s) { k.push_back(t.loc); k.push_back(t.n); k.push_back(t.lo); k.push_back(t.hi); k.push_back(t.ls * 4 + t.hs * 2 + t.taint); }
    auto it = psIx.find(k);
    if (it != psIx.end()) return it->second;
    psets.push_back(s); return psIx[k] = psets.size() - 1;
  }
  static Target T0(uint32_t loc) { return Target{loc, -1, 0, 0, true, true, false}; }
  Val ptrTo(uint32_t loc, VN vn) { Val v = nonnull(); v.ps = mkPS({T0(loc)}); v.vn = vn; return v; }
  static Val nonnull() { Val v; v.lo = 1; v.hi = I64MAX; return v; }

  // ------------------------------------------------------------ joins
  static void jb(int64_t &lo, bool &ls, int64_t &hi, bool &hs, int64_t lo2, bool ls2, int64_t hi2, bool hs2) {
    if (lo2 < lo) { lo = lo2; ls = ls2; } else if (lo2 == lo) ls |= ls2;
    if (hi2 > hi) { hi = hi2; hs = hs2; } else if (hi2 == hi) hs |= hs2;
  }
  bool inLoop = false;
  int LADDER = getenv("ABSLAD") ? atoi(getenv("ABSLAD")) : 14;
  int CAP = getenv("ABSCAP") ? atoi(getenv("ABSCAP")) : 60; // visits of one block after which every growing cell is widened
  uint32_t joinPS(uint32_t a, uint32_t b, bool aNull, bool bNull, bool widen) {
    if (a == b) return a;
    if (!a) return aNull ? b : 0;
    if (!b) return bNull ? a : 0;
    PSet s = psets[a];
    for (auto &t : psets[b]) {
      bool f = false;
      for (auto &u : s) if (u.loc == t.loc) {
        f = true; int64_t ol = u.lo, oh = u.hi;
        jb(u.lo, u.ls, u.hi, u.hs, t.lo, t.ls, t.hi, t.hs); u.taint |= t.taint; if (t.n > u.n) u.n = t.n;
        if (inLoop) { if (u.hi > oh) u.hs = false; if (u.lo < ol) u.ls = false; } // a pointer that moves round a loop
        if (widen) { if (u.hi > oh) { u.hi = I64MAX; u.hs = false; } if (u.lo < ol) { u.lo = I64MIN; u.ls = false; } }
      }
      if (!f) s.push_back(t);
    }
    return mkPS(s);
  }
  // Widening first climbs a ladder of bounds that field widths and table sizes have.
  static int64_t rung(int64_t v, bool up) {
    static const int64_t U[] = {-1, 0, 1, 2, 3, 4, 7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 16383, 32767, 65535, 2147483647ll, 4294967295ll};
    static const int64_t D[] = {0, -1, -2, -8, -16, -32, -64, -128, -256, -1024, -32768, -2147483648ll};
    if (up) { for (int64_t x : U) if (x >= v) return x; return I64MAX; }
    for (int64_t x : D) if (x <= v) return x;
    return I64MIN;
  }
  Val join(const Val &a, const Val &b, int widen = 0) {
    if (a.bot) return b;
    if (b.bot) return a;
    Val r = a; r.nz = a.nonZero() && b.nonZero();
    bool an = a.lo == 0 && a.hi == 0, bn = b.lo == 0 && b.hi == 0;
    jb(r.lo, r.ls, r.hi, r.hs, b.lo, b.ls, b.hi, b.hs);
    if (widen) {
      if (r.hi > a.hi) { int64_t t = widen == 2 ? rung(r.hi, true) : I64MAX; if (t != r.hi) { r.hi = t; r.hs = false; } }
      if (r.lo < a.lo) { int64_t t = widen == 2 ? rung(r.lo, false) : I64MIN; if (t != r.lo) { r.lo = t; r.ls = false; } }
    }
    r.taint |= b.taint;
    if (a.ps || b.ps) r.ps = joinPS(a.ps, b.ps, an, bn, widen != 0);
    if (a.vn != b.vn) r.vn = 0;
    if (!(a.srcCell == b.srcCell && a.srcKey == b.srcKey && a.srcVer == b.srcVer)) { r.srcCell = 0; }
    return r;
  }
  Val zeroV() { Val z; z.lo = z.hi = 0; z.ls = z.hs = true; return z; }
  Val cellVal(const Cell &c) { return c.hasR ? join(c.s, c.r) : c.s; }
  Cell flush(Cell c) { if (c.hasR) { c.s = join(c.s, c.r); c.s.srcCell = 0; c.hasR = false; c.rkey = 0; c.ver = hmix(c.ver, 77); } return c; }
  Cell joinCell(uint32_t k, const Cell &a0, const Cell &b0, VN jv, bool fl, int widen) {
    Cell a = a0, b = b0;
    VN ver = a.ver == b.ver ? a.ver : hmix(jv, k);
    if (fl || (a.hasR != b.hasR) || (a.hasR && a.rkey != b.rkey)) {
      if (!fl && a.hasR != b.hasR && a.ver == b.ver) {
        // one side focused an instance: unfocus
      }
      a = flush(a); b = flush(b); ver = hmix(jv, k);
    }
    Cell c = a; c.ver = ver;
    c.s = join(a.s, b.s, widen); c.s.vn = 0;
    if (a.hasR) { c.r = join(a.r, b.r, widen); }
    return c;
  }
  // How often each cell has grown at this place: widening is decided per cell, so that a cell that grows late is not
  // thrown away because others have been growing for long.
  typedef std::unordered_map<uint32_t, uint8_t> Grown;
  static bool grows(const Val &a, const Val &b) { return !b.bot && (a.bot || b.lo < a.lo || b.hi > a.hi); }
  PMap<Cell> joinMem(const PMap<Cell> &a, const PMap<Cell> &b, VN jv, bool flAll, int widen, const std::vector<uint64_t> *some = nullptr, Grown *grown = nullptr, int free = 0, int steps = 0) {
    return PMap<Cell>::merge(a, b,
      [&](uint32_t k, const Cell &x, const Cell &y) {
        int w = !some || hasBit(*some, k) ? widen : 0;
        if (w == 2 && grown && grows(cellVal(x), cellVal(y))) { auto &n = (*grown)[k]; n++; w = n <= free ? 0 : n <= steps ? 2 : 1; }
        return joinCell(k, x, y, jv, flAll || (some && hasBit(*some, k)), w);
      },
      [&](uint32_t k, Cell &c) { bool fl = flAll || (some && hasBit(*some, k)); Cell o = c; if (fl) c = flush(c); Val &t = c.hasR ? c.r : c.s; Val z = zeroV(); t = join(t, z); t.srcCell = 0; if (c.same(o)) return false; c.ver = hmix(jv, k); return true; });
  }
  static bool hasBit(const std::vector<uint64_t> &b, uint32_t i) { return i / 64 < b.size() && (b[i / 64] >> (i % 64) & 1); }
  PMap<Val> joinEnv(const PMap<Val> &a, const PMap<Val> &b, bool widen, Grown *grown = nullptr) {
    return PMap<Val>::merge(a, b,
      [&](uint32_t k, const Val &x, const Val &y) {
        bool w = widen;
        if (w && grown && grows(x, y) && ++(*grown)[k] <= 2) w = false;
        Val v = join(x, y, w); return v;
      },
      [&](uint32_t, Val &) { return false; });
  }

  // ------------------------------------------------------------ int helpers
  static void tyRange(unsigned w, i128 &mn, i128 &mx) { if (w == 1) { mn = 0; mx = 1; return; } if (w > 64) w = 64; mn = -((i128)1 << (w - 1)); mx = ((i128)1 << w) - 1; }
  Val norm(unsigned w, i128 lo, i128 hi, bool taint, bool ls, bool hs, bool exactWrap = false) {
    Val v; v.taint = taint;
    i128 mn, mx; tyRange(w, mn, mx);
    if (w >= 64) { mx = I64MAX; }
    if (lo < mn || hi > mx || hi - lo > ((i128)1 << (w > 63 ? 63 : w)) ) {
      // wraps
      v.lo = (int64_t)mn; v.hi = w >= 64 ? I64MAX : (int64_t)(((i128)1 << (w - 1)) - 1);
      v.ls = v.hs = false;
      if (exactWrap && ls && hs) v.ls = v.hs = true;
      return v;
    }
    v.lo = (int64_t)lo; v.hi = (int64_t)hi; v.ls = ls; v.hs = hs; return v;
  }
  static Val top(unsigned w) {
    Val v; if (w == 1) { v.lo = 0; v.hi = 1; return v; } i128 mn, mx; tyRange(w ? w : 64, mn, mx);
    v.lo = (int64_t)mn; v.hi = w >= 64 || !w ? I64MAX : (int64_t)(((i128)1 << (w - 1)) - 1); return v;
  }
  Val asSigned(const Val &a, unsigned w) { // representation within signed range
    if (w >= 64 || w == 1) return a;
    i128 smax = ((i128)1 << (w - 1)) - 1;
    if (a.hi <= smax) return a;
    Val v = a; v.srcCell = 0;
    if (a.lo > smax) { v.lo = a.lo - (int64_t)(smax + 1) * 2; v.hi = a.hi - (int64_t)(smax + 1) * 2; return v; }
    v.lo = -(int64_t)(smax + 1); v.hi = (int64_t)smax; v.ls = a.hs; v.hs = a.hs; return v;
  }
  Val asUnsigned(const Val &a, unsigned w) {
    if (a.lo >= 0) return a;
    Val v = a; v.srcCell = 0;
    if (w >= 64) { v.lo = 0; v.hi = I64MAX; v.ls = v.hs = false; return v; }
    i128 m = (i128)1 << w;
    if (a.hi < 0) { v.lo = (int64_t)(a.lo + m); v.hi = (int64_t)(a.hi + m); return v; }
    v.lo = 0; v.hi = (int64_t)(m - 1); v.ls = a.ls; v.hs = a.ls; return v;
  }

  // ------------------------------------------------------------ frames
  struct Frame { Function *F; VN id; const Frame *up; const CallBase *site; int depth; };

  Val constVal(const Constant *C) {
    Val v;
    if (auto *I = dyn_cast<ConstantInt>(C)) {
      int64_t x = I->getBitWidth() <= 64 ? I->getSExtValue() : 0;
      if (I->getBitWidth() == 1) x = I->isOne();
      v.lo = v.hi = x; v.ls = v.hs = true; v.vn = hmix(1234567, (VN)x); return v;
    }
    if (isa<ConstantPointerNull>(C)) { v = zeroV(); v.vn = 99; return v; }
    if (auto *G = dyn_cast<GlobalVariable>(C)) return ptrTo(locGlobal(G), hmix(555, (VN)(uintptr_t)G));
    if (isa<Function>(C)) { Val f = nonnull(); f.vn = hmix(556, (VN)(uintptr_t)C); return f; }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      if (auto *GO = dyn_cast<GEPOperator>(CE)) {
        // constant gep into global with byte offset
        APInt off(64, 0);
        const Value *b = GO->stripAndAccumulateConstantOffsets(DL, off, true);
        if (auto *G = dyn_cast<GlobalVariable>(b)) return globalAt(const_cast<GlobalVariable *>(G), off.getSExtValue());
      }
    }
    if (C->getType()->isIntegerTy()) { v = top(C->getType()->getIntegerBitWidth()); return v; }
    return v;
  }
  uint32_t locGlobal(const GlobalVariable *G) { return mkLoc(Loc::Global, 0, 0, G, G->getValueType(), -1); }
  Val globalAt(GlobalVariable *G, int64_t off) {
    uint32_t l = locGlobal(G); Type *T = G->getValueType(); Target t = T0(l);
    for (;;) {
      if (auto *A = dyn_cast<ArrayType>(T)) {
        int64_t es = DL.getTypeAllocSize(A->getElementType()); int64_t i = es ? off / es : 0; off -= i * es;
        l = locElem(l, A->getElementType(), A->getNumElements()); t = T0(l); t.n = A->getNumElements(); t.lo = t.hi = i; T = A->getElementType();
        if (!off && !T->isAggregateType()) break;
        if (!off) break;
      } else if (auto *S = dyn_cast<StructType>(T)) {
        if (!off) break;
        auto *SL = DL.getStructLayout(S); unsigned e = SL->getElementContainingOffset(off);
        off -= SL->getElementOffset(e); l = locField(l, S, e); t = T0(l); T = S->getElementType(e);
      } else break;
      if (!off) break;
    }
    Val v = nonnull(); v.ps = mkPS({t}); v.vn = hmix(hmix(557, (VN)(uintptr_t)G), off); return v;
  }
  Val get(const Value *V, State &s, const Frame &f) {
    if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
    auto it = vidx.find(V);
    if (it != vidx.end()) if (const Val *p = s.env.get(it->second)) {
      if (V->getType()->isIntegerTy()) { unsigned w = V->getType()->getIntegerBitWidth(); if (w > 1 && w < 64) { i128 mn, mx; tyRange(w, mn, mx); if (p->lo < mn || p->hi > mx) { Val v = *p; if (v.lo < mn) { v.lo = (int64_t)mn; v.ls = false; } if (v.hi > mx) { v.hi = (int64_t)((mx - 1) / 2); v.hs = false; if (v.lo > v.hi) v.lo = (int64_t)mn; } return v; } } }
      return *p; }
    if (V->getType()->isIntegerTy()) return top(V->getType()->getIntegerBitWidth());
    return Val();
  }
  void put(const Value *V, State &s, const Val &v) { s.env.set(vidx[V], v); }

  // ------------------------------------------------------------ reports
  struct Rep { std::string kind, func, where, what, path; int64_t lo = I64MAX, hi = I64MIN, n = 0; };
  std::map<std::string, Rep> reps;
  struct Site { int status = 0; /*1 proven 2 undecided 3 flagged*/ int64_t lo = I64MAX, hi = I64MIN, n = 0; bool taint = false; std::string what; };
  std::map<std::pair<const Instruction *, int>, Site> sites;
  std::string where(const Instruction *I) {
    const DebugLoc &D = I->getDebugLoc();
    if (!D) return I->getFunction()->getName().str() + ":?";
    return std::string(D->getFilename().str()) + ":" + std::to_string(D.getLine());
  }
  std::string pathOf(const Frame &f) {
    std::string s; const Frame *p = &f; std::vector<std::string> v;
    while (p) { v.push_back(p->F->getName().str()); p = p->up; }
    std::reverse(v.begin(), v.end());
    for (auto &x : v) s += (s.empty() ? "" : ">") + x;
    return s;
  }
  void report(const Instruction *I, const std::string &kind, int64_t n, int64_t lo, int64_t hi, const std::string &w, const Frame &f) {
    std::string path = pathOf(f);
    auto &r = reps[kind + "|" + I->getFunction()->getName().str() + "|" + w + "|" + path];
    if (r.kind.empty()) { r.kind = kind; r.func = I->getFunction()->getName().str(); r.path = path; r.what = w; r.n = n; }
    if (lo < r.lo || hi > r.hi) r.where = where(I);
    r.lo = std::min(r.lo, lo); r.hi = std::max(r.hi, hi);
  }
  void oblig(const Instruction *I, int slot, const std::string &kind, int64_t n, int64_t lo, bool ls, int64_t hi, bool hs, bool taint, const std::function<std::string()> &what, const Frame &f) {
    Site &st = sites[{I, slot}];
    int cls;
    if (lo >= 0 && hi < n) cls = 1;
    else if ((hi >= n && hs) || (lo < 0 && ls)) cls = taint ? 3 : 2;
    else cls = 2;
    if (cls == 2 && ((hi >= n && hs && lo >= 0))) cls = taint ? 3 : 2;
    st.n = n; st.lo = std::min(st.lo, lo); st.hi = std::max(st.hi, hi); st.taint |= taint;
    if (cls > st.status) { st.status = cls; }
    if (st.what.empty()) st.what = kind + " " + what();
    if (cls == 3) report(I, kind, n, lo < 0 && ls ? lo : std::max<int64_t>(lo, 0), hi >= n && hs ? hi : std::min(hi, n - 1), what(), f); // the ends that offend
  }

  // ------------------------------------------------------------ memory
  bool constGlobalLoc(uint32_t l, const GlobalVariable *&G) {
    Loc &R = locs[locs[l].root];
    if (R.k != Loc::Global) return false;
    G = (const GlobalVariable *)R.id;
    return G->hasInitializer() && (G->isConstant() || !writtenGlobals.count(G));
  }
  std::set<const GlobalVariable *> writtenGlobals;
  std::map<uint32_t, Val> constCache; std::set<uint32_t> absent; // cells read that nothing has stored so far
  void collectConst(const Constant *C, std::vector<uint32_t> &path, size_t i, Val &acc, bool &any, int64_t lastLo, int64_t lastHi) {
    if (i == path.size()) {
      while (C->getType()->isAggregateType()) { C = C->getAggregateElement(0u); if (!C) return; }
      Val v = constVal(C); v.vn = 0;
      if (!any) { acc = v; any = true; } else acc = join(acc, v);
      return;
    }
    Loc &L = locs[path[i]];
    if (L.k == Loc::Field) { if (auto *E = C->getAggregateElement((unsigned)L.idx)) collectConst(E, path, i + 1, acc, any, lastLo, lastHi); return; }
    uint64_t n = 0;
    if (auto *A = dyn_cast<ArrayType>(C->getType())) n = A->getNumElements();
    uint64_t a = 0, b = n;
    if (i + 1 == path.size() && lastLo >= 0) { a = lastLo; b = std::min<int64_t>(n, lastHi == I64MAX ? n : lastHi + 1); }
    if (isa<ConstantAggregateZero>(C) && b > a) b = a + 1;
    for (uint64_t k = a; k < b; k++) if (auto *E = C->getAggregateElement((unsigned)k)) collectConst(E, path, i + 1, acc, any, lastLo, lastHi);
  }
  Val loadConst(const GlobalVariable *G, const Target &t, Type *ty) {
    std::vector<uint32_t> path; uint32_t l = t.loc;
    while (l && (locs[l].k == Loc::Field || locs[l].k == Loc::Elem)) { path.push_back(l); l = locs[l].parent; }
    std::reverse(path.begin(), path.end());
    if (ty->isFloatingPointTy()) return Val();
    bool last = path.size() && locs[t.loc].k == Loc::Elem;
    int64_t lo = last && t.n > 0 ? std::max<int64_t>(0, t.lo) : -1, hi = last && t.n > 0 ? t.hi : I64MAX;
    // flattened access of nested arrays: give up index precision
    if (path.size() >= 2 && last && locs[path[path.size() - 2]].k == Loc::Elem) { if (t.n > 0 && t.n != locs[t.loc].n) lo = -1; }
    bool whole = lo < 0;
    if (whole) { auto it = constCache.find(t.loc); if (it != constCache.end()) return it->second; }
    Val acc; bool any = false;
    collectConst(G->getInitializer(), path, 0, acc, any, lo, hi);
    if (!any) return ty->isIntegerTy() ? top(ty->getIntegerBitWidth()) : Val();
    if (whole) { constCache[t.loc] = acc; }
    if (!(t.ls && t.hs) && !(lo == 0 && false)) { if (acc.lo != acc.hi) { acc.ls = acc.hs = false; } }
    acc.taint = t.taint;
    return acc;
  }
  Val loadLoc(State &s, uint32_t l, VN key, Type *ty, int64_t nTot, const Target &t) {
    const GlobalVariable *G;
    if (constGlobalLoc(l, G)) return loadConst(G, t, ty);
    rdCell(l);
    const Cell *c = s.mem.get(l);
    unsigned w = ty->isIntegerTy() ? ty->getIntegerBitWidth() : 64;
    Val v;
    if (!c) {
      if (ty->isPointerTy()) { v = Val(); v.ps = mkPS({T0(mkLoc(Loc::Deref, l, 0, nullptr, nullptr, -1))}); }
      else {
        Loc &R = locs[locs[l].root ? locs[l].root : l];
        v = top(w);
        if (R.k == Loc::TypeObj && w > 1) { absent.insert(l); if (!getenv("ABSTOP")) { v.lo = v.hi = 0; } }
      }
      v.vn = hmix(hmix(key, l), 3); v.srcCell = l; v.srcKey = key; v.srcVer = 0;
      return v;
    }
    if (locs[l].summary) {
      if (c->hasR && c->rkey == key) v = c->r; else v = cellVal(*c);
      v.vn = hmix(hmix(key, l), c->ver);
      if (c->hasR && c->rkey == key && c->r.vn) v.vn = c->r.vn;
    } else { v = c->s; v.vn = c->s.vn ? c->s.vn : hmix(l, c->ver); }
    v.srcCell = l; v.srcKey = key; v.srcVer = c->ver;
    if (ty->isPointerTy() && !v.ps && !(v.lo == 0 && v.hi == 0)) v.ps = mkPS({T0(mkLoc(Loc::Deref, l, 0, nullptr, nullptr, -1))});
    if (ty->isIntegerTy() && (v.ps)) v = top(w);
    if (ty->isIntegerTy() && w < 64) { i128 mn, mx; tyRange(w, mn, mx); if (v.lo < mn || v.hi > mx) { Val t2 = top(w); t2.taint = v.taint; return t2; } }
    return v;
  }
  void storeLoc(State &s, uint32_t l, VN key, Val v, VN ver, bool strongOK) {
    const Cell *c = s.mem.get(l);
    Cell n;
    v.srcCell = 0; wrCell(l); if (locs[l].summary || !strongOK) rdCell(l);
    if (!locs[l].summary && strongOK) { n.s = v; n.ver = ver; s.mem.set(l, n); return; }
    if (!c) { n.s.bot = true; }
    else n = flush(*c);
    if (!strongOK) { n.s = c ? join(n.s, v) : join(zeroV(), v); n.s.bot = false; n.ver = ver; s.mem.set(l, n); return; }
    if (c && c->hasR && c->rkey == key) { n = *c; } // overwrite same instance: drop old recent value
    n.r = v; n.rkey = key; n.hasR = true; n.ver = ver;
    s.mem.set(l, n);
  }

  // ------------------------------------------------------------ GEP
  std::unordered_map<VN, std::vector<VN>> recipe; // value number of an address -> those it was computed from
  VN translate(VN k, const std::map<VN, VN> &sub, int depth = 0) {
    auto it = sub.find(k); if (it != sub.end()) return it->second;
    auto rt = recipe.find(k); if (rt == recipe.end() || depth > 6) return k;
    bool ch = false; std::vector<VN> v;
    for (VN x : rt->second) { VN y = translate(x, sub, depth + 1); ch |= y != x; v.push_back(y); }
    if (!ch) return k;
    VN r = hmix(v[0], 11); for (size_t i = 1; i < v.size(); i++) r = hmix(r, v[i]);
    recipe.emplace(r, v);
    return r;
  }
  Val evalGEP(GEPOperator *G, State &s, const Frame &f, const Instruction *at) {
    Val b = get(G->getPointerOperand(), s, f);
    VN vn = b.vn ? hmix(b.vn, 11) : 0;
    Type *T = G->getSourceElementType();
    std::vector<Val> ix;
    bool allZero = true;
    for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
      Val v = get(*it, s, f); if (!isa<ConstantInt>(*it) || !(v.lo == 0 && v.hi == 0)) allZero = false;
      if (vn) vn = v.vn ? hmix(vn, v.vn) : 0;
      ix.push_back(v);
    }
    if (allZero && ix.size() == 1) return b;
    if (vn && !recipe.count(vn)) { auto &rc = recipe[vn]; rc.push_back(b.vn); for (auto &v : ix) rc.push_back(v.vn); }
    PSet in, out;
    if (b.ps) in = psets[b.ps];
    else in.push_back(Target{0, -1, 0, 0, false, false, false});
    int tno = 0;
    for (Target t : in) {
      tno++;
      Type *ty = T; uint32_t l = t.loc;
      // first index
      Val &i0 = ix[0];
      bool z0 = i0.lo == 0 && i0.hi == 0;
      if (!z0) {
        if (l && locs[l].k == Loc::Elem) {
          uint64_t es = locs[l].ty ? (uint64_t)DL.getTypeAllocSize(locs[l].ty) : 0, gs = T->isSized() ? (uint64_t)DL.getTypeAllocSize(T) : 0;
          int64_t n = t.n;
          if (es && gs == es) {
            // nested arrays: flattened bound
            uint32_t p = locs[l].parent; 
            if (n > 0 && p && locs[p].k == Loc::Elem) { n = -1; }
            addOff(t, i0); t.n = n;
          } else { t.n = -1; t.lo = I64MIN; t.hi = I64MAX; t.ls = t.hs = false; }
        } else if (l) {
          Type *lt = locs[l].ty;
          int64_t n = -1; // a decayed array: the object itself is known
          if (auto *LA = dyn_cast_or_null<ArrayType>(lt); LA && in.size() == 1 && locs[l].k == Loc::Global)
            if (LA->getNumElements() > 0 && T->isSized() && !LA->getElementType()->isArrayTy() && DL.getTypeAllocSize(T) == DL.getTypeAllocSize(LA->getElementType())) n = LA->getNumElements();
          uint32_t nl = locElem(l, n > 0 ? cast<ArrayType>(lt)->getElementType() : T, n);
          t = Target{nl, n, i0.lo, i0.hi, i0.ls, i0.hs, i0.taint}; l = nl;
        }
      }
      l = t.loc;
      for (size_t k = 1; k < ix.size(); k++) {
        if (auto *S = dyn_cast<StructType>(ty)) {
          // dereference of the current element: check it
          if (l && t.n > 0 && locs[l].k == Loc::Elem) chk(at, tno * 8 + k, t, f);
          int fi = (int)cast<ConstantInt>(*(G->idx_begin() + k))->getZExtValue();
          uint32_t base = 0;
          if (l) {
            Loc &R = locs[locs[l].root];
            bool localObj = R.k == Loc::Alloca || R.k == Loc::Global;
            Type *lt = locs[l].ty;
            if (localObj && lt) {
              Type *u = lt; bool ok = false;
              if (auto *LS = dyn_cast<StructType>(u)) ok = canon(LS) == canon(S);
              if (ok) base = l;
            }
          }
          if (!base) base = locType(S);
          l = locField(base, S, fi);
          t = T0(l);
          ty = S->getElementType(fi);
        } else if (auto *A = dyn_cast<ArrayType>(ty)) {
          if (l && t.n > 0 && locs[l].k == Loc::Elem) chk(at, tno * 8 + k, t, f);
          int64_t n = A->getNumElements();
          if (!n && l && in.size() == 1 && locs[l].k == Loc::Global) if (auto *LA = dyn_cast_or_null<ArrayType>(locs[l].ty)) n = LA->getNumElements(); // extern T x[];
          if (!n) n = -1;
          ty = A->getElementType();
          Val &i = ix[k];
          if (l) { l = locElem(l, ty, n); t = Target{l, n, i.lo, i.hi, i.ls, i.hs, i.taint}; }
        } else break;
      }
      if (t.loc) out.push_back(t);
    }
    Val r = nonnull(); r.vn = vn;
    if (G->getPointerOperand() && b.lo <= 0 && false) r.lo = 0;
    // merge duplicates
    PSet m;
    for (auto &t : out) { bool fd = false; for (auto &u : m) if (u.loc == t.loc) { jb(u.lo, u.ls, u.hi, u.hs, t.lo, t.ls, t.hi, t.hs); u.taint |= t.taint; u.n = std::max(u.n, t.n); fd = true; } if (!fd) m.push_back(t); }
    r.ps = out.size() == in.size() ? mkPS(m) : 0;
    return r;
  }
  static int64_t satAdd(int64_t a, int64_t b) { if (a == I64MAX || b == I64MAX) return I64MAX; if (a == I64MIN || b == I64MIN) return I64MIN; return clampI((i128)a + b); }
  void addOff(Target &t, const Val &i) {
    t.ls = t.ls && i.ls; t.hs = t.hs && i.hs;
    t.lo = satAdd(t.lo, i.lo); t.hi = satAdd(t.hi, i.hi); t.taint |= i.taint;
  }
  void chk(const Instruction *at, int slot, const Target &t, const Frame &f) {
    if (t.n <= 0) return;
    oblig(at, slot, "index", t.n, t.lo, t.ls, t.hi, t.hs, t.taint, [&] { return locName(locs[t.loc].parent) + "[" + std::to_string(t.n) + "]"; }, f);
  }
  void deref(const Instruction *at, const Val &p, const Frame &f) {
    if (!p.ps) return;
    int k = 1000;
    for (auto &t : psets[p.ps]) { k++; if (t.loc && locs[t.loc].k == Loc::Elem) chk(at, k, t, f); }
  }

  // ------------------------------------------------------------ binary ops
  Val evalBin(BinaryOperator *I, State &s, const Frame &f) {
    unsigned w = I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : 0;
    if (!w || w > 64) return Val();
    Val a = get(I->getOperand(0), s, f), b = get(I->getOperand(1), s, f);
    bool t = a.taint || b.taint; bool ac = a.lo == a.hi, bc = b.lo == b.hi;
    VN vn = a.vn && b.vn ? hmix(hmix(a.vn, I->getOpcode()), b.vn) : 0;
    Val r; r.taint = t;
    auto fin = [&](Val v) { v.vn = vn; v.taint = t; return v; };
    switch (I->getOpcode()) {
    case Instruction::Add: {
      a = asSigned(a, w); 
      Val bb = asSigned(b, w);
      bool ls = a.ls && bb.ls, hs = a.hs && bb.hs;
      i128 lo = (i128)a.lo + bb.lo, hi = (i128)a.hi + bb.hi;
      if (a.lo == I64MIN || bb.lo == I64MIN) { lo = I64MIN; }
      if (a.hi == I64MAX || bb.hi == I64MAX) { hi = I64MAX; }
      i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
      if (I->hasNoSignedWrap()) { if (lo < mn) { lo = mn; ls = false; } if (hi > mx) { hi = mx; hs = false; } if (lo > mx) lo = mx; if (hi < mn) hi = mn; }
      return fin(norm(w, lo, hi, t, ls, hs));
    }
    case Instruction::Sub: {
      a = asSigned(a, w); b = asSigned(b, w);
      bool ls = a.ls && b.hs, hs = a.hs && b.ls;
      i128 lo = (i128)a.lo - b.hi, hi = (i128)a.hi - b.lo;
      i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
      if (a.vn && a.vn == b.vn) { Val z = zeroV(); return fin(z); }
      if (!ac && !bc) { ls = hs = false; } // difference of two varying values: bounds may be correlated
      if (I->hasNoSignedWrap()) { if (lo < mn) { lo = mn; ls = false; } if (hi > mx) { hi = mx; hs = false; } if (lo > mx) lo = mx; if (hi < mn) hi = mn; }
      return fin(norm(w, lo, hi, t, ls, hs));
    }
    case Instruction::Mul: {
      a = asSigned(a, w); b = asSigned(b, w);
      i128 c[4] = {(i128)a.lo * b.lo, (i128)a.lo * b.hi, (i128)a.hi * b.lo, (i128)a.hi * b.hi};
      i128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
      bool all = a.ls && a.hs && b.ls && b.hs;
      bool ls = all, hs = all;
      if (a.lo >= 0 && b.lo >= 0) { ls = a.ls && b.ls; hs = a.hs && b.hs; }
      i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
      if (I->hasNoSignedWrap()) { if (lo < mn) { lo = mn; ls = false; } if (hi > mx) { hi = mx; hs = false; } }
      return fin(norm(w, lo, hi, t, ls, hs));
    }
    case Instruction::SDiv: case Instruction::UDiv: {
      if (I->getOpcode() == Instruction::UDiv) { a = asUnsigned(a, w); b = asUnsigned(b, w); } else { a = asSigned(a, w); b = asSigned(b, w); }
      zeroDiv(I, b, f);
      if (b.lo > 0) {
        if (a.lo >= 0) { return fin(norm(w, a.lo / b.hi, a.hi / b.lo, t, a.ls && b.hs, a.hs && b.ls)); }
        i128 lo = a.lo < 0 ? a.lo / b.lo : a.lo / b.hi, hi = a.hi < 0 ? a.hi / b.hi : a.hi / b.lo;
        return fin(norm(w, lo, hi, t, a.ls && bc, a.hs && bc));
      }
      Val v = top(w); if (a.lo >= 0 && b.lo >= 0) { v.lo = 0; v.hi = a.hi; }
      return fin(v);
    }
    case Instruction::SRem: case Instruction::URem: {
      if (I->getOpcode() == Instruction::URem) { a = asUnsigned(a, w); b = asUnsigned(b, w); } else { a = asSigned(a, w); b = asSigned(b, w); }
      zeroDiv(I, b, f);
      if (b.lo > 0) {
        if (a.lo >= 0) { if (a.hi < b.lo) return fin(norm(w, a.lo, a.hi, t, a.ls, a.hs)); return fin(norm(w, 0, std::min(a.hi, b.hi - 1), t, false, bc && a.hs && a.hi >= b.hi - 1 && (a.hi - a.lo) >= b.hi)); }
        return fin(norm(w, -(b.hi - 1), b.hi - 1, t, false, false));
      }
      return fin(top(w));
    }
    case Instruction::Shl: {
      shiftChk(I, b, w, f);
      if (b.lo >= 0 && b.hi < 63) {
        a = asSigned(a, w);
        i128 lo = a.lo >= 0 ? (i128)a.lo << b.lo : (i128)a.lo * ((i128)1 << b.hi), hi = a.hi >= 0 ? (i128)a.hi << b.hi : (i128)a.hi * ((i128)1 << b.lo);
        return fin(norm(w, lo, hi, t, a.ls && (bc || a.lo >= 0 ? b.ls : b.hs), a.hs && b.hs));
      }
      return fin(top(w));
    }
    case Instruction::AShr: {
      shiftChk(I, b, w, f);
      a = asSigned(a, w);
      if (b.lo >= 0 && b.hi < 64) {
        int64_t lo = a.lo >= 0 ? a.lo >> b.hi : a.lo >> b.lo, hi = a.hi >= 0 ? a.hi >> b.lo : a.hi >> b.hi;
        return fin(norm(w, lo, hi, t, a.ls && bc, a.hs && (a.hi >= 0 ? b.ls : bc)));
      }
      return fin(top(w));
    }
    case Instruction::LShr: {
      shiftChk(I, b, w, f);
      a = asUnsigned(a, w);
      if (b.lo >= 0 && b.hi < 64 && a.lo >= 0) return fin(norm(w, a.lo >> b.hi, a.hi >> b.lo, t, a.ls && b.hs, a.hs && b.ls));
      return fin(top(w));
    }
    case Instruction::And: {
      if (w == 1) { Val v; v.lo = (a.lo > 0 && b.lo > 0); v.hi = (a.hi && b.hi) ? 1 : 0; v.ls = v.hs = true; return fin(v); }
      if (bc || ac) {
        int64_t m = bc ? b.lo : a.lo; const Val &x = bc ? a : b;
        if (m >= 0) {
          // low-bit mask
          if (x.lo >= 0 && x.hi <= m && ((m + 1) & m) == 0) return fin(norm(w, x.lo, x.hi, t, x.ls, x.hs));
          bool full = ((m + 1) & m) == 0 && x.ls && x.hs && (i128)x.hi - x.lo >= m;
          int64_t hi = m; if (x.lo >= 0 && x.hi < hi) hi = x.hi;
          return fin(norm(w, 0, hi, t, full, full));
        }
        if (x.lo >= 0) {
          if (w == 32 && m == (int64_t)INT32_MIN) { if (x.hi <= INT32_MAX) return fin(zeroV()); }
          return fin(norm(w, 0, x.hi, t, false, false));
        }
        if (x.hi < 0 && m < 0) { Val v = top(w); v.hi = -1; return fin(v); }
      }
      if (a.lo >= 0 && b.lo >= 0) return fin(norm(w, 0, std::min(a.hi, b.hi), t, false, false));
      if (a.lo >= 0) return fin(norm(w, 0, a.hi, t, false, false));
      if (b.lo >= 0) return fin(norm(w, 0, b.hi, t, false, false));
      return fin(top(w));
    }
    case Instruction::Or: case Instruction::Xor: {
      if (w == 1) { Val v; v.lo = 0; v.hi = 1; v.ls = v.hs = true;
        if (ac && bc) { v.lo = v.hi = I->getOpcode() == Instruction::Or ? (a.lo | b.lo) : (a.lo ^ b.lo); }
        else if (I->getOpcode() == Instruction::Or && ((ac && a.lo) || (bc && b.lo))) v.lo = v.hi = 1;
        return fin(v); }
      if (ac && bc) return fin(norm(w, I->getOpcode() == Instruction::Or ? (a.lo | b.lo) : (a.lo ^ b.lo), I->getOpcode() == Instruction::Or ? (a.lo | b.lo) : (a.lo ^ b.lo), t, true, true));
      if (a.lo >= 0 && b.lo >= 0) {
        int64_t m = std::max(a.hi, b.hi); int64_t p = 1; while (p <= m && p < (1ll << 62)) p <<= 1;
        bool disj = false;
        // (x << k) | y with y < 2^k : behaves as addition
        if (I->getOpcode() == Instruction::Or) for (int sw = 0; sw < 2; sw++) if (auto *S = dyn_cast<BinaryOperator>(I->getOperand(sw))) if (S->getOpcode() == Instruction::Shl || S->getOpcode() == Instruction::Mul) {
          Val k = get(S->getOperand(1), s, f); if (S->getOpcode() == Instruction::Mul) continue;
          const Val &y = sw ? a : b; if (k.lo == k.hi && k.lo < 62 && y.hi < (1ll << k.lo)) disj = true;
        }
        if (disj) return fin(norm(w, (i128)a.lo + b.lo, (i128)a.hi + b.hi, t, a.ls && b.ls, a.hs && b.hs));
        int64_t lo = I->getOpcode() == Instruction::Or ? std::max(a.lo, b.lo) : 0;
        bool hs = I->getOpcode() == Instruction::Or && a.ls && a.hs && b.ls && b.hs && (p - 1 == a.hi || p - 1 == b.hi);
        return fin(norm(w, lo, p - 1, t, false, hs));
      }
      return fin(top(w));
    }
    default: return fin(top(w));
    }
  }
  // a stream or configuration value in a conversion: is it cut down, or does it change its sign?
  std::map<const Instruction *, int> conv;
  void narrowChk(CastInst *C, const Val &a, unsigned ow, unsigned w, const Frame &f) {
    int cls = 1; const char *kind = "trunc"; int64_t cap = 0;
    if (isa<TruncInst>(C)) {
      if (w < 8 || ow > 64) return;
      int64_t mn = -((int64_t)1 << (w - 1)), mx = (int64_t)(((uint64_t)1 << w) - 1); cap = mx;
      if (a.hi > mx || a.lo < mn) cls = (a.hi > mx && a.hs && a.hi != I64MAX) || (a.lo < mn && a.ls && a.lo != I64MIN) ? 3 : 2;
    } else {
      if (ow < 8 || ow >= 32) return;
      if (isa<SExtInst>(C)) { kind = "sext"; cap = ((int64_t)1 << (ow - 1)) - 1; if (a.hi > cap) cls = a.hs && a.hi != I64MAX ? 3 : 2; }
      else { kind = "zext"; if (a.lo < 0) cls = a.ls && a.lo > -((int64_t)1 << (ow - 1)) ? 3 : 2; }
    }
    auto &c = conv[C]; c = std::max(c, cls);
    if (cls == 3) report(C, kind, cap, a.ls ? a.lo : 0, a.hs ? a.hi : 0, describe(C->getOperand(0)), f);
  }
  void zeroDiv(Instruction *I, const Val &b, const Frame &f) {
    Site &st = sites[{I, 1}];
    int cls = (b.lo > 0 || b.hi < 0) ? 1 : (b.taint && ((b.lo == 0 && b.ls) || (b.hi == 0 && b.hs))) ? 3 : 2;
    st.status = std::max(st.status, cls); st.what = "div"; st.taint |= b.taint; st.lo = std::min(st.lo, b.lo); st.hi = std::max(st.hi, b.hi);
    if (cls == 3) report(I, "div", 0, b.lo, b.hi, "division by " + describe(I->getOperand(1)), f);
  }
  void shiftChk(Instruction *I, const Val &b, unsigned w, const Frame &f) {
    if (isa<ConstantInt>(I->getOperand(1))) return;
    oblig(I, 2, "shift", w, b.lo, b.ls, b.hi, b.hs, b.taint, [&] { return "shift by " + describe(I->getOperand(1)); }, f);
  }
  // names a quantity by where it lives rather than by where it is used
  std::string describe(const Value *V, int depth = 0) {
    if (depth > 8) return "?";
    if (auto *C = dyn_cast<ConstantInt>(V)) return std::to_string(C->getSExtValue());
    if (auto *C = dyn_cast<CastInst>(V)) return describe(C->getOperand(0), depth + 1);
    if (auto *B = dyn_cast<BinaryOperator>(V)) return describe(B->getOperand(0), depth + 1) + Instruction::getOpcodeName(B->getOpcode()) + describe(B->getOperand(1), depth + 1);
    if (auto *L = dyn_cast<LoadInst>(V)) {
      const Value *P = L->getPointerOperand();
      for (int k = 0; k < 4; k++) if (auto *G = dyn_cast<GEPOperator>(P)) {
        if (auto *S = dyn_cast<StructType>(G->getSourceElementType())) if (G->getNumIndices() >= 2) {
          StructType *T = S; std::string n = baseName(S);
          Type *cur = S; unsigned k2 = 0;
          for (auto it = G->idx_begin() + 1; it != G->idx_end(); ++it, ++k2) {
            if (auto *Q = dyn_cast<StructType>(cur)) { int fi = (int)cast<ConstantInt>(*it)->getZExtValue(); n += "." + fname(Q, fi); cur = Q->getElementType(fi); }
            else if (auto *A = dyn_cast<ArrayType>(cur)) { n += "[]"; cur = A->getElementType(); }
          }
          (void)T; return n;
        }
        P = G->getPointerOperand();
      } else break;
      if (auto *G = dyn_cast<GlobalVariable>(P)) return G->getName().str() + "[]";
    }
    return localName(V);
  }

  // ------------------------------------------------------------ compare & refine
  int evalCmp(CmpInst::Predicate P, Val a, Val b, unsigned w) { // 1 true 0 false -1 unknown
    if (ICmpInst::isUnsigned(P)) { a = asUnsigned(a, w); b = asUnsigned(b, w); }
    else if (w && w < 64) { a = asSigned(a, w); b = asSigned(b, w); }
    bool same = a.vn && a.vn == b.vn;
    bool nzc = (b.lo == 0 && b.hi == 0 && a.nonZero()) || (a.lo == 0 && a.hi == 0 && b.nonZero());
    switch (P) {
    case CmpInst::ICMP_EQ: if (same) return 1; if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 1; if (a.hi < b.lo || b.hi < a.lo || nzc) return 0; return -1;
    case CmpInst::ICMP_NE: if (same) return 0; if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 0; if (a.hi < b.lo || b.hi < a.lo || nzc) return 1; return -1;
    case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; if (same) return 0; return -1;
    case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: if (a.hi <= b.lo) return 1; if (a.lo > b.hi) return 0; if (same) return 1; return -1;
    case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: if (a.lo > b.hi) return 1; if (a.hi <= b.lo) return 0; if (same) return 0; return -1;
    case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: if (a.lo >= b.hi) return 1; if (a.hi < b.lo) return 0; if (same) return 1; return -1;
    default: return -1;
    }
  }
  bool boundTaint = false; // the bound being imposed comes from the stream: so does whatever is limited by nothing else
  // restrict value V (an SSA value) to [lo,hi]; returns false if empty
  bool restrictVal(const Value *V, State &s, const Frame &f, int64_t lo, bool ls, int64_t hi, bool hs, int depth = 0) {
    if (isa<Constant>(V)) { Val c = constVal(cast<Constant>(V)); return !(V->getType()->isIntegerTy() && (c.lo > hi || c.hi < lo)); }
    Val v = get(V, s, f);
    unsigned w = V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth() : 64;
    if (w < 64 && lo < 0) v = [&] { Val x = asSigned(v, w); x.srcCell = v.srcCell; x.srcKey = v.srcKey; x.srcVer = v.srcVer; return x; }();
    bool ch = false;
    if (lo > v.lo) { v.lo = lo; v.ls = ls; ch = true; }
    if (hi < v.hi) { v.hi = hi; v.hs = hs; ch = true; if (hs) v.taint |= boundTaint; }
    if (v.lo > v.hi) return false;
    if (!ch && depth > 0) return true;
    put(V, s, v);
    if (v.srcCell) refineCell(v, s);
    if (ch && v.vn) for (auto *U : V->users()) if ((isa<SExtInst>(U) || isa<ZExtInst>(U) || isa<TruncInst>(U)) && vidx.count(U) && s.env.get(vidx[U])) { // the same number in another width
      Val x = get(U, s, f);
      if (x.vn != v.vn || (x.lo < 0) != (v.lo < 0)) continue;
      bool cu = false;
      if (v.lo > x.lo) { x.lo = v.lo; x.ls = v.ls; cu = true; }
      if (v.hi < x.hi) { x.hi = v.hi; x.hs = v.hs; x.taint |= v.taint; cu = true; }
      if (cu && x.lo <= x.hi) put(U, s, x);
    }
    if (depth > 6) return true;
    if (auto *I = dyn_cast<Instruction>(V)) {
      if (auto *L = dyn_cast<LoadInst>(I)) { // an entry of a constant table: the indices of the entries that remain possible
        auto *G = dyn_cast<GetElementPtrInst>(L->getPointerOperand());
        auto *T = G ? dyn_cast<GlobalVariable>(G->getPointerOperand()) : nullptr;
        auto *AT = T && T->isConstant() && T->hasInitializer() ? dyn_cast<ArrayType>(T->getValueType()) : nullptr;
        if (AT && AT->getElementType() == L->getType() && L->getType()->isIntegerTy() && AT->getNumElements() <= 4096 && G->getNumIndices() == 2 && G->getSourceElementType() == AT) {
          const Value *X = G->getOperand(2); Val x = get(X, s, f);
          if (!isa<Constant>(X) && x.lo >= 0 && x.hi < (int64_t)AT->getNumElements() && x.lo < x.hi) {
            int64_t a = x.lo, b = x.hi;
            auto in = [&](int64_t k) { Val e = constVal(T->getInitializer()->getAggregateElement((unsigned)k)); if (lo < 0) e = asSigned(e, w); return e.hi >= v.lo && e.lo <= v.hi; };
            while (a <= b && !in(a)) a++;
            while (b >= a && !in(b)) b--;
            if (a > b) return false;
            if (a > x.lo || b < x.hi) return restrictVal(X, s, f, a, a == x.lo ? x.ls : true, b, b == x.hi ? x.hs : true, depth + 1);
          }
        }
      }
      if (auto *C = dyn_cast<CastInst>(I)) {
        const Value *o = C->getOperand(0);
        if (!o->getType()->isIntegerTy()) return true;
        unsigned ow = o->getType()->getIntegerBitWidth();
        if (isa<SExtInst>(C)) return restrictVal(o, s, f, v.lo, v.ls, v.hi, v.hs, depth + 1);
        if (isa<ZExtInst>(C)) { 
          Val ov = get(o, s, f);
          if (ov.lo < 0) { Val u = asUnsigned(ov, ow); u.srcCell = ov.srcCell; u.srcKey = ov.srcKey; u.srcVer = ov.srcVer; put(o, s, u); if (o->getType()->isIntegerTy(1)) return true; }
          return restrictVal(o, s, f, v.lo, v.ls, v.hi, v.hs, depth + 1); }
        if (isa<TruncInst>(C)) { Val ov = get(o, s, f); i128 mx = ((i128)1 << (w - 1)) - 1; if (ov.lo >= 0 && (i128)ov.hi <= mx) return restrictVal(o, s, f, v.lo, v.ls, v.hi, v.hs, depth + 1); }
      } else if (auto *B = dyn_cast<BinaryOperator>(I)) {
        Val c = get(B->getOperand(1), s, f);
        if (c.lo == c.hi && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) {
          int64_t d = B->getOpcode() == Instruction::Add ? c.lo : -c.lo;
          Val x = get(B->getOperand(0), s, f);
          i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
          if (w <= 32 ? ((i128)x.lo + d >= mn && (i128)x.hi + d <= mx) || B->hasNoSignedWrap() : B->hasNoSignedWrap())
            return restrictVal(B->getOperand(0), s, f, v.lo == I64MIN ? I64MIN : clampI((i128)v.lo - d), v.ls, v.hi == I64MAX ? I64MAX : clampI((i128)v.hi - d), v.hs, depth + 1);
        }
        if (c.lo == c.hi && c.lo > 0 && B->getOpcode() == Instruction::Mul && v.lo >= 0) return restrictVal(B->getOperand(0), s, f, I64MIN, false, v.hi / c.lo, v.hs, depth + 1);
        if (B->getOpcode() == Instruction::Add) { // a+b <= hi with known lower bounds
          Val a = get(B->getOperand(0), s, f), b2 = c;
          if (a.lo >= 0 && b2.lo >= 0 && v.hi < I64MAX) {
            bool joint = (i128)a.hi + b2.hi > v.hi; // the two bounds are no longer attained together
            bool ok = restrictVal(B->getOperand(0), s, f, I64MIN, false, v.hi - b2.lo, v.hs && b2.ls, depth + 1);
            ok = ok && restrictVal(B->getOperand(1), s, f, I64MIN, false, v.hi - a.lo, v.hs && a.ls, depth + 1);
            if (ok && joint) for (const Value *O : {B->getOperand(0), B->getOperand(1)}) if (!isa<Constant>(O)) {
              Val o = get(O, s, f); if (o.lo != o.hi && o.hs) { o.hs = false; put(O, s, o); if (o.srcCell) refineCell(o, s); }
            }
            return ok;
          }
        }
      }
    }
    return true;
  }
  void refineCell(const Val &v, State &s) {
    rdCell(v.srcCell); nrCell(v.srcCell);
    const Cell *c = s.mem.get(v.srcCell);
    if (!c || c->ver != v.srcVer) return;
    Cell n = *c; Val x = v; x.srcCell = 0;
    if (!locs[v.srcCell].summary) { x.ps = n.s.ps; n.s = x; }
    else if (v.srcKey) {
      if (n.hasR && n.rkey == v.srcKey) { n.r = x; }
      else { VN ver = n.ver; n = flush(n); n.ver = ver; n.r = x; n.rkey = v.srcKey; n.hasR = true; }
    } else return;
    s.mem.set(v.srcCell, n);
  }
  // the value passed a comparison with a quantity that is not known: its own extreme need not be attained any more
  void unsolid(const Value *V, State &s, const Frame &f, bool up) {
    for (int k = 0; k < 6 && !isa<Constant>(V); k++) {
      Val v = get(V, s, f); if (v.lo == v.hi) return;
      bool &b = up ? v.hs : v.ls; if (!b) return;
      b = false; put(V, s, v); if (v.srcCell) refineCell(v, s);
      auto *Z = dyn_cast<CastInst>(V); if (!Z || !Z->getOperand(0)->getType()->isIntegerTy()) return;
      V = Z->getOperand(0);
    }
  }
  bool assume(const Value *C, bool truth, State &s, const Frame &f, int depth = 0) {
    if (depth > 8) return true;
    if (auto *K = dyn_cast<ConstantInt>(C)) return K->isOne() == truth || (K->getBitWidth() > 1);
    Val cv = get(C, s, f);
    if (C->getType()->isIntegerTy(1) && cv.lo == cv.hi && cv.lo != (truth ? 1 : 0) && cv.lo >= 0) return false;
    if (auto *I = dyn_cast<ICmpInst>(C)) {
      CmpInst::Predicate P = truth ? I->getPredicate() : I->getInversePredicate();
      const Value *A = I->getOperand(0), *B = I->getOperand(1);
      Val a = get(A, s, f), b = get(B, s, f);
      unsigned w = A->getType()->isIntegerTy() ? A->getType()->getIntegerBitWidth() : 64;
      int r = evalCmp(P, a, b, w);
      if (r == 0) return false;
      // boolean chains
      if (b.lo == 0 && b.hi == 0 && (P == CmpInst::ICMP_NE || P == CmpInst::ICMP_EQ)) {
        const Value *X = A; bool ext = false;
        while (auto *Z = dyn_cast<CastInst>(X)) { if (isa<ZExtInst>(Z) || isa<SExtInst>(Z)) { X = Z->getOperand(0); ext = true; } else break; }
        if (X->getType()->isIntegerTy(1) && ext) return assume(X, P == CmpInst::ICMP_NE, s, f, depth + 1);
      }
      bool un = ICmpInst::isUnsigned(P);
      if (un && w < 64) {
        // unsigned comparison with possibly negative left side: a <u b (b>=0) forces 0<=a<b
        if (a.lo < 0 || b.lo < 0) {
          Val bu = asUnsigned(b, w), au = asUnsigned(a, w);
          if (P == CmpInst::ICMP_ULT && b.lo >= 0) return restrictVal(A, s, f, 0, false, bu.hi - 1, bu.hs);
          if (P == CmpInst::ICMP_ULE && b.lo >= 0) return restrictVal(A, s, f, 0, false, bu.hi, bu.hs);
          if (P == CmpInst::ICMP_UGT && a.lo >= 0) return restrictVal(B, s, f, 0, false, au.hi - 1, au.hs);
          if (P == CmpInst::ICMP_UGE && a.lo >= 0) return restrictVal(B, s, f, 0, false, au.hi, au.hs);
          return true;
        }
      }
      if (!un && w < 64) { a = asSigned(a, w); b = asSigned(b, w); }
      switch (P) {
      case CmpInst::ICMP_EQ: return restrictVal(A, s, f, b.lo, b.ls, b.hi, b.hs) && restrictVal(B, s, f, a.lo, a.ls, a.hi, a.hs);
      case CmpInst::ICMP_NE:
        if (b.lo == b.hi) { if (a.lo == b.lo) return restrictVal(A, s, f, satAdd(b.lo, 1), a.ls, I64MAX, false); if (a.hi == b.lo) return restrictVal(A, s, f, I64MIN, false, satAdd(b.lo, -1), a.hs); }
        if (b.lo == 0 && b.hi == 0 && a.lo < 0 && a.hi > 0 && !isa<Constant>(A)) {
          const Value *X = A;
          for (;;) { Val x = get(X, s, f); x.nz = true; put(X, s, x); if (x.srcCell) refineCell(x, s); auto *Z = dyn_cast<CastInst>(X); if (Z && (isa<SExtInst>(Z) || isa<ZExtInst>(Z)) && !isa<Constant>(Z->getOperand(0))) X = Z->getOperand(0); else break; }
          return true;
        }
        if (a.lo == a.hi) { if (b.lo == a.lo) return restrictVal(B, s, f, satAdd(a.lo, 1), b.ls, I64MAX, false); if (b.hi == a.lo) return restrictVal(B, s, f, I64MIN, false, satAdd(a.lo, -1), b.hs); }
        return true;
      case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: {
        int d = P == CmpInst::ICMP_SLT || P == CmpInst::ICMP_ULT;
        boundTaint = b.taint; bool ok = restrictVal(A, s, f, I64MIN, false, satAdd(b.hi, -d), b.hs); boundTaint = false;
        ok = ok && restrictVal(B, s, f, satAdd(a.lo, d), a.ls, I64MAX, false);
        if (ok && !b.hs) unsolid(A, s, f, true);
        if (ok && !a.ls) unsolid(B, s, f, false);
        return ok;
      }
      case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: {
        int d = P == CmpInst::ICMP_SGT || P == CmpInst::ICMP_UGT;
        bool ok = restrictVal(A, s, f, satAdd(b.lo, d), b.ls, I64MAX, false) && restrictVal(B, s, f, I64MIN, false, satAdd(a.hi, -d), a.hs);
        if (ok && !b.ls) unsolid(A, s, f, false);
        if (ok && !a.hs) unsolid(B, s, f, true);
        return ok;
      }
      default: return true;
      }
    }
    if (auto *B = dyn_cast<BinaryOperator>(C)) if (B->getType()->isIntegerTy(1)) {
      if (B->getOpcode() == Instruction::Xor) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) if (K->isOne()) return assume(B->getOperand(0), !truth, s, f, depth + 1);
      if (B->getOpcode() == Instruction::And && truth) return assume(B->getOperand(0), true, s, f, depth + 1) && assume(B->getOperand(1), true, s, f, depth + 1);
      if (B->getOpcode() == Instruction::Or && !truth) return assume(B->getOperand(0), false, s, f, depth + 1) && assume(B->getOperand(1), false, s, f, depth + 1);
    }
    if (C->getType()->isIntegerTy(1)) return restrictVal(C, s, f, truth, true, truth, true, 0);
    return true;
  }

  // ------------------------------------------------------------ calls
  struct Ret { Val v; PMap<Cell> mem; };
  typedef std::vector<uint64_t> Bits;
  static void setBit(Bits &b, uint32_t i) { if (b.size() <= i / 64) b.resize(i / 64 + 8, 0); b[i / 64] |= 1ull << (i % 64); }
  static void orBits(Bits &a, const Bits &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] |= b[i]; }
  template <class F> static bool eachBit(const Bits &b, F f) { for (size_t i = 0; i < b.size(); i++) { uint64_t w = b[i]; while (w) { int k = __builtin_ctzll(w); w &= w - 1; if (!f((uint32_t)(i * 64 + k))) return false; } } return true; }
  struct RW { Bits rd, wr, st; }; // read; changed in any way; stored to (as opposed to narrowed by a comparison)
  std::vector<RW> rw;
  void rdCell(uint32_t l) { if (!rw.empty()) setBit(rw.back().rd, l); }
  void wrCell(uint32_t l) { if (!rw.empty()) { setBit(rw.back().wr, l); setBit(rw.back().st, l); } }
  void nrCell(uint32_t l) { if (!rw.empty()) setBit(rw.back().wr, l); }
  struct Memo { std::vector<Val> args; PMap<Cell> mem; std::vector<Ret> out; RW rw; };
  std::unordered_map<const Function *, std::list<Memo>> memo;
  bool cellLeq(uint32_t l, const Cell *n, const Cell *o) {
    if (n == o) return true;
    if (!n) { if (!o) return true; return false; }
    if (!o) return false;
    Cell j = joinCell(l, *o, *n, 1, false, false);
    return j.same(*o);
  }
  std::set<std::string> skipFns;
  std::map<std::string, int> readBitsFns; // name -> 1 read n bits arg1, 2 read 32
  bool argsLeq(const std::vector<Val> &n, const std::vector<Val> &o) {
    if (n.size() != o.size()) return false;
    for (size_t i = 0; i < n.size(); i++) { Val j = join(o[i], n[i]); if (!j.same(o[i])) return false; }
    return true;
  }
  static VN siteId(const Instruction *I) { return (VN)(uintptr_t)I; }

  void execCall(CallBase *CB, std::vector<State> &states, const Frame &f) {
    std::vector<State> out;
    for (State &s : states) callOne(CB, s, f, out);
    // cap the number of partitions
    while (out.size() > 6) {
      State b = out.back(); out.pop_back(); State &a = out.back(); if (!a.tag) a.tag = b.tag;
      a.mem = joinMem(a.mem, b.mem, hmix(f.id, siteId(CB)), false, false);
      a.env = joinEnv(a.env, b.env, false);
    }
    states.swap(out);
  }
  void setRet(CallBase *CB, State &s, const Val &v) { if (!CB->getType()->isVoidTy()) put(CB, s, v); }
  Val readBits(const Val &n, unsigned w) {
    Val v; v.taint = streamTaint; v.lo = 0; v.ls = v.hs = true;
    int64_t k = n.hi; bool hs = n.hs || n.lo == n.hi;
    if (k < 0) k = 0;
    if (k >= 32) { v.hi = k == 32 ? 4294967295ll : 4294967295ll; if (k > 32) hs = false; }
    else v.hi = (1ll << k) - 1;
    v.hs = hs;
    return v;
  }
  std::vector<uint32_t> typeCells(StructType *) { return {}; }
  void zeroObject(State &s, const Val &p, Type *hint, int64_t bytes, VN ver, const Val &val) {
    if (!p.ps) return;
    for (auto &t : psets[p.ps]) zeroLoc(s, t.loc, ver, val, 0, bytes);
  }
  void zeroLoc(State &s, uint32_t l, VN ver, const Val &val, int depth, int64_t bytes) {
    if (!l || depth > 6) return;
    Loc L = locs[l];
    const GlobalVariable *G;
    if (constGlobalLoc(l, G)) return;
    Type *ty = L.ty;
    if (L.k == Loc::Deref) { // pointee of unknown type: assign its element cell
      return;
    }
    if (!ty) return;
    if (auto *S = dyn_cast<StructType>(ty)) {
      if (S->isOpaque()) return;
      Loc &R = locs[L.root]; bool localObj = R.k == Loc::Alloca || R.k == Loc::Global;
      uint32_t base = localObj ? l : locType(S);
      const StructLayout *SL = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) { if (bytes >= 0 && (int64_t)(uint64_t)SL->getElementOffset(i) >= bytes) break; zeroLoc(s, locField(base, S, i), ver, val, depth + 1, -1); }
    } else if (auto *A = dyn_cast<ArrayType>(ty)) zeroLoc(s, locElem(l, A->getElementType(), A->getNumElements()), ver, val, depth + 1, bytes);
    else if (ty->isIntegerTy() || ty->isPointerTy()) {
      Cell n; const Cell *c = s.mem.get(l); wrCell(l); rdCell(l);
      Val v = val; 
      if (ty->isPointerTy()) { v = zeroV(); }
      if (!locs[l].summary) { n.s = v; n.ver = ver; }
      else { if (c) { n = flush(*c); n.s = join(n.s, v); } else n.s = v; n.ver = ver; }
      s.mem.set(l, n);
    }
  }
  void havocLoc(State &s, uint32_t l, VN ver) {
    if (!l) return;
    Val v; v.lo = I64MIN; v.hi = I64MAX;
    Cell n; const Cell *c = s.mem.get(l);
    if (c) { n = flush(*c); }
    n.s = Val(); n.ver = ver; n.hasR = false;
    (void)v;
    s.mem.set(l, n);
  }
  // copy between two objects
  void copyObj(State &s, const Val &d, const Val &src, VN ver, const Frame &f, const Instruction *I) {
    if (!d.ps || !src.ps || psets[d.ps].size() != 1) return;
    for (auto &u : psets[src.ps]) copyLoc(s, psets[d.ps][0].loc, u.loc, ver, 0);
  }
  void copyLoc(State &s, uint32_t d, uint32_t u, VN ver, int depth) {
    if (d == u || !d || !u || depth > 6) return;
    Type *dt = locs[d].ty, *ut = locs[u].ty;
    if (!dt && locs[d].k != Loc::Deref) return;
    StructType *S = dyn_cast_or_null<StructType>(dt); if (!S) S = dyn_cast_or_null<StructType>(ut);
    if (S && !S->isOpaque()) {
      auto baseOf = [&](uint32_t l) { Loc &R = locs[locs[l].root]; bool lo = (R.k == Loc::Alloca || R.k == Loc::Global); if (lo && locs[l].ty && isa<StructType>(locs[l].ty) && canon(cast<StructType>(locs[l].ty)) == canon(S)) return l; return locType(S); };
      uint32_t bd = baseOf(d), bu = baseOf(u);
      if (bd == bu) return;
      for (unsigned i = 0; i < S->getNumElements(); i++) copyLoc(s, locField(bd, S, i), locField(bu, S, i), ver, depth + 1);
      return;
    }
    if (auto *A = dyn_cast_or_null<ArrayType>(dt)) {
      if (auto *B = dyn_cast_or_null<ArrayType>(ut)) { copyLoc(s, locElem(d, A->getElementType(), A->getNumElements()), locElem(u, B->getElementType(), B->getNumElements()), ver, depth + 1); return; }
      if (ut && !ut->isAggregateType()) { copyLoc(s, locElem(d, A->getElementType(), A->getNumElements()), u, ver, depth + 1); return; }
      return;
    }
    if (auto *B = dyn_cast_or_null<ArrayType>(ut)) { copyLoc(s, d, locElem(u, B->getElementType(), B->getNumElements()), ver, depth + 1); return; }
    if (!dt || !(dt->isIntegerTy() || dt->isPointerTy())) return;
    Target t = T0(u); 
    Val v = loadLoc(s, u, 0, dt, -1, t); v.vn = 0; v.srcCell = 0;
    storeLoc(s, d, 0, v, hmix(ver, d), !locs[d].summary);
  }
  void callOne(CallBase *CB, State &s, const Frame &f, std::vector<State> &out) {
    Function *C = CB->getCalledFunction();
    unsigned rw = CB->getType()->isIntegerTy() ? CB->getType()->getIntegerBitWidth() : 64;
    VN cid = hmix(f.id, siteId(CB));
    auto done = [&](Val v) { if (!v.vn) v.vn = hmix(cid, 5); setRet(CB, s, v); out.push_back(s); };
    if (!C) { done(CB->getType()->isIntegerTy() ? top(rw) : Val()); return; }
    StringRef n = C->getName();
    if (isa<DbgInfoIntrinsic>(CB)) { out.push_back(s); return; }
    if (auto *MI = dyn_cast<MemSetInst>(CB)) {
      Val d = get(MI->getDest(), s, f), v = get(MI->getValue(), s, f), ln = get(MI->getLength(), s, f);
      memLen(CB, d, ln, f, 0);
      if (v.lo == 0 && v.hi == 0) zeroObject(s, d, nullptr, ln.lo == ln.hi ? ln.lo : -1, cid, zeroV());
      else if (v.lo == v.hi && (v.lo == -1 || v.lo == 255)) { Val m = zeroV(); m.lo = m.hi = -1; zeroObject(s, d, nullptr, ln.lo == ln.hi ? ln.lo : -1, cid, m); }
      out.push_back(s); return;
    }
    if (auto *MT = dyn_cast<MemTransferInst>(CB)) {
      Val d = get(MT->getDest(), s, f), u = get(MT->getSource(), s, f), ln = get(MT->getLength(), s, f);
      memLen(CB, d, ln, f, 0); memLen(CB, u, ln, f, 1);
      copyObj(s, d, u, cid, f, CB);
      out.push_back(s); return;
    }
    if (C->isIntrinsic()) {
      auto id = C->getIntrinsicID();
      if (id == Intrinsic::abs) { Val a = asSigned(get(CB->getArgOperand(0), s, f), rw); Val v = a; v.srcCell = 0; v.vn = 0; if (a.lo >= 0) ; else if (a.hi <= 0) { v.lo = -a.hi; v.hi = clampI(-(i128)a.lo); v.ls = a.hs; v.hs = a.ls; } else { v.lo = 0; v.ls = false; i128 m = -(i128)a.lo; if (m > a.hi) { v.hi = clampI(m); v.hs = a.ls; } } if (v.hi > 2147483647ll && rw == 32) { v.hi = 2147483647ll; } done(v); return; }
      done(CB->getType()->isIntegerTy() ? top(rw) : Val()); return;
    }
    auto rb = readBitsFns.find(n.str());
    if (rb != readBitsFns.end()) {
      Val nb; 
      if (rb->second == 1) { nb = get(CB->getArgOperand(1), s, f); 
        oblig(CB, 3, "width", 33, nb.lo, nb.ls, nb.hi, nb.hs, nb.taint, [&] { return "bits requested from the reader: " + describe(CB->getArgOperand(1)); }, f); }
      else { nb = zeroV(); nb.lo = nb.hi = 32; }
      done(readBits(nb, rw)); return;
    }
    if (C->isDeclaration() || skipFns.count(n.str())) {
      if (n == "_setjmp") { Val v; v.lo = 0; v.hi = 1; v.ls = v.hs = true; done(v); return; }
      if (C->doesNotReturn() || n == "longjmp" || n == "exit" || n == "__assert_fail") { return; }
      done(CB->getType()->isIntegerTy() ? top(rw) : Val()); return;
    }
    // recursion guard
    int deep = 0;
    for (const Frame *p = &f; p; p = p->up) if (p->F == C && ++deep >= 2) return; // deeper recursion repeats states that the calls below already cover
    std::vector<Val> args;
    for (unsigned i = 0; i < CB->arg_size(); i++) { Val a = get(CB->getArgOperand(i), s, f); args.push_back(a); }
    std::vector<Ret> rs;
    analyze(C, args, s.mem, Frame{C, cid, &f, CB, f.depth + 1}, rs);
    for (auto &r : rs) {
      State t = s; t.mem = r.mem; Val v = r.v; v.srcCell = v.srcCell; 
      if (!v.vn) v.vn = hmix(cid, 5 + (&r - &rs[0]));
      if (!CB->getType()->isVoidTy()) put(CB, t, v);
      if (rs.size() == 2 && v.nonZero() && !t.tag && returnsStatus(C)) t.tag = tagOf(CB);
      out.push_back(t);
    }
  }
  std::unordered_map<const CallBase *, int> tagIx; std::unordered_map<const Function *, int> tagCnt;
  int tagOf(const CallBase *CB) { int &t = tagIx[CB]; if (!t) { int &c = tagCnt[CB->getFunction()]; if (c < NTAG - 1) c++; t = c; } return t; }
  std::map<const Function *, bool> statusFn;
  bool returnsStatus(const Function *F) { // declared to return an error code
    auto it = statusFn.find(F); if (it != statusFn.end()) return it->second;
    bool r = true;
    if (auto *SP = F->getSubprogram()) if (SP->getType() && SP->getType()->getTypeArray().size()) {
      auto *T = dyn_cast_or_null<DIDerivedType>(SP->getType()->getTypeArray()[0]);
      r = T && T->getTag() == llvm::dwarf::DW_TAG_typedef && T->getName() == "IA_ERRORCODE";
    }
    return statusFn[F] = r;
  }
  void memLen(const Instruction *I, const Val &p, const Val &len, const Frame &f, int slot) {
    if (!p.ps || !len.taint) return;
    int k = 0;
    for (auto &t : psets[p.ps]) {
      k++;
      if (!t.loc) continue;
      int64_t cap = -1; Loc &L = locs[t.loc];
      if (L.k == Loc::Elem && t.n > 0 && L.ty) cap = (t.n - std::max<int64_t>(0, t.lo)) * (int64_t)(uint64_t)DL.getTypeAllocSize(L.ty);
      else if (L.k == Loc::Field && L.ty && L.ty->isArrayTy()) cap = DL.getTypeAllocSize(L.ty);
      if (cap < 0) continue;
      oblig(I, 4000 + slot * 100 + k, "memlen", cap + 1, len.lo, false, len.hi, len.hs, len.taint, [&] { return "block copy/set of " + locName(t.loc); }, f);
    }
  }

  // ------------------------------------------------------------ function analysis
  void analyze(Function *F, const std::vector<Val> &args, const PMap<Cell> &memIn, Frame fr, std::vector<Ret> &out) {
    nCalls++;
    auto &mv = memo[F];
    for (auto mit = mv.begin(); mit != mv.end(); ++mit) {
      Memo &m = *mit;
      if (!argsLeq(args, m.args)) continue;
      if (!eachBit(m.rw.rd, [&](uint32_t l) { return cellLeq(l, memIn.get(l), m.mem.get(l)); })) continue;
      nMemo++;
      out = m.out;
      std::map<VN, VN> sub; // the instances the remembered call worked on -> those of this call
      for (size_t i = 0; i < args.size(); i++) if (m.args[i].vn && args[i].vn && m.args[i].vn != args[i].vn) sub[m.args[i].vn] = args[i].vn;
      for (auto &r : out) {
        r.v.vn = 0; r.v.srcCell = 0;
        PMap<Cell> nm = memIn;
        eachBit(m.rw.wr, [&](uint32_t l) { const Cell *c = r.mem.get(l); if (!c) return true; if (c->hasR && !sub.empty()) { Cell n = *c; n.rkey = translate(n.rkey, sub); nm.set(l, n); } else nm.set(l, *c); return true; });
        r.mem = nm;
      }
      if (!rw.empty()) { orBits(rw.back().rd, m.rw.rd); orBits(rw.back().wr, m.rw.wr); orBits(rw.back().st, m.rw.st); }
      if (mit != mv.begin()) mv.splice(mv.begin(), mv, mit);
      return;
    }
    rw.emplace_back();
    funcVisits[F->getName().str()]++;
    if (getenv("ABSPROG") && nCalls % 20000 < 1) { errs() << nCalls << " memo " << nMemo << " locs " << locs.size() << " ps " << psets.size() << " " << pathOf(fr) << "\n"; }
    if (dbg && fr.depth <= 6) { for (int i = 0; i < fr.depth; i++) errs() << " "; errs() << F->getName() << " c" << nCalls << " b" << nBlocks << "\n"; }
    std::vector<Ret> zero, nz; // partitions
    Run R(*this, F, fr);
    State s; s.mem = memIn;
    unsigned i = 0;
    for (Argument &A : F->args()) { if (i < args.size()) s.env.set(vidx[&A], args[i]); i++; }
    R.go(s);
    out.clear();
    if (R.hasZ) out.push_back(R.z);
    if (R.hasN) out.push_back(R.nz);
    RW mine = std::move(rw.back()); rw.pop_back();
    for (auto &r : out) { // what the function did not write is as the caller left it
      PMap<Cell> nm = memIn;
      eachBit(mine.wr, [&](uint32_t l) { const Cell *c = r.mem.get(l); if (c) nm.set(l, *c); return true; });
      r.mem = nm;
    }
    if (!rw.empty()) { orBits(rw.back().rd, mine.rd); orBits(rw.back().wr, mine.wr); orBits(rw.back().st, mine.st); }
    if (mv.size() >= 24) mv.pop_back();
    mv.emplace_front(); Memo &m = mv.front(); m.args = args; m.mem = memIn; m.out = out; m.rw = std::move(mine);
  }

  struct LoopHeads { std::set<int> natural; std::vector<std::vector<int>> enclosing; bool done = false; };
  std::unordered_map<const Function *, LoopHeads> lhs;
  LoopHeads &loopHeads(Function *F) {
    LoopHeads &h = lhs[F]; if (h.done) return h; h.done = true;
    DominatorTree *&D = dts[F]; if (!D) D = new DominatorTree(*F);
    LoopInfo LI(*D); h.enclosing.resize(rpo[F].size());
    for (BasicBlock *B : rpo[F]) for (Loop *L = LI.getLoopFor(B); L; L = L->getParentLoop()) { int r = rpoNo[L->getHeader()]; h.natural.insert(r); h.enclosing[rpoNo[B]].push_back(r); }
    return h;
  }
  std::map<const BranchInst *, int> brSeen;
  struct Run {
    Engine &E; Function *F; Frame fr; bool hasZ = false, hasN = false; Ret z, nz;
    std::map<int, State> in; std::map<int, int> visits; std::set<int> work; 
    Run(Engine &e, Function *f, Frame fr_) : E(e), F(f), fr(fr_) {}
    void go(State s0) {
      in[0] = s0; work.insert(0);
      auto &bl = E.rpo[F];
      long guard = 0;
      while (!work.empty()) {
        int b = *work.begin(); work.erase(work.begin());
        if (++guard > 20000) { errs() << "no convergence in " << F->getName() << "\n"; break; }
        State s = in[b];
        E.nBlocks++; E.blkCnt[F]++;
        auto &en = E.loopHeads(F).enclosing[b / NTAG];
        if (en.empty()) { block(bl[b / NTAG], s); continue; }
        Bits mine; std::swap(mine, E.rw.back().st);
        block(bl[b / NTAG], s);
        for (int h : en) orBits(loopW[h], E.rw.back().st);
        std::swap(mine, E.rw.back().st); orBits(E.rw.back().st, mine);
      }
    }
    void block(BasicBlock *B, State &s0) {
      static const char *bw = getenv("ABSBLK"), *bc = getenv("ABSCELL");
      if (bw && bc && F->getName() == bw) s0.mem.forEach([&](uint32_t k, const Cell &c) { if (E.locName(k) == bc) { Val v = E.cellVal(c); errs() << "BLK " << E.where(B->getTerminator()) << " tag " << s0.tag << " [" << v.lo << (v.ls ? "!" : "") << "," << v.hi << (v.hs ? "!" : "") << "]" << (v.taint ? "T" : "") << (c.hasR ? " focus " : "") << (c.hasR ? std::to_string(c.r.lo) + "," + std::to_string(c.r.hi) + " key " + std::to_string(c.rkey % 9973) : "") << "\n"; } });
      std::vector<State> st; st.push_back(s0);
      for (Instruction &I : *B) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        if (I.isTerminator()) { for (State &s : st) term(B, &I, s); return; }
        if (auto *CB = dyn_cast<CallBase>(&I)) { E.execCall(CB, st, fr); if (st.empty()) return; continue; }
        if (splits(&I)) {
          std::vector<State> more;
          for (State &s : st) { State t = s; if (splitSelect(&I, s, t)) more.push_back(t); }
          for (State &s : more) st.push_back(s);
          continue;
        }
        for (State &s : st) E.step(&I, s, fr);
      }
    }
    // a choice between two constants (an error code and success, as a rule) is followed like the branch it came from
    static bool splits(Instruction *I) { auto *S = dyn_cast<SelectInst>(I); return S && S->getType()->isIntegerTy() && isa<ConstantInt>(S->getTrueValue()) && isa<ConstantInt>(S->getFalseValue()) && S->getCondition()->getType()->isIntegerTy(1); }
    bool splitSelect(Instruction *I, State &s, State &t) { // true: both outcomes are possible (t is the second)
      auto *S = cast<SelectInst>(I); State u = s;
      bool a = E.assume(S->getCondition(), true, s, fr), b = E.assume(S->getCondition(), false, t, fr);
      if (a) E.put(S, s, E.get(S->getTrueValue(), s, fr));
      if (b) E.put(S, t, E.get(S->getFalseValue(), t, fr));
      if (a && b) return true;
      if (b) s = t; else if (!a) { s = u; E.step(I, s, fr); }
      return false;
    }
    void ret(ReturnInst *R, State &s) {
      Ret r; r.mem = s.mem;
      if (R->getReturnValue()) r.v = E.get(R->getReturnValue(), s, fr);
      r.v.srcCell = r.v.srcCell;
      if (getenv("ABSRET") && R->getReturnValue() && R->getReturnValue()->getType()->isIntegerTy(32) && (!r.v.nonZero() && r.v.lo < -20000)) errs() << "RET " << F->getName() << " " << E.where(R) << " " << r.v.lo << "," << r.v.hi << "\n";
      static const char *retw = getenv("ABSRETW");
      if (retw) s.mem.forEach([&](uint32_t k, const Cell &c) { if (E.locName(k) == retw) { Val v = E.cellVal(c); errs() << "RETW " << F->getName() << " " << E.where(R) << " ret [" << r.v.lo << "," << r.v.hi << (r.v.nonZero() ? " nz" : "") << "] tag " << s.tag << " cell [" << v.lo << (v.ls ? "!" : "") << "," << v.hi << (v.hs ? "!" : "") << "] " << E.pathOf(fr) << "\n"; } });
      bool isInt = R->getReturnValue() && R->getReturnValue()->getType()->isIntegerTy(32);
      bool zr = !isInt || !r.v.nonZero();
      if (isInt && !(r.v.lo == 0 && r.v.hi == 0) && zr) {
        // may be zero or not: for error-style values split only if memory partition is useful; keep as one
      }
      bool &h = zr ? hasZ : hasN; Ret &d = zr ? z : nz;
      if (!h) { h = true; d = r; }
      else { d.v = E.join(d.v, r.v); d.v.vn = 0; d.v.srcCell = 0; d.mem = E.joinMem(d.mem, r.mem, hmix(fr.id, zr ? 21 : 22), false, false); }
    }
    void term(BasicBlock *B, Instruction *I, State &s) {
      if (auto *R = dyn_cast<ReturnInst>(I)) { ret(R, s); return; }
      if (auto *Br = dyn_cast<BranchInst>(I)) {
        if (Br->isUnconditional()) { edge(B, Br->getSuccessor(0), s); return; }
        State t = s;
        if (Br->getSuccessor(0) == Br->getSuccessor(1)) { edge(B, Br->getSuccessor(0), s); return; }
        auto &bs = E.brSeen[Br];
        if (E.assume(Br->getCondition(), true, s, fr)) { bs |= 1; edge(B, Br->getSuccessor(0), s); }
        if (E.assume(Br->getCondition(), false, t, fr)) { bs |= 2; edge(B, Br->getSuccessor(1), t); }
        return;
      }
      if (auto *S = dyn_cast<SwitchInst>(I)) {
        Val c = E.get(S->getCondition(), s, fr);
        unsigned w = S->getCondition()->getType()->getIntegerBitWidth();
        Val cs = E.asSigned(c, w);
        std::map<BasicBlock *, std::vector<int64_t>> m;
        for (auto &cse : S->cases()) m[cse.getCaseSuccessor()].push_back(cse.getCaseValue()->getSExtValue());
        std::set<int64_t> covered;
        for (auto &p : m) {
          int64_t lo = I64MAX, hi = I64MIN; bool any = false;
          for (int64_t v : p.second) { covered.insert(v); if ((v >= cs.lo && v <= cs.hi) || (v >= c.lo && v <= c.hi)) { any = true; lo = std::min(lo, v); hi = std::max(hi, v); } }
          if (!any) continue;
          State t = s;
          if (p.first == S->getDefaultDest()) { edge(B, p.first, t); continue; }
          if (E.restrictVal(S->getCondition(), t, fr, lo, true, hi, true)) edge(B, p.first, t);
        }
        // default
        bool needDef = true;
        int64_t lo = cs.lo, hi = cs.hi;
        if (hi - lo < 4096 && hi >= lo) { while (lo <= hi && covered.count(lo)) lo++; while (hi >= lo && covered.count(hi)) hi--; needDef = lo <= hi; }
        if (needDef) { State t = s; if (hi - lo < 4096) { if (E.restrictVal(S->getCondition(), t, fr, lo, cs.ls, hi, cs.hs)) edge(B, S->getDefaultDest(), t); } else edge(B, S->getDefaultDest(), t); }
        return;
      }
      for (BasicBlock *S : successors(B)) { State t = s; edge(B, S, t); }
    }
    void small(BasicBlock *S, State &s, BasicBlock::iterator it) {
      for (; it != S->end(); ++it) {
        Instruction &I = *it;
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (I.isTerminator()) { term(S, &I, s); return; }
        if (splits(&I)) { State t = s; if (splitSelect(&I, s, t)) small(S, t, std::next(it)); continue; }
        E.step(&I, s, fr);
      }
    }
    void edge(BasicBlock *P, BasicBlock *S, State &s) {
      // phis
      std::vector<std::pair<const Value *, Val>> ph;
      for (Instruction &I : *S) {
        auto *N = dyn_cast<PHINode>(&I); if (!N) break;
        Val v = E.get(N->getIncomingValueForBlock(P), s, fr);
        if (N->getType()->isIntegerTy() || N->getType()->isPointerTy()) ph.push_back({N, v});
      }
      bool hdr = E.headers.count(S);
      for (auto &p : ph) { Val v = p.second; if (hdr) { v.vn = hmix(hmix(fr.id, (VN)(uintptr_t)p.first), 9); v.srcCell = 0; } E.put(p.first, s, v); }
      if (E.smallB.count(S)) {
        small(S, s, S->getFirstNonPHIOrDbg()->getIterator()); return;
      }
      int b0 = E.rpoNo[S], b = b0 * NTAG + s.tag;
      {
        auto &dv = E.domSet(S);
        s.env.filterIn([&](uint32_t k) { uint32_t d = E.defBlk[k]; if (!d) return true; if (d - 1 == (uint32_t)b0) return E.isPhi[k] != 0; return (bool)dv[d - 1]; });
      }
      auto it = in.find(b);
      VN jv = hmix(hmix(fr.id, (VN)(uintptr_t)S), 31);
      const Bits *W = nullptr; bool whole = false; // array elements the loop may touch are no longer told apart from iteration to iteration
      if (hdr) { auto &lh = E.loopHeads(F); if (lh.natural.count(b0)) W = &loopW[b0]; else whole = true; flush(s, whole ? nullptr : W); }
      if (it == in.end()) { in[b] = s; work.insert(b); return; }
      bool widen = hdr && visits[b] > 3;
      if (widen) thresholds(S, it->second, s);
      E.inLoop = hdr;
      PMap<Cell> m = E.joinMem(it->second.mem, s.mem, jv, whole, !widen || visits[b] <= 4 ? 0 : visits[b] <= E.CAP ? 2 : 1, W, hdr ? &grownM[b] : nullptr, 1, E.LADDER - 4);
      PMap<Val> e = E.joinEnv(it->second.env, s.env, false);
      if (widen) e = E.joinEnv(it->second.env, s.env, visits[b] > 5, visits[b] <= E.CAP ? &grownE[b] : nullptr);
      E.inLoop = false;
      if (m.root == it->second.mem.root && e.root == it->second.env.root) return;
      visits[b]++;
      if (E.dbg && visits[b] > 30) {
        errs() << F->getName() << " bb" << b << " v" << visits[b] << "\n";
        m.forEach([&](uint32_t k, const Cell &c) { const Cell *o = it->second.mem.get(k); if (!o || !o->same(c)) { Val v = E.cellVal(c); errs() << "  cell " << E.locName(k) << " [" << v.lo << "," << v.hi << "] ps" << v.ps << " R" << c.hasR; if (o) { Val w = E.cellVal(*o); errs() << " was [" << w.lo << "," << w.hi << "] ps" << w.ps << " R" << o->hasR << " t" << w.taint << v.taint << w.ls << w.hs << v.ls << v.hs;} errs() << "\n"; } });
        e.forEach([&](uint32_t k, const Val &c) { const Val *o = it->second.env.get(k); if (!o || !o->same(c)) { errs() << "  env " << k << " [" << c.lo << "," << c.hi << "] ps" << c.ps; if (o) errs() << " was [" << o->lo << "," << o->hi << "] ps" << o->ps; errs() << "\n"; } });
      }
      // phi value numbers: merged values of non-header phis
      it->second.mem = m; it->second.env = e;
      for (auto &p : ph) { const Val *v = it->second.env.get(E.vidx[p.first]); if (v && !v->vn) { Val x = *v; x.vn = hmix(hmix(fr.id, (VN)(uintptr_t)p.first), 9); it->second.env.set(E.vidx[p.first], x); } }
      work.insert(b);
    }
    std::map<int, Bits> loopW;
    std::unordered_map<int, Engine::Grown> grownM, grownE;
    void flush(State &s, const Bits *W) {
      auto fn = [&](uint32_t k, Cell &c) { if (!c.hasR || (W && !hasBit(*W, k))) return false; c = E.flush(c); return true; };
      auto *n = PMap<Cell>::mapAll(s.mem.root, fn);
      if (n != s.mem.root) { PMap<Cell>::inc(n); PMap<Cell>::dec(s.mem.root); s.mem.root = n; }
    }
    // widen induction variables to the bounds they are compared with
    void thresholds(BasicBlock *H, State &old, State &nw) {
      for (Instruction &I : *H) {
        auto *N = dyn_cast<PHINode>(&I); if (!N) break;
        if (!N->getType()->isIntegerTy()) continue;
        uint32_t ix = E.vidx[N];
        const Val *a = old.env.get(ix), *b = nw.env.get(ix);
        if (!a || !b) continue;
        Val j = E.join(*a, *b); bool up = j.hi > a->hi, dn = j.lo < a->lo;
        if (!up && !dn) continue;
        int64_t th = I64MAX, tl = I64MIN; bool ths = false, tls = false, tht = false;
        auto consider = [&](const Value *V) {
          for (const User *U : V->users()) if (auto *C = dyn_cast<ICmpInst>(U)) {
            const Value *O = C->getOperand(0) == V ? C->getOperand(1) : C->getOperand(0);
            Val o = E.get(O, nw, fr);
            if (!isa<Constant>(O)) { const Val *q = nw.env.get(E.vidx[O]); if (!q) { q = old.env.get(E.vidx[O]); if (!q) q = lastKnown(O); if (!q) continue; } o = *q; }
            for (int d = -1; d <= 1; d++) {
              int64_t c = satAdd(o.hi, d); if (c >= j.hi && c < th && o.hi != I64MAX) { th = c; ths = o.hs; tht = o.taint; }
              int64_t e = satAdd(o.lo, d); if (e <= j.lo && e > tl && o.lo != I64MIN) { tl = e; tls = o.ls; }
            }
          }
        };
        consider(N);
        for (User *U : N->users()) { if (isa<CastInst>(U) || isa<BinaryOperator>(U)) consider(cast<Value>(U)); }
        if (bumps[N] > 2) continue;
        Val x = *b;
        if (up && th != I64MAX && th > x.hi) { x.hi = th; x.hs = ths; if (ths) x.taint |= tht; }
        if (dn && tl != I64MIN && tl < x.lo) { x.lo = tl; x.ls = tls; }
        nw.env.set(ix, x);
        // make old hold it too so that widening does not discard it
        Val o2 = *a; if (up && th != I64MAX) { o2.hi = std::max(o2.hi, x.hi); o2.hs = x.hs; o2.taint |= x.taint; } if (dn && tl != I64MIN) { o2.lo = std::min(o2.lo, x.lo); o2.ls = x.ls; }
        if (!o2.same(*a)) { bumps[N]++; old.env.set(ix, o2); forced = true; work.insert(E.rpoNo[H] * NTAG + nw.tag); }
      }
    }
    bool forced = false; std::map<const Value *, int> bumps;
    Val lk;
    const Val *lastKnown(const Value *O) {
      // value defined inside the loop: search the block states
      auto *I = dyn_cast<Instruction>(O); if (!I) return nullptr;
      for (auto &p : in) { const Val *q = p.second.env.get(E.vidx[O]); if (q) { lk = *q; return &lk; } }
      return nullptr;
    }
  };

  void step(Instruction *I, State &s, const Frame &f) {
    if (auto *A = dyn_cast<AllocaInst>(I)) {
      uint32_t l = mkLoc(Loc::Alloca, 0, 0, A, A->getAllocatedType(), -1);
      put(A, s, ptrTo(l, hmix(f.id, (VN)(uintptr_t)A))); return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) { put(I, s, evalGEP(cast<GEPOperator>(G), s, f, I)); return; }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      Type *ty = L->getType();
      Val p = get(L->getPointerOperand(), s, f);
      deref(I, p, f);
      if (!(ty->isIntegerTy() || ty->isPointerTy())) return;
      unsigned w = ty->isIntegerTy() ? ty->getIntegerBitWidth() : 64;
      Val v; bool first = true;
      if (!p.ps) v = ty->isIntegerTy() ? top(w) : Val();
      else {
        bool single = psets[p.ps].size() == 1;
        for (auto &t : psets[p.ps]) {
          Val x = loadLoc(s, t.loc, p.vn ? p.vn : 0, ty, t.n, t);
          if (ty->isIntegerTy() && x.ps) { x = top(w); }
          // tainted index selects a tainted element
          if (first) { v = x; first = false; } else v = join(v, x);
        }
        if (!single) v.srcCell = 0;
        if (!p.vn) v.srcCell = single && !locs[psets[p.ps][0].loc].summary ? v.srcCell : 0;
      }
      static const char *wl = getenv("ABSLOAD");
      if (wl && where(I).find(wl) != std::string::npos) { errs() << "LOAD " << where(I) << " " << *I << " ps " << p.ps; if (p.ps) for (auto &t : psets[p.ps]) errs() << " " << locName(t.loc) << (s.mem.get(t.loc) ? "" : "(absent)"); errs() << " [" << v.lo << "," << v.hi << "] vps " << v.ps; if (v.ps) for (auto &t : psets[v.ps]) errs() << " ->" << locName(t.loc); errs() << "\n"; }
      if (!v.vn) v.vn = 0;
      put(I, s, v); return;
    }
    if (auto *S = dyn_cast<StoreInst>(I)) {
      Type *ty = S->getValueOperand()->getType();
      Val p = get(S->getPointerOperand(), s, f);
      deref(I, p, f);
      if (!(ty->isIntegerTy() || ty->isPointerTy())) return;
      Val v = get(S->getValueOperand(), s, f);
      if (!p.ps) return;
      bool single = psets[p.ps].size() == 1;
      VN ver = hmix(hmix(f.id, (VN)(uintptr_t)I), 41);
      static const char *watch = getenv("ABSWATCH");
      for (auto &t : psets[p.ps]) {
        if (watch && locName(t.loc).find(watch) != std::string::npos) errs() << "WATCH " << where(I) << " [" << v.lo << (v.ls ? "!" : "") << "," << v.hi << (v.hs ? "!" : "") << "]" << (v.taint ? " T " : " ") << pathOf(f) << "\n";
        const GlobalVariable *G; if (constGlobalLoc(t.loc, G)) continue;
        storeLoc(s, t.loc, p.vn, v, ver, single && (p.vn || !locs[t.loc].summary));
      }
      if (single && ty->isIntegerTy()) { // what is learnt about the stored value later holds for the cell too
        auto &t = psets[p.ps][0];
        if (t.loc && (p.vn || !locs[t.loc].summary)) for (const Value *X = S->getValueOperand(); !isa<Constant>(X);) {
          Val x = get(X, s, f);
          const Cell *oc = x.srcCell ? s.mem.get(x.srcCell) : nullptr;
          if (x.srcCell != t.loc && !(oc && oc->ver == x.srcVer)) { x.srcCell = t.loc; x.srcKey = p.vn; x.srcVer = ver; put(X, s, x); }
          auto *Z = dyn_cast<CastInst>(X);
          if (!Z || !(isa<SExtInst>(Z) || isa<ZExtInst>(Z) || isa<TruncInst>(Z))) break;
          const Value *Y = Z->getOperand(0); Val y = get(Y, s, f);
          if (!Y->getType()->isIntegerTy() || y.lo != x.lo || y.hi != x.hi) break;
          X = Y;
        }
      }
      return;
    }
    if (auto *B = dyn_cast<BinaryOperator>(I)) { if (I->getType()->isIntegerTy()) put(I, s, evalBin(B, s, f)); return; }
    if (auto *C = dyn_cast<ICmpInst>(I)) {
      Val a = get(C->getOperand(0), s, f), b = get(C->getOperand(1), s, f);
      unsigned w = C->getOperand(0)->getType()->isIntegerTy() ? C->getOperand(0)->getType()->getIntegerBitWidth() : 64;
      int r = evalCmp(C->getPredicate(), a, b, w);
      Val v; v.lo = r == 1 ? 1 : 0; v.hi = r == 0 ? 0 : 1; v.ls = v.hs = true; v.taint = a.taint || b.taint; v.vn = a.vn && b.vn ? hmix(hmix(a.vn, 100 + C->getPredicate()), b.vn) : 0;
      put(I, s, v); return;
    }
    if (auto *C = dyn_cast<CastInst>(I)) {
      const Value *o = C->getOperand(0);
      if (isa<SExtInst>(C) || isa<ZExtInst>(C) || isa<TruncInst>(C)) {
        Val a = get(o, s, f); unsigned ow = o->getType()->getIntegerBitWidth(), w = C->getType()->getIntegerBitWidth();
        if (a.taint) narrowChk(C, a, ow, w, f);
        Val v;
        if (isa<SExtInst>(C)) v = ow == 1 ? a : asSigned(a, ow);
        else if (isa<ZExtInst>(C)) v = asUnsigned(a, ow);
        else {
          i128 mn, mx; tyRange(w, mn, mx);
          if (w == 1) { v = a; v.lo = 0; v.hi = 1; if (a.lo == a.hi) v.lo = v.hi = a.lo & 1; }
          else if (a.lo >= mn && a.hi <= mx && (i128)a.hi - a.lo < ((i128)1 << w)) v = a;
          else { bool ex = a.ls && a.hs && (i128)a.hi - a.lo >= ((i128)1 << w) - 1 && a.hi != I64MAX; v = top(w); v.taint = a.taint; v.ls = v.hs = ex && a.taint; }
        }
        if (a.vn) v.vn = isa<TruncInst>(C) && !(v.lo == a.lo && v.hi == a.hi) ? hmix(a.vn, 61 + w) : a.vn; else v.vn = 0;
        v.srcCell = 0; v.ps = 0;
        put(I, s, v); return;
      }
      if (isa<PtrToIntInst>(C)) { put(I, s, top(64)); return; }
      if (isa<BitCastInst>(C) && o->getType()->isPointerTy()) { put(I, s, get(o, s, f)); return; }
      if (C->getType()->isIntegerTy()) { put(I, s, top(C->getType()->getIntegerBitWidth())); return; }
      return;
    }
    if (auto *S = dyn_cast<SelectInst>(I)) {
      if (!(I->getType()->isIntegerTy() || I->getType()->isPointerTy())) return;
      State t = s, e = s; bool bt = assume(S->getCondition(), true, t, f), be = assume(S->getCondition(), false, e, f);
      Val v; if (bt && be) v = join(get(S->getTrueValue(), t, f), get(S->getFalseValue(), e, f)); else if (bt) v = get(S->getTrueValue(), t, f); else v = get(S->getFalseValue(), e, f);
      if (!v.vn) v.vn = hmix(hmix(f.id, (VN)(uintptr_t)I), 9);
      v.srcCell = 0; put(I, s, v); return;
    }
    if (isa<FreezeInst>(I)) { put(I, s, get(I->getOperand(0), s, f)); return; }
    if (I->getType()->isIntegerTy()) put(I, s, top(I->getType()->getIntegerBitWidth()));
    else if (I->getType()->isPointerTy()) put(I, s, Val());
  }
};

// Seeds every integer field of the application-supplied configuration with its full range.
static void seedConfig(Engine &E, PMap<Cell> &mem, bool taint) {
  StructType *S = nullptr;
  for (StructType *T : E.M.getIdentifiedStructTypes()) if (!T->isOpaque() && Engine::baseName(T) == "ia_input_config") S = T;
  if (!S) { errs() << "configuration type vanished\n"; exit(3); }
  uint32_t base = E.locType(S);
  for (unsigned i = 0; i < E.canon(S)->getNumElements(); i++) {
    uint32_t l = E.locField(base, S, i); Type *T = E.canon(S)->getElementType(i);
    if (auto *A = dyn_cast<ArrayType>(T)) { l = E.locElem(l, A->getElementType(), A->getNumElements()); T = A->getElementType(); }
    if (!T->isIntegerTy()) continue;
    Cell c; c.s = Engine::top(T->getIntegerBitWidth()); c.s.ls = c.s.hs = true; c.s.taint = taint; c.ver = hmix(4711, l);
    mem.set(l, c);
  }
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 3; }
  Engine E(*M);
  std::string mode = argc > 2 ? argv[2] : "stream";
  E.streamTaint = mode != "app";
  E.readBitsFns = {{"ia_core_coder_read_bits_buf", 1}, {"ia_core_coder_show_bits_buf", 1}, {"ia_core_coder_read_bits_buf_32", 2}};
  E.skipFns = {"ia_core_coder_skip_bits_buf", "ia_core_coder_create_init_bit_buf", "ia_core_coder_create_bit_buf"};
  auto t0 = std::chrono::steady_clock::now();
  auto sec = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  PMap<Cell> mem;
  auto runRoot = [&](const std::string &rn, PMap<Cell> &res) {
    Function *F = M->getFunction(rn);
    if (!F) { errs() << "no root " << rn << "\n"; exit(3); }
    seedConfig(E, mem, mode == "app");
    std::vector<Val> args; for (Argument &A : F->args()) { Val v; v.vn = hmix(777, A.getArgNo() + 1); args.push_back(v); }
    std::vector<Engine::Ret> out;
    E.analyze(F, args, mem, Engine::Frame{F, hmix(4242, std::hash<std::string>()(rn)), nullptr, nullptr, 0}, out);
    if (out.empty()) { errs() << "no return from " << rn << "\n"; exit(3); }
    // A failed call may be followed by another one: what it left behind counts, but an array element that a failed
    // validation left out of range is not evidence of an access, because array elements are not told apart.
    bool first = true;
    for (auto &o : out) {
      bool err = o.v.nonZero();
      PMap<Cell> m = o.mem;
      if (err) {
        auto fn = [&](uint32_t l, Cell &c) { if (!E.locs[l].summary) return false; Cell old = c; c = E.flush(c); c.s.ls = c.s.hs = false; return !c.same(old); };
        auto *n = PMap<Cell>::mapAll(m.root, fn);
        if (n != m.root) { PMap<Cell>::inc(n); PMap<Cell>::dec(m.root); m.root = n; }
      }
      if (getenv("ABSOUT")) errs() << " out [" << o.v.lo << "," << o.v.hi << "] " << err << "\n";
      if (first) res = m; else res = E.joinMem(res, m, hmix(4243, 1), true, false);
      first = false;
    }
    errs() << rn << " done " << sec() << "s calls " << E.nCalls << " memo " << E.nMemo << " blocks " << E.nBlocks << " outs " << out.size() << "\n";
  };
  int maxIt = getenv("ABSIT") ? atoi(getenv("ABSIT")) : 10;
  runRoot("ia_mpegh_dec_create", mem);
  auto dumpConfig = [&](const char *when) {
    if (mode != "app") return; // what is left in the decoder's copy of the configuration
    mem.forEach([&](uint32_t k, const Cell &cc) { std::string n = E.locName(k); if (n.rfind("ia_mpegh_dec_config_struct.", 0)) return; Val v = E.cellVal(cc); if (!v.ps) outs() << "config\t" << when << "\t" << n.substr(27) << "\t" << v.lo << "\t" << v.hi << "\n"; });
  };
  dumpConfig("create");
  for (const char *rn : {"ia_mpegh_dec_init", "ia_mpegh_dec_execute"})
    for (int it = 0; it < maxIt; it++) {
      static Engine::Grown grown; if (!it) grown.clear();
      PMap<Cell> res; runRoot(rn, res);
      PMap<Cell> j = E.joinMem(mem, res, hmix(991, it), true, it > 7 ? 1 : 2, nullptr, &grown, 2, 5);
      bool stable = true; int ch = 0;
      j.forEach([&](uint32_t k, const Cell &c) { const Cell *o = mem.get(k); if (!o || !o->same(c)) { Loc &R = E.locs[E.locs[k].root]; if (R.k == Loc::Alloca) return; ch++; stable = false; } });
      mem = j;
      errs() << " iteration " << it << " changed cells " << ch << "\n";
      if (stable) break;
    }
  dumpConfig("end");
  if (getenv("ABSABSENT")) for (uint32_t l : E.absent) errs() << "ABSENT " << E.locName(l) << (mem.get(l) ? " later" : "") << "\n";
  for (auto &p : E.reps) {
    auto &r = p.second;
    outs() << r.kind << "\t" << r.where << "\t" << r.func << "\t" << r.what << (r.n ? " index range [" : " range [") << r.lo << "," << r.hi << "]";
    if (r.n) outs() << " capacity " << r.n;
    outs() << "\t" << r.path << "\n";
  }
  int c[4] = {0, 0, 0, 0}; for (auto &p : E.sites) c[p.second.status]++;
  outs() << "sites proven " << c[1] << " undecided " << c[2] << " flagged " << c[3] << "\n";
  int cv[4] = {0, 0, 0, 0}; for (auto &p : E.conv) cv[p.second]++;
  outs() << "conversions kept " << cv[1] << " undecided " << cv[2] << " flagged " << cv[3] << "\n";
  if (const char *sf = getenv("ABSSITE")) { std::error_code e2; raw_fd_ostream S(sf, e2);
    for (auto &p : E.sites) S << E.where(p.first.first) << "\t" << p.second.status << "\t[" << p.second.lo << "," << p.second.hi << "] n " << p.second.n << (p.second.taint ? " T" : "") << "\t" << p.second.what << "\n"; }
  if (!getenv("ABSDUMP")) return 0;
  std::error_code ec;
  { raw_fd_ostream D4("dead.txt", ec); for (auto &p : E.brSeen) if (p.second != 3) D4 << E.where(p.first) << "\t" << p.first->getFunction()->getName() << "\tonly " << (p.second == 1 ? "true" : p.second == 2 ? "false" : "none") << "\n"; }
  raw_fd_ostream D("cells.txt", ec);
  std::map<std::string, std::string> dump;
  mem.forEach([&](uint32_t k, const Cell &cc) { Val v = E.cellVal(cc); if (v.ps) return; std::string x; raw_string_ostream os(x); os << "[" << v.lo << (v.ls ? "!" : "") << "," << v.hi << (v.hs ? "!" : "") << "]" << (v.taint ? " T" : ""); dump[E.locName(k)] = os.str(); });
  for (auto &p : dump) D << p.first << "\t" << p.second << "\n";
  raw_fd_ostream D2("visits.txt", ec);
  for (auto &p : E.funcVisits) D2 << p.second << "\t" << p.first << "\n";
  raw_fd_ostream D3("blocks.txt", ec);
  for (auto &p : E.blkCnt) D3 << p.second << "\t" << p.first->getName() << "\n";
  return 0;
}
