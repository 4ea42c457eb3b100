#include "llvm/Bitcode/BitcodeWriter.h"
// IR rule engine: small, resolved-program rules over the linked bitcode.
#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/Support/KnownBits.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/Format.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <cmath>
#include <deque>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::map;
using std::pair;
using std::set;
using std::string;
using std::vector;

static string base(StringRef s) {
  auto p = s.rfind('/');
  return (p == StringRef::npos ? s : s.substr(p + 1)).str();
}
static string loc(const Instruction *I) {
  if (auto &dl = I->getDebugLoc()) {
    string f = base(dl->getFilename());
    return f + ":" + std::to_string(dl.getLine());
  }
  auto *F = I->getFunction();
  if (auto *sp = F->getSubprogram())
    return base(sp->getFilename()) + ":" + std::to_string(sp->getLine());
  return "?:0";
}
static const Function *calleeOf(const CallBase *C) {
  return dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
}
static string san(string s) {
  for (auto &c : s)
    if (c == '\t' || c == '\n') c = ' ';
  return s;
}

// ---------------------------------------------------------------- externals
static void modeExterns(Module &M) {
  unsigned calls = 0, ind = 0;
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallBase>(&I)) {
        if (C->isInlineAsm()) {
          outs() << "ext\t<inline-asm>\t" << loc(C) << "\t" << F.getName() << "\n";
          continue;
        }
        auto *G = calleeOf(C);
        if (!G) { ind++; continue; }
        calls++;
        if (G->isDeclaration() && !G->isIntrinsic())
          outs() << "ext\t" << G->getName() << "\t" << loc(C) << "\t" << F.getName() << "\n";
      }
  // address-taken externals (passed/stored as function pointers)
  for (auto &G : M)
    if (G.isDeclaration() && !G.isIntrinsic())
      for (auto *U : G.users()) {
        auto *C = dyn_cast<CallBase>(U);
        if (C && calleeOf(C) == &G) continue;
        string w = "?:0", f = "?";
        if (auto *I = dyn_cast<Instruction>(U)) w = loc(I), f = I->getFunction()->getName().str();
        outs() << "extaddr\t" << G.getName() << "\t" << w << "\t" << f << "\n";
      }
  outs() << "count\tdirect_calls\t" << calls << "\ncount\tindirect_calls\t" << ind << "\n";
}

// ------------------------------------------------------------------ globals
// Which mutable objects of static storage duration does library code write?
static void modeGlobals(Module &M) {
  unsigned n = 0, nconst = 0, nptr = 0;
  for (auto &G : M.globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    n++;
    if (G.isConstant()) nconst++;
    string gname = G.getName().str();
    // forward closure of pointers derived from G
    std::deque<const Value *> wl;
    set<const Value *> seen;
    auto push = [&](const Value *v) { if (seen.insert(v).second) wl.push_back(v); };
    push(&G);
    bool any = false;
    auto rep = [&](const char *k, const Instruction *I) {
      any = true;
      outs() << k << "\t" << gname << "\t" << (I ? loc(I) : string("?:0")) << "\t"
             << (I ? I->getFunction()->getName() : StringRef("?")) << "\t" << (G.isConstant() ? "const" : "mutable")
             << "\n";
    };
    while (!wl.empty()) {
      auto *v = wl.front(); wl.pop_front(); nptr++;
      for (auto *U : v->users()) {
        if (auto *S = dyn_cast<StoreInst>(U)) {
          if (S->getPointerOperand() == v) rep("gwrite", S);
          if (S->getValueOperand() == v) {
            // spilled into a local slot: follow its loads; otherwise it escapes
            if (auto *A = dyn_cast<AllocaInst>(S->getPointerOperand())) {
              for (auto *AU : A->users())
                if (auto *L = dyn_cast<LoadInst>(AU)) push(L);
            } else if (!G.isConstant())
              rep("gescape", S);
            else if (!G.isConstant()) rep("gescape", S);
          }
        } else if (auto *C = dyn_cast<CallBase>(U)) {
          if (auto *MI = dyn_cast<MemIntrinsic>(C)) {
            if (MI->getRawDest() == v) rep("gwrite", C);
            continue;
          }
          if (C->getIntrinsicID() != Intrinsic::not_intrinsic) continue;
          auto *F = calleeOf(C);
          for (unsigned i = 0; i < C->arg_size(); i++)
            if (C->getArgOperand(i) == v) {
              if (F && !F->isDeclaration() && i < F->arg_size()) push(F->getArg(i));
              else if (F && F->isDeclaration() && (F->getName() == "memcmp")) {}
              else if (!G.isConstant()) rep("gescape", C);
            }
        } else if (isa<GEPOperator>(U) || isa<BitCastOperator>(U) || isa<PHINode>(U) || isa<SelectInst>(U) ||
                   isa<CastInst>(U)) {
          push(U);
        } else if (auto *R = dyn_cast<ReturnInst>(U)) {
          for (auto *FU : R->getFunction()->users())
            if (auto *C2 = dyn_cast<CallBase>(FU)) push(C2);
        } else if (auto *CE = dyn_cast<ConstantExpr>(U)) {
          push(CE);
        }
      }
    }
    if (!G.isConstant()) {
      outs() << "gmut\t" << gname << "\t" << (any ? "written-or-escaped" : "read-only-use") << "\t"
             << (G.isDeclaration() ? "extern" : "defined") << "\t" << (G.hasInitializer() && G.getInitializer()->isNullValue() ? "zero" : "init") << "\n";
    }
  }
  outs() << "count\tglobals\t" << n << "\ncount\tconst_globals\t" << nconst << "\ncount\tderived_pointers\t" << nptr << "\n";
}

// ------------------------------------------------------------- error discipline
static set<int64_t> gCodes;
static map<const Function *, set<int64_t>> gRet;  // error codes a function may return
static void collectRet(const Value *v, set<const Value *> &seen, set<int64_t> &out) {
  if (!seen.insert(v).second) return;
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    int64_t k = (int32_t)c->getSExtValue();
    if (k && gCodes.count(k)) out.insert(k);
    return;
  }
  if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) collectRet(o, seen, out); return; }
  if (auto *s = dyn_cast<SelectInst>(v)) { collectRet(s->getTrueValue(), seen, out); collectRet(s->getFalseValue(), seen, out); return; }
  if (auto *s = dyn_cast<CastInst>(v)) { collectRet(s->getOperand(0), seen, out); return; }
  if (auto *b = dyn_cast<BinaryOperator>(v)) { if (b->getOpcode() == Instruction::Or) { collectRet(b->getOperand(0), seen, out); collectRet(b->getOperand(1), seen, out);} return; }
  if (auto *L = dyn_cast<LoadInst>(v)) {
    if (auto *A = dyn_cast<AllocaInst>(L->getPointerOperand()))
      for (auto *U : A->users())
        if (auto *S = dyn_cast<StoreInst>(U)) if (S->getPointerOperand() == A) collectRet(S->getValueOperand(), seen, out);
    return;
  }
  if (auto *C = dyn_cast<CallBase>(v)) {
    if (auto *F = calleeOf(C)) {
      if (F->getName() == "_setjmp" || F->getName() == "setjmp") { out.insert(0x1800); return; }
      auto it = gRet.find(F);
      if (it != gRet.end()) out.insert(it->second.begin(), it->second.end());
    } else {
      // indirect: any function with the same type whose address is taken – resolved by caller
    }
  }
}
// Code that marks a constant error code stored in a local (see modeErrmark): behaves like a call that can only fail.
static bool markOf(const Function &F, int64_t &c) {
  if (!F.isDeclaration() || !F.getName().consume_front("vp_err_")) return false;
  StringRef n = F.getName().drop_front(7);
  uint64_t k;
  if (n.getAsInteger(16, k)) return false;
  c = (int32_t)(uint32_t)k;
  return true;
}
static void computeRet(Module &M) {
  bool ch = true;
  for (auto &F : M) { int64_t c; if (markOf(F, c)) gRet[&F].insert(c); }
  while (ch) {
    ch = false;
    for (auto &F : M) {
      if (F.isDeclaration() || !F.getReturnType()->isIntegerTy()) continue;
      set<int64_t> out;
      set<const Value *> seen;
      for (auto &B : F)
        if (auto *R = dyn_cast<ReturnInst>(B.getTerminator()))
          if (R->getReturnValue()) collectRet(R->getReturnValue(), seen, out);
      auto &cur = gRet[&F];
      if (out.size() > cur.size()) { cur = out; ch = true; }
    }
  }
}
// lattice value for the seeded propagation
struct LV {
  enum K { Bot, Iv, Nz, Top } k = Bot;   // Iv: integer in [lo,hi]; Nz: any non-zero value
  int64_t lo = 0, hi = 0;
  bool err = false;                  // derived from the seeded error
  static LV top() { LV r; r.k = Top; return r; }
  static LV iv(int64_t a, int64_t b, bool e = false) { LV r; r.k = Iv; r.lo = a; r.hi = b; r.err = e; return r; }
  bool operator==(const LV &o) const { return k == o.k && (k != Iv || (lo == o.lo && hi == o.hi && err == o.err)); }
  bool nz() const { return k == Nz || (k == Iv && (lo > 0 || hi < 0)); }
  static LV nzv() { LV r; r.k = Nz; return r; }
};
static LV joinLV(const LV &a, const LV &b) {
  if (a.k == LV::Bot) return b;
  if (b.k == LV::Bot) return a;
  if (a.k == LV::Top || b.k == LV::Top) return LV::top();
  if (a == b) return a;
  if (a.k == LV::Nz || b.k == LV::Nz) return a.nz() && b.nz() ? LV::nzv() : LV::top();
  // both definitely-error: keep the hull if sign agrees, else mark as top-nonzero via wide interval split
  if ((a.lo > 0 && b.lo > 0) || (a.hi < 0 && b.hi < 0)) return LV::iv(std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.err && b.err);
  if (a.nz() && b.nz()) return LV::nzv();
  return LV::top();
}
// is v known to be non-zero when control goes from P to B?
static bool nonZeroOnEdge(const Value *v, const BasicBlock *P, const BasicBlock *B) {
  for (int i = 0; i < 6 && P; i++) {
    if (auto *Br = dyn_cast<BranchInst>(P->getTerminator()))
      if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
        if (auto *C = dyn_cast<ICmpInst>(Br->getCondition()))
          if (C->isEquality() && C->getOperand(0) == v)
            if (auto *z = dyn_cast<ConstantInt>(C->getOperand(1)))
              if (z->isZero())
                if (Br->getSuccessor(C->getPredicate() == CmpInst::ICMP_NE ? 0 : 1) == B) return true;
    B = P;
    P = P->getSinglePredecessor();
  }
  return false;
}
struct Drop { const Instruction *at; string how; };
// Seed the result of call C with an error interval; follow every path feasible
// under that assumption; every feasible function exit must return a non-zero
// value; re-executing C counts as losing the error.
static bool seedRun(const CallBase *C, int64_t lo, int64_t hi, Drop &d) {
  const Function *F = C->getFunction();
  int64_t mk;
  bool mark = calleeOf(C) && markOf(*calleeOf(C), mk); // an assignment may be repeated, it sets an error each time
  map<const Value *, LV> val;
  set<pair<const BasicBlock *, const BasicBlock *>> edges;
  set<const BasicBlock *> reach;
  const BasicBlock *CB = C->getParent();
  map<const Value *, LV> slot; // alloca that is only loaded/stored (volatile/setjmp locals)
  auto get = [&](const Value *v) -> LV {
    if (auto *c = dyn_cast<ConstantInt>(v)) {
      if (c->getBitWidth() > 64) return LV::top();
      int64_t k = c->getSExtValue();
      if (c->getBitWidth() == 1) k = k & 1;
      return LV::iv(k, k);
    }
    if (isa<Constant>(v)) return LV::top();
    auto it = val.find(v);
    if (it != val.end()) return it->second;
    return LV::top(); // defined before the call (or argument)
  };
  // set of instructions re-evaluated: those in blocks reached through executable edges (incl. rest of CB)
  bool changed = true;
  bool loopBack = false;
  val[C] = LV::iv(lo, hi, true);
  reach.insert(CB);
  int iter = 0;
  set<const Value *> slots;
  for (auto &I : instructions(*F))
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      bool ok = A->getAllocatedType()->isIntegerTy();
      for (auto *U : A->users()) {
        if (isa<LoadInst>(U)) continue;
        if (auto *S = dyn_cast<StoreInst>(U)) if (S->getPointerOperand() == A) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(U)) if (II->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(II)) continue;
        ok = false;
      }
      if (ok) slots.insert(A);
    }
  map<const BasicBlock *, map<const Value *, LV>> inSlot;
  while (changed && iter++ < 200) {
    changed = false;
    for (auto &B : *F) {
      if (!reach.count(&B)) continue;
      map<const Value *, LV> sl;
      if (&B == CB) for (auto *s : slots) sl[s] = LV::top(); else sl = inSlot[&B];
      bool active = (&B != CB) || (mark && loopBack);
      bool cbAgain = false;
      for (auto &I : B) {
        if (&I == C) { active = true; continue; }
        if (!active) continue;
        LV r = LV::top();
        bool set_ = true;
        if (auto *P = dyn_cast<PHINode>(&I)) {
          r = LV();
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            if (edges.count({P->getIncomingBlock(i), &B})) {
              LV iv = get(P->getIncomingValue(i));
              if (iv.k == LV::Top && nonZeroOnEdge(P->getIncomingValue(i), P->getIncomingBlock(i), &B)) iv = LV::nzv();
              r = joinLV(r, iv);
            }
        } else if (auto *Cc = dyn_cast<CallInst>(&I)) {
          int64_t k;
          if (calleeOf(Cc) && markOf(*calleeOf(Cc), k)) r = LV::iv(k, k, true);
        } else if (auto *S = dyn_cast<SelectInst>(&I)) {
          LV c = get(S->getCondition());
          if (c.k == LV::Iv && c.lo == c.hi) r = get(c.lo ? S->getTrueValue() : S->getFalseValue());
          else r = joinLV(get(S->getTrueValue()), get(S->getFalseValue()));
        } else if (auto *K = dyn_cast<CastInst>(&I)) {
          LV a = get(K->getOperand(0));
          r = a;
          if (a.k == LV::Iv) {
            if (isa<ZExtInst>(K) && a.lo < 0) {
              unsigned w = K->getOperand(0)->getType()->getIntegerBitWidth();
              if (w == 32 && a.hi < 0) r = LV::iv(a.lo + (1LL << 32), a.hi + (1LL << 32), a.err); else r = LV::top();
            } else if (isa<TruncInst>(K)) {
              unsigned w = K->getType()->getIntegerBitWidth();
              if (w < 32) { // narrow: non-zero may be lost
                int64_t m = (1LL << (w - 1));
                if (!(a.lo >= -m && a.hi < m)) r = LV::top();
              } else if (w == 32) { r = LV::iv((int32_t)a.lo, (int32_t)a.hi, a.err); if (r.lo > r.hi) r = LV::top(); }
            } else if (!isa<SExtInst>(K) && !isa<ZExtInst>(K)) r = LV::top();
          } else if (a.k == LV::Nz && !isa<SExtInst>(K) && !isa<ZExtInst>(K)) r = LV::top();
        } else if (auto *Cm = dyn_cast<ICmpInst>(&I)) {
          LV a = get(Cm->getOperand(0)), b = get(Cm->getOperand(1));
          if (a.k == LV::Nz && b.k == LV::Iv && b.lo == 0 && b.hi == 0 && Cm->isEquality()) {
            int e = Cm->getPredicate() == CmpInst::ICMP_NE;
            r = LV::iv(e, e);
          } else
          if (a.k == LV::Iv && b.k == LV::Iv && Cm->getOperand(0)->getType()->isIntegerTy()) {
            int64_t al = a.lo, ah = a.hi, bl = b.lo, bh = b.hi;
            auto p = Cm->getPredicate();
            if (Cm->isUnsigned()) {
              auto fix = [&](int64_t &l, int64_t &h) { if (h < 0) { l &= 0xffffffffLL; h &= 0xffffffffLL; } else if (l < 0) { l = 0; h = 0xffffffffLL; } };
              fix(al, ah); fix(bl, bh);
            }
            int res = -1;
            switch (p) {
            case CmpInst::ICMP_EQ: if (ah < bl || al > bh) res = 0; else if (al == ah && bl == bh && al == bl) res = 1; break;
            case CmpInst::ICMP_NE: if (ah < bl || al > bh) res = 1; else if (al == ah && bl == bh && al == bl) res = 0; break;
            case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: if (ah < bl) res = 1; else if (al >= bh) res = 0; break;
            case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: if (ah <= bl) res = 1; else if (al > bh) res = 0; break;
            case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: if (al > bh) res = 1; else if (ah <= bl) res = 0; break;
            case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: if (al >= bh) res = 1; else if (ah < bl) res = 0; break;
            default: break;
            }
            if (res >= 0) r = LV::iv(res, res);
          }
        } else if (auto *Bo = dyn_cast<BinaryOperator>(&I)) {
          LV a = get(Bo->getOperand(0)), b = get(Bo->getOperand(1));
          if (Bo->getOpcode() == Instruction::Or && (a.nz() || b.nz())) {
            // non-zero survives an OR
            if (a.k == LV::Nz || b.k == LV::Nz) r = LV::nzv();
            else if (a.nz() && a.hi < 0) r = LV::iv(INT32_MIN, -1, true);
            else if (b.nz() && b.hi < 0) r = LV::iv(INT32_MIN, -1, true);
            else r = a.nz() && b.k == LV::Iv && b.lo == 0 && b.hi == 0 ? a : LV::iv(1, INT32_MAX, true);
          } else if (Bo->getOpcode() == Instruction::And && ((a.k == LV::Iv && a.lo == 0 && a.hi == 0) || (b.k == LV::Iv && b.lo == 0 && b.hi == 0))) {
            r = LV::iv(0, 0);
          } else if (Bo->getOpcode() == Instruction::And && a.k == LV::Iv && b.k == LV::Iv && b.lo == b.hi) {
            if (a.hi < 0 && (int32_t)b.lo == INT32_MIN) r = LV::iv(INT32_MIN, INT32_MIN, true);
            else if (a.lo >= 0 && a.hi <= 0x7fffffff && (int32_t)b.lo == INT32_MIN) r = LV::iv(0, 0);
          } else if (Bo->getOpcode() == Instruction::Xor && a.k == LV::Iv && b.k == LV::Iv && I.getType()->isIntegerTy(1) && a.lo == a.hi && b.lo == b.hi)
            r = LV::iv(a.lo ^ b.lo, a.lo ^ b.lo);
        } else if (auto *L = dyn_cast<LoadInst>(&I)) {
          auto it = sl.find(L->getPointerOperand());
          if (it != sl.end()) r = it->second;
        } else if (auto *S = dyn_cast<StoreInst>(&I)) {
          if (slots.count(S->getPointerOperand())) sl[S->getPointerOperand()] = get(S->getValueOperand());
          set_ = false;
        } else if (I.isTerminator()) {
          set_ = false;
        }
        if (set_ && !I.getType()->isVoidTy()) {
          auto &cur = val[&I];
          LV nv = cur.k == LV::Bot ? r : joinLV(cur, r);
          if (r.k == LV::Bot) nv = cur;
          if (!(nv == cur)) { cur = nv; changed = true; }
        }
      }
      (void)cbAgain;
      auto *T = B.getTerminator();
      auto go = [&](const BasicBlock *S) {
        if (edges.insert({&B, S}).second) changed = true;
        if (S == CB && !loopBack) { loopBack = true; changed = true; }
        if (reach.insert(S).second) changed = true;
        auto &is = inSlot[S];
        for (auto &kv : sl) { auto &c = is[kv.first]; LV n = joinLV(c, kv.second); if (!(n == c)) { c = n; changed = true; } }
      };
      if (auto *Br = dyn_cast<BranchInst>(T)) {
        if (Br->isUnconditional()) go(Br->getSuccessor(0));
        else {
          LV c = get(Br->getCondition());
          if (c.k == LV::Iv && c.lo == c.hi) go(Br->getSuccessor(c.lo ? 0 : 1));
          else if (c.k != LV::Bot) { go(Br->getSuccessor(0)); go(Br->getSuccessor(1)); }
        }
      } else if (auto *Sw = dyn_cast<SwitchInst>(T)) {
        LV c = get(Sw->getCondition());
        for (auto &cs : Sw->cases()) {
          int64_t k = cs.getCaseValue()->getSExtValue();
          if (c.k == LV::Iv && (k < c.lo || k > c.hi)) continue;
          go(cs.getCaseSuccessor());
        }
        if (!(c.k == LV::Iv && c.lo == c.hi && Sw->findCaseValue(ConstantInt::get(cast<IntegerType>(Sw->getCondition()->getType()), c.lo)) != Sw->case_default())) go(Sw->getDefaultDest());
      }
    }
  }
  // loop back to the block of the call: does execution reach C again?
  if (loopBack && !mark) { d.at = C; d.how = "the same call is made again before the error is acted upon"; return false; }
  for (auto &B : *F) {
    if (!reach.count(&B)) continue;
    if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) {
      if (!R->getReturnValue()) { d.at = R; d.how = "caller returns nothing"; return false; }
      LV v = get(R->getReturnValue());
      if (!v.nz()) { d.at = R; d.how = v.k == LV::Iv && v.lo == 0 && v.hi == 0 ? "function reports success" : "function result does not carry the error"; return false; }
    }
  }
  return true;
}
static void modeErrdrop(Module &M, bool marks) {
  computeRet(M);
  // indirect calls: functions by type with address taken
  unsigned sites = 0, fns = 0;
  for (auto &kv : gRet) if (!kv.second.empty()) fns++;
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *G = calleeOf(C);
        if (!G) continue;
        int64_t mk;
        if (marks && !markOf(*G, mk)) continue;
        set<int64_t> codes;
        bool sj = G->getName() == "_setjmp" || G->getName() == "setjmp";
        if (sj) codes.insert(0x1800);
        else { auto it = gRet.find(G); if (it == gRet.end() || it->second.empty()) continue; codes = it->second; }
        sites++;
        // one run per code: which codes can be lost, and where
        map<string, pair<string, vector<int64_t>>> lost;
        for (auto c : codes) {
          Drop d;
          if (!seedRun(C, c, c, d)) { auto &e = lost[loc(d.at) + "\t" + d.how]; e.second.push_back(c); }
        }
        if (lost.empty()) { outs() << "errok\t" << G->getName() << "\t" << loc(C) << "\t" << F.getName() << "\t" << codes.size() << "\n"; continue; }
        for (auto &kv : lost) {
          outs() << "errdrop\t" << G->getName() << "\t" << loc(C) << "\t" << F.getName() << "\t" << kv.first << "\t" << (kv.second.second.size() == codes.size() ? "all" : "some") << "\t";
          for (auto c : kv.second.second) outs() << format_hex((uint32_t)c, 10) << ",";
          outs() << "\n";
        }
      }
  outs() << "count\terror_functions\t" << fns << "\ncount\terror_call_sites\t" << sites << "\n";
  for (auto &kv : gRet) if (!kv.second.empty()) { outs() << "ret\t" << kv.first->getName(); for (auto c : kv.second) outs() << "\t" << c; outs() << "\n"; }
}
// Before promotion to registers: every error code assigned to a local becomes the result of a marker call, so that an
// assignment whose value is lost on some path is found in the same way as a call whose result is lost.
static bool modeErrmark(Module &M, const string &out) {
  unsigned n = 0;
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *S = dyn_cast<StoreInst>(&I))
        if (auto *A = dyn_cast<AllocaInst>(S->getPointerOperand()))
          if (A->getAllocatedType()->isIntegerTy(32) && !S->isVolatile())
            if (auto *c = dyn_cast<ConstantInt>(S->getValueOperand())) {
              int64_t k = (int32_t)c->getSExtValue();
              if (!k || !gCodes.count(k) || (k > 0 && !(k & 0xff))) continue; // 0x800, 0x1000: ordinary numbers
              string nm; raw_string_ostream os(nm);
              os << "vp_err_" << format_hex_no_prefix((uint32_t)k, 8);
              auto fc = M.getOrInsertFunction(os.str(), FunctionType::get(c->getType(), false));
              auto *C = CallInst::Create(fc, "", S);
              C->setDebugLoc(S->getDebugLoc());
              S->setOperand(0, C);
              n++;
            }
  outs() << "count\tmarked\t" << n << "\n";
  std::error_code ec;
  raw_fd_ostream os(out, ec);
  if (ec) return false;
  WriteBitcodeToFile(M, os);
  return true;
}

// ------------------------------------------------------------------ tables
static void dumpConst(const Constant *c, raw_ostream &o, const DataLayout &DL) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { o << i->getSExtValue(); return; }
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    bool li; APFloat v = f->getValueAPF(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    double d = v.convertToDouble(); char b[64]; snprintf(b, 64, "%.17g", d);
    string s = b; if (s.find_first_of(".eni") == string::npos) s += ".0"; if (s.find('n') != string::npos) s = "null"; o << s; return;
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { o << "null"; return; }
  if (auto *p = dyn_cast<ConstantDataSequential>(c)) {
    o << "["; for (unsigned i = 0; i < p->getNumElements(); i++) { if (i) o << ","; dumpConst(p->getElementAsConstant(i), o, DL); } o << "]"; return;
  }
  if (isa<ConstantAggregateZero>(c)) {
    if (auto *at = dyn_cast<ArrayType>(c->getType())) { o << "["; for (unsigned i = 0; i < at->getNumElements(); i++) { if (i) o << ","; dumpConst(c->getAggregateElement(i), o, DL); } o << "]"; return; }
    if (auto *st = dyn_cast<StructType>(c->getType())) { o << "["; for (unsigned i = 0; i < st->getNumElements(); i++) { if (i) o << ","; dumpConst(c->getAggregateElement(i), o, DL); } o << "]"; return; }
  }
  if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    o << "["; for (unsigned i = 0; i < a->getNumOperands(); i++) { if (i) o << ","; dumpConst(cast<Constant>(a->getOperand(i)), o, DL); } o << "]"; return;
  }
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    if (auto *gv = dyn_cast<GlobalVariable>(g)) if (gv->hasInitializer() && gv->isConstant() && gv->getName().starts_with(".str"))
      if (auto *cd = dyn_cast<ConstantDataArray>(gv->getInitializer())) if (cd->isString()) { o << "{\"str\":\""; for (char ch : cd->getAsString()) if (ch && ch != '"' && ch != '\\' && ch >= 32) o << ch; o << "\"}"; return; }
    o << "{\"ref\":\"" << g->getName() << "\"}"; return;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    APInt off(64, 0);
    auto *b = ce->stripAndAccumulateConstantOffsets(DL, off, true);
    if (auto *g = dyn_cast<GlobalValue>(b)) { o << "{\"ref\":\"" << g->getName() << "\",\"off\":" << off.getSExtValue() << "}"; return; }
  }
  o << "null";
}
static void modeTables(Module &M) {
  outs() << "{";
  bool first = true;
  for (auto &G : M.globals()) {
    if (!G.hasInitializer() || G.getName().starts_with("llvm.") || G.getName().starts_with(".str")) continue;
    if (!first) outs() << ",\n"; first = false;
    string ts; raw_string_ostream os(ts); G.getValueType()->print(os);
    string file = "?"; unsigned line = 0;
    SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
    if (!GVs.empty()) { file = base(GVs[0]->getVariable()->getFilename()); line = GVs[0]->getVariable()->getLine(); }
    outs() << "\"" << G.getName() << "\":{\"type\":\"" << (os.str().size() < 200 ? os.str() : "big") << "\",\"const\":" << (G.isConstant() ? "true" : "false") << ",\"where\":\"" << file << ":" << line << "\",\"v\":";
    dumpConst(G.getInitializer(), outs(), M.getDataLayout());
    outs() << "}";
  }
  outs() << "}\n";
}

#include "rules_more.inc"
#include "uninit.inc"

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: rules MODE lib.bc [args]\n"; return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[2], err, ctx);
  if (!M) { err.print("rules", errs()); return 2; }
  string mode = argv[1];
  vector<string> args(argv + 3, argv + argc);
  if (mode == "errdrop" ) {
    std::ifstream f(args.at(0)); string l;
    while (f >> l) gCodes.insert((int32_t)(uint32_t)std::stoul(l, nullptr, 0));
    modeErrdrop(*M, args.size() > 1 && args[1] == "marks");
  } else if (mode == "errmark") {
    std::ifstream f(args.at(0)); string l;
    while (f >> l) gCodes.insert((int32_t)(uint32_t)std::stoul(l, nullptr, 0));
    if (!modeErrmark(*M, args.at(1))) return 2;
  } else if (mode == "uninitmark") {
    if (!modeUninitMark(*M, args.at(0))) return 2;
  } else if (mode == "uninit") {
    std::ifstream f(args.at(0)); string l;
    while (f >> l) gCodes.insert((int32_t)(uint32_t)std::stoul(l, nullptr, 0));
    modeUninit(*M, args);
  }
  else if (mode == "externs") modeExterns(*M);
  else if (mode == "globals") modeGlobals(*M);
  else if (mode == "tables") modeTables(*M);
  else return moreModes(mode, *M, args);
  return 0;
}
