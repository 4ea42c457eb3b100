// ----------------------------------------------------------------- uninit
// Every scalar local (or scalar member of a local structure) starts, where its lifetime starts, with a marker value; a
// marker that reaches a use other than a copy is an indeterminate value being used.
static void leaves(Type *T, const DataLayout &DL, uint64_t off, vector<pair<uint64_t, Type *>> &out) {
  if (auto *S = dyn_cast<StructType>(T)) {
    auto *L = DL.getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) leaves(S->getElementType(i), DL, off + L->getElementOffset(i), out);
  } else if (T->isIntegerTy() || T->isFloatingPointTy() || T->isPointerTy()) out.push_back({off, T});
}
static bool isMark(const Value *V) {
  auto *C = dyn_cast<CallBase>(V);
  return C && C->getCalledFunction() && C->getCalledFunction()->getName().starts_with("vp_undef_");
}
static bool modeUninitMark(Module &M, const string &path) {
  auto &C = M.getContext();
  const DataLayout &DL = M.getDataLayout();
  unsigned n = 0;
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    vector<AllocaInst *> as;
    for (auto &I : F.getEntryBlock()) if (auto *A = dyn_cast<AllocaInst>(&I)) if (!A->isArrayAllocation()) as.push_back(A);
    Instruction *first = &*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca();
    for (auto *A : as) {
      vector<pair<uint64_t, Type *>> ls;
      leaves(A->getAllocatedType(), DL, 0, ls);
      if (ls.empty() || ls.size() > 256) continue;
      string name; DebugLoc dl;
      for (auto *U : findDbgDeclares(A)) { name = U->getVariable()->getName().str(); dl = U->getDebugLoc(); }
      vector<Instruction *> at;
      for (auto *U : A->users()) if (auto *II = dyn_cast<IntrinsicInst>(U)) if (II->getIntrinsicID() == Intrinsic::lifetime_start) at.push_back(II->getNextNode());
      if (name.empty()) continue; // compiler temporaries
      if (at.empty()) at.push_back(first);
      for (auto *P : at) {
        IRBuilder<> B(P);
        if (dl) B.SetCurrentDebugLocation(dl);
        else if (F.getSubprogram()) B.SetCurrentDebugLocation(DILocation::get(C, F.getSubprogram()->getLine(), 0, F.getSubprogram()));
        for (auto &[off, T] : ls) {
          string tn; raw_string_ostream os(tn); T->print(os);
          auto FC = M.getOrInsertFunction("vp_undef_" + os.str(), FunctionType::get(T, {B.getInt32Ty(), B.getPtrTy()}, false));
          cast<Function>(FC.getCallee())->setMemoryEffects(MemoryEffects::none());
          cast<Function>(FC.getCallee())->setDoesNotThrow();
          cast<Function>(FC.getCallee())->addFnAttr(Attribute::WillReturn);
          auto *G = M.getNamedGlobal("vp_name." + name);
          if (!G) G = new GlobalVariable(M, B.getInt8Ty(), true, GlobalValue::ExternalLinkage, nullptr, "vp_name." + name);
          auto *CI = B.CreateCall(FC, {B.getInt32(n++), G});
          Value *p = off ? B.CreateConstInBoundsGEP1_64(B.getInt8Ty(), A, off) : (Value *)A;
          B.CreateStore(CI, p);
        }
      }
    }
  }
  std::error_code ec; raw_fd_ostream o(path, ec);
  if (ec) return false;
  WriteBitcodeToFile(M, o);
  outs() << "marks\t" << n << "\n";
  return true;
}

struct Uninit {
  Module &M; const DataLayout &DL;
  Uninit(Module &m) : M(m), DL(m.getDataLayout()) {}
  struct Rng { int64_t off; int64_t size; bool operator<(const Rng &o) const { return off != o.off ? off < o.off : size < o.size; } };
  struct Exposed { Rng r; string where; };
  struct Sum { bool ready = false, busy = false; map<unsigned, vector<Rng>> must; map<unsigned, vector<Exposed>> reads; set<unsigned> lost, wr, rd; };
  map<const Function *, Sum> sums;
  map<string, set<unsigned>> writes; // reviewed: writes behind this parameter whenever it is called
  unsigned nuse = 0, nroot = 0, nlost = 0, narr = 0, nslot = 0, nload = 0, ncall = 0;
  set<string> seen;
  void report(const string &var, const Instruction *at, const Instruction *decl, const string &how) {
    string l = "uninit\t" + var + "\t" + loc(at) + "\t" + at->getFunction()->getName().str() + "\t" + loc(decl) + "\t" + how + "\n";
    if (seen.insert(l).second) outs() << l;
  }
  static string nameOf(const CallBase *m, const AllocaInst *A) {
    if (!A) return varOf(m);
    return findDbgDeclares(const_cast<AllocaInst *>(A)).front()->getVariable()->getName().str() + "[]";
  }
  static string varOf(const CallBase *m) { return m->getArgOperand(1)->getName().substr(8).str(); }

  // (root, lowest offset, extent of the possible offsets; extent<0: unknown)
  struct Res { const Value *root = nullptr; int64_t off = 0, span = 0; bool exact = true; };
  Res resolve(const Value *V) {
    Res r; 
    int64_t off = 0; bool exact = true;
    for (;;) {
      if (auto *G = dyn_cast<GEPOperator>(V)) {
        APInt o(64, 0);
        if (G->accumulateConstantOffset(DL, o)) off += o.getSExtValue();
        else exact = false;
        V = G->getPointerOperand();
      } else if (isa<BitCastOperator>(V)) V = cast<Operator>(V)->getOperand(0);
      else break;
    }
    r.root = V; r.off = off; r.exact = exact;
    return r;
  }
  bool lost(const Value *root) {   // address used in a way that is not followed
    vector<const Value *> wl{root}; set<const Value *> vis;
    while (!wl.empty()) {
      auto *V = wl.back(); wl.pop_back();
      if (!vis.insert(V).second) continue;
      for (auto *U : V->users()) {
        if (isa<GEPOperator>(U) || isa<BitCastOperator>(U)) { wl.push_back(U); continue; }
        if (isa<LoadInst>(U) || isa<ICmpInst>(U)) continue;
        if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getValueOperand() == V) return true; continue; }
        if (auto *C = dyn_cast<CallBase>(U)) {
          auto *G = C->getCalledFunction();
          if (!G) return true;
          if (G->isIntrinsic()) continue;
          if (G->isDeclaration() || G->isVarArg()) return true;
          for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i) == V && sum(G).lost.count(i)) return true;
          continue;
        }
        return true;
      }
    }
    return false;
  }
  static bool errConst(const Value *V) {
    auto *C = dyn_cast<ConstantInt>(V);
    return C && C->getBitWidth() <= 64 && (C->getSExtValue() < 0 || gCodes.count((int32_t)C->getSExtValue()));
  }
  // the value is known to be non-zero on reaching block B
  // (to: and leaving it for that block)
  bool nonzeroAt(const Value *V, const BasicBlock *B, const BasicBlock *to, DominatorTree &DT) {
    for (auto *U : V->users()) {
      auto *IC = dyn_cast<ICmpInst>(U);
      if (!IC || !IC->isEquality()) continue;
      auto *K = dyn_cast<ConstantInt>(IC->getOperand(1));
      if (!K || !K->isZero()) continue;
      for (auto *W : IC->users())
        if (auto *Br = dyn_cast<BranchInst>(W)) {
          if (Br->isUnconditional()) continue;
          auto *S = Br->getSuccessor(IC->getPredicate() == CmpInst::ICMP_NE ? 0 : 1);
          if (Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
          if (Br->getParent() == B && S == to) return true;
          if (DT.dominates(BasicBlockEdge(Br->getParent(), S), B)) return true;
        }
    }
    return false;
  }
  bool errPath(const Value *V, const BasicBlock *B, const BasicBlock *to, DominatorTree &DT) {
    if (errConst(V)) return true;
    if (isa<ConstantInt>(V)) return false;
    if (V->getType()->isIntegerTy(32) && nonzeroAt(V, B, to, DT)) return true;
    return false;
  }
  Sum &sum(const Function *F) {
    auto &S = sums[F];
    if (S.ready || S.busy) return S;
    S.busy = true;
    analyse(const_cast<Function &>(*F), S);
    for (auto k : writes[F->getName().str()]) S.lost.insert(k);
    S.ready = true; S.busy = false;
    return S;
  }
  void analyse(Function &F, Sum &S) {
    struct Slot { const Value *root; Rng r; const CallBase *mark; const AllocaInst *arr = nullptr; };
    vector<Slot> slots;
    map<const Value *, vector<unsigned>> of;
    for (auto &A : F.args()) if (A.getType()->isPointerTy() && (A.hasByValAttr() || lost(&A))) S.lost.insert(A.getArgNo());
    map<const Value *, bool> lostA;
    for (auto &I : instructions(F)) if (isa<AllocaInst>(I)) { lostA[&I] = lost(&I); }
    auto addSlot = [&](const Value *root, int64_t off, int64_t size, const CallBase *mark) {
      for (unsigned s : of[root]) if (slots[s].r.off == off && slots[s].r.size == size) return;
      of[root].push_back(slots.size());
      slots.push_back({root, {off, size}, mark});
    };
    auto argRoot = [&](const Value *V) { auto *A = dyn_cast<Argument>(V); return A && A->getType()->isPointerTy() && !S.lost.count(A->getArgNo()); };
    for (auto &I : instructions(F)) {
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        Res r = resolve(St->getPointerOperand());
        int64_t sz = DL.getTypeStoreSize(St->getValueOperand()->getType());
        if (isMark(St->getValueOperand()) && isa<AllocaInst>(r.root)) {
          if (!lostA[r.root]) addSlot(r.root, r.off, sz, cast<CallBase>(St->getValueOperand()));
        } else if (argRoot(r.root) && r.exact) addSlot(r.root, r.off, sz, nullptr);
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        Res r = resolve(L->getPointerOperand());
        if (argRoot(r.root) && r.exact) addSlot(r.root, r.off, DL.getTypeStoreSize(L->getType()), nullptr);
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *G = C->getCalledFunction();
        if (!G || G->isDeclaration()) continue;
        for (unsigned i = 0; i < C->arg_size(); i++) {
          if (!C->getArgOperand(i)->getType()->isPointerTy()) continue;
          Res r = resolve(C->getArgOperand(i));
          if (!argRoot(r.root) || !r.exact) continue;
          Sum &T = sum(G);
          for (auto &x : T.must[i]) addSlot(r.root, r.off + x.off, x.size, nullptr);
          for (auto &x : T.reads[i]) addSlot(r.root, r.off + x.r.off, x.r.size, nullptr);
        }
      }
    }
    for (auto &a : lostA) { nroot++; nlost += a.second; }
    // local arrays as a whole: set by whatever writes some element, by a loop that can do so, by a callee that can
    for (auto &a : lostA) {
      auto *A = cast<AllocaInst>(a.first);
      if (a.second || !A->getAllocatedType()->isArrayTy()) continue;
      if (findDbgDeclares(const_cast<AllocaInst *>(A)).empty()) continue;
      of[A].push_back(slots.size());
      slots.push_back({A, {0, (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue()}, nullptr, A});
      narr++;
    }
    // parameters written at all, and those read whenever the function returns (a loop on the way counts as entered)
    DominatorTree DT(F);
    LoopInfo LI(DT);
    auto always = [&](const BasicBlock *B) {
      while (auto *L = LI.getLoopFor(B)) {
        auto *P = L->getLoopPredecessor();
        auto *Q = L->getLoopLatch();
        if (!P || !Q || !DT.dominates(B, Q)) return false;
        B = P;
      }
      for (auto &X : F) if (isa<ReturnInst>(X.getTerminator()) && !DT.dominates(B, &X)) return false;
      return true;
    };
    for (auto &I : instructions(F)) {
      auto note = [&](const Value *P, bool w) { auto *A = dyn_cast<Argument>(resolve(P).root); if (A && (w || always(I.getParent()))) (w ? S.wr : S.rd).insert(A->getArgNo()); };
      if (auto *St = dyn_cast<StoreInst>(&I)) note(St->getPointerOperand(), true);
      else if (auto *L = dyn_cast<LoadInst>(&I)) note(L->getPointerOperand(), false);
      else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) { note(MI->getDest(), true); if (auto *T = dyn_cast<MemTransferInst>(MI)) note(T->getSource(), false); }
      else if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *G = C->getCalledFunction();
        if (G && G->isIntrinsic()) continue;
        for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy()) {
          if (!G || G->isDeclaration() || !sum(G).ready || sum(G).lost.count(i) || sum(G).wr.count(i)) note(C->getArgOperand(i), true);
          else if (sum(G).rd.count(i)) note(C->getArgOperand(i), false);
        }
      }
    }
    unsigned N = slots.size();
    if (!N) return;
    map<BasicBlock *, vector<Loop *>> guarded;
    for (auto *L : LI.getLoopsInPreorder()) {
      auto *P = L->getLoopPredecessor();
      if (P && !P->getTerminator()->getNumSuccessors()) continue;
      if (P && P->getTerminator()->getNumSuccessors() == 1 && P->getSinglePredecessor()) P = P->getSinglePredecessor();
      auto *Br = P ? dyn_cast<BranchInst>(P->getTerminator()) : nullptr;
      if (!Br || Br->isUnconditional()) continue;
      // the other successor is where the loop comes out
      auto *X = L->getUniqueExitBlock();
      for (auto *T : successors(P)) {
        auto reach = [&](BasicBlock *A) { while (A != X && A && A->size() == 1 && A->getTerminator()->getNumSuccessors() == 1) A = A->getSingleSuccessor(); return A; };
        if (X && T != L->getLoopPreheader() && T != L->getHeader() && (reach(T) == X || reach(X) == T || reach(T) == reach(X))) guarded[P].push_back(L);
      }
    }
    auto callWrites = [&](const CallBase *C, unsigned i) {
      auto *G = C->getCalledFunction();
      return !G || G->isDeclaration() || !sum(G).ready || sum(G).lost.count(i) || sum(G).wr.count(i);
    };
    map<const Loop *, set<const Value *>> loopWrites;
    for (auto &B : F) for (auto *L = LI.getLoopFor(&B); L; L = L->getParentLoop()) for (auto &I : B) {
      auto note = [&](const Value *P) { auto *R = resolve(P).root; if (isa<AllocaInst>(R)) loopWrites[L].insert(R); };
      if (auto *St = dyn_cast<StoreInst>(&I)) { if (!isMark(St->getValueOperand())) note(St->getPointerOperand()); }
      else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) note(MI->getDest());
      else if (auto *C = dyn_cast<CallBase>(&I)) {
        if (C->getCalledFunction() && C->getCalledFunction()->isIntrinsic()) continue;
        for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy() && callWrites(C, i)) note(C->getArgOperand(i));
      }
    }
    using BV = BitVector;
    map<BasicBlock *, BV> in;
    auto clear = [&](BV &b, const Value *root, int64_t off, int64_t size) { // initialises what lies inside
      auto it = of.find(root);
      if (it == of.end()) return;
      for (unsigned s : it->second) if (slots[s].r.off < off + size && off < slots[s].r.off + slots[s].r.size) b.reset(s);
    };
    bool fin = false;
    // reached only when another value behind an out-parameter of this function, which the function itself sets, says so
    auto flagged = [&](const Instruction *at, const Value *root, int64_t off) {
      for (auto &B : F) {
        auto *Br = dyn_cast<BranchInst>(B.getTerminator());
        if (!Br || Br->isUnconditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
        auto *IC = dyn_cast<ICmpInst>(Br->getCondition());
        auto *L = IC ? dyn_cast<LoadInst>(IC->getOperand(0)) : nullptr;
        if (!L || !isa<ConstantInt>(IC->getOperand(1))) continue;
        Res r = resolve(L->getPointerOperand());
        if (!r.exact || (r.root == root && r.off == off)) continue;
        bool sets = false;
        if (isa<AllocaInst>(r.root) && isa<AllocaInst>(root)) { // both come out of the same call
          for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) {
            unsigned seen = 0;
            for (auto &A : C->args()) if (A->getType()->isPointerTy()) { auto *q = resolve(A).root; seen |= q == root ? 1 : q == r.root ? 2 : 0; }
            sets |= seen == 3;
          }
        } else if (!isa<Argument>(r.root) || !isa<Argument>(root)) continue;
        else
        for (auto &I : instructions(F)) if (auto *St = dyn_cast<StoreInst>(&I)) { Res q = resolve(St->getPointerOperand()); sets |= q.root == r.root && q.exact && q.off == r.off && isa<Constant>(St->getValueOperand()); }
        if (!sets) continue;
        for (unsigned k = 0; k < 2; k++) if (DT.dominates(BasicBlockEdge(&B, Br->getSuccessor(k)), at->getParent())) return true;
      }
      return false;
    };
    auto use = [&](BV &b, const Value *root, int64_t off, int64_t size, const Instruction *at, const string &how, int arrays = -1) {
      auto it = of.find(root);
      if (it == of.end()) return;
      for (unsigned s : it->second) if (b[s] && (arrays < 0 || arrays == !!slots[s].arr) && slots[s].r.off < off + size && off < slots[s].r.off + slots[s].r.size) {
        if (auto *A = dyn_cast<Argument>(root)) {
          if (flagged(at, root, slots[s].r.off)) continue;
          auto &v = S.reads[A->getArgNo()];
          bool dup = false;
          for (auto &e : v) dup |= e.r.off == slots[s].r.off && e.r.size == slots[s].r.size;
          if (!dup) v.push_back({slots[s].r, how.empty() ? loc(at) : how});
        } else if (!flagged(at, root, slots[s].r.off)) report(nameOf(slots[s].mark, slots[s].arr) + (!slots[s].arr && slots[s].r.off ? "+" + std::to_string(slots[s].r.off) : ""), at, slots[s].arr ? (const Instruction *)findDbgDeclares(const_cast<AllocaInst *>(slots[s].arr)).front() : slots[s].mark, how.empty() ? "read" : "read at " + how);
      }
    };
    auto step = [&](BV &b, Instruction &I) {
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        Res r = resolve(St->getPointerOperand());
        int64_t sz = DL.getTypeStoreSize(St->getValueOperand()->getType());
        auto it = of.find(r.root);
        if (it == of.end()) return;
        if (isMark(St->getValueOperand())) { for (unsigned s : it->second) if (slots[s].r.off == r.off && !slots[s].arr) b.set(s); }
        else if (r.exact) clear(b, r.root, r.off, sz);
        else clear(b, r.root, r.off, INT32_MAX);
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        Res r = resolve(L->getPointerOperand());
        if (fin && !r.exact) use(b, r.root, INT32_MIN, (int64_t)INT32_MAX * 2, L, "", 1);
        if (fin && r.exact) { nload++; use(b, r.root, r.off, DL.getTypeStoreSize(L->getType()), L, ""); }
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *G = C->getCalledFunction();
        if (auto *II = dyn_cast<IntrinsicInst>(C)) if (II->getIntrinsicID() == Intrinsic::lifetime_start) {
          auto it = of.find(II->getArgOperand(1));
          if (it != of.end()) for (unsigned s : it->second) if (slots[s].arr) b.set(s);
          return;
        }
        if (auto *MI = dyn_cast<MemIntrinsic>(C)) {
          if (auto *T = dyn_cast<MemTransferInst>(MI)) if (fin) { Res r = resolve(T->getSource()); use(b, r.root, INT32_MIN, (int64_t)INT32_MAX * 2, T, "", 1); }
          Res r = resolve(MI->getDest());
          auto *K = dyn_cast<ConstantInt>(MI->getLength());
          clear(b, r.root, r.off, r.exact && K ? K->getSExtValue() : INT32_MAX);
          return;
        }
        if (!G || G->isIntrinsic()) return;
        for (int pass = 0; pass < 2; pass++)
          for (unsigned i = 0; i < C->arg_size(); i++) {
            if (!C->getArgOperand(i)->getType()->isPointerTy()) continue;
            Res r = resolve(C->getArgOperand(i));
            if (!of.count(r.root)) continue;
            if (G->isDeclaration()) { clear(b, r.root, INT32_MIN, (int64_t)INT32_MAX * 2); continue; }
            if (!r.exact) { if (pass) clear(b, r.root, INT32_MIN, (int64_t)INT32_MAX * 2); continue; }
            for (unsigned s : of[r.root]) if (slots[s].arr) {
              if (callWrites(C, i)) { if (pass) b.reset(s); }
              else if (!pass && fin && sum(G).rd.count(i)) use(b, r.root, INT32_MIN, (int64_t)INT32_MAX * 2, C, "an access in " + G->getName().str(), 1);
            }
            Sum &T = sum(G);
            if (!T.ready || T.lost.count(i)) { if (pass) clear(b, r.root, INT32_MIN, (int64_t)INT32_MAX * 2); continue; }
            if (!pass && fin) { ncall++; for (auto &x : T.reads[i]) use(b, r.root, r.off + x.r.off, x.r.size, C, x.where + " in " + G->getName().str()); }
            if (pass) for (auto &x : T.must[i]) clear(b, r.root, r.off + x.off, x.size);
          }
      }
    };
    BV entry(N);
    for (unsigned s = 0; s < N; s++) if (isa<Argument>(slots[s].root)) entry.set(s);
    for (unsigned s = 0; s < N; s++) if (slots[s].arr) {
      bool lt = false;
      for (auto *U : slots[s].arr->users()) if (auto *II = dyn_cast<IntrinsicInst>(U)) lt |= II->getIntrinsicID() == Intrinsic::lifetime_start;
      if (!lt) entry.set(s);
    }
    in[&F.getEntryBlock()] = entry;
    std::deque<BasicBlock *> wl{&F.getEntryBlock()};
    while (!wl.empty()) {
      auto *B = wl.front(); wl.pop_front();
      BV b = in[B];
      for (auto &I : *B) step(b, I);
      for (auto *T : successors(B)) {
        auto it = in.find(T);
        BV e = b;
        for (auto *L = LI.getLoopFor(B); L && !L->contains(T); L = L->getParentLoop())
          for (auto *R : loopWrites[L]) for (unsigned s : of[R]) if (slots[s].arr) e.reset(s);
        for (auto *L : guarded[B]) // the way around a rotated loop
          if (L->getLoopPreheader() != T && L->getHeader() != T) for (auto *R : loopWrites[L]) for (unsigned s : of[R]) if (slots[s].arr) e.reset(s);
        if (it == in.end()) { in[T] = e; wl.push_back(T); }
        else { BV o = it->second; it->second |= e; if (o != it->second) wl.push_back(T); }
      }
    }
    fin = true;
    nslot += N;
    BV exit(N); bool any = false;
    for (auto &B : F) {
      if (!in.count(&B)) continue;
      BV b = in[&B];
      for (auto &I : B) step(b, I);
      auto *R = dyn_cast<ReturnInst>(B.getTerminator());
      if (!R) continue;
      // the states of the paths that end in success, one for each way the returned value comes about
      fin = false;
      std::function<void(const Value *, BasicBlock *, vector<BasicBlock *>, unsigned)> collect =
          [&](const Value *V, BasicBlock *X, vector<BasicBlock *> after, unsigned d) {
        auto *P = V ? dyn_cast<PHINode>(V) : nullptr;
        if (P && P->getParent() == X && d < 12) {
          after.push_back(X);
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
            auto *Q = P->getIncomingBlock(i);
            if (!in.count(Q) || std::find(after.begin(), after.end(), Q) != after.end()) { if (in.count(Q)) { exit |= in[X]; any = true; } continue; }
            if (errPath(P->getIncomingValue(i), Q, X, DT)) continue;
            collect(P->getIncomingValue(i), Q, after, d + 1);
          }
          return;
        }
        BV e = in[X];
        for (auto &I : *X) step(e, I);
        for (auto it = after.rbegin(); it != after.rend(); ++it) for (auto &I : **it) step(e, I);
        exit |= e; any = true;
      };
      if (!R->getReturnValue() || !errPath(R->getReturnValue(), &B, nullptr, DT)) collect(R->getReturnValue(), &B, {}, 0);
      fin = true;
    }
    for (unsigned s = 0; s < N; s++) if (auto *A = dyn_cast<Argument>(slots[s].root)) if (!any || !exit[s]) S.must[A->getArgNo()].push_back(slots[s].r);
  }
  // markers in registers
  void registers(Function &F) {
    for (auto &I : instructions(F)) {
      if (!isMark(&I)) continue;
      // which bits of each value are indeterminate
      map<const Value *, APInt> vis; vector<const Value *> wl{&I};
      auto bits = [&](const Value *V) { return (unsigned)DL.getTypeSizeInBits(V->getType()).getFixedValue(); };
      vis.insert({&I, APInt::getAllOnes(bits(&I))});
      while (!wl.empty()) {
        auto *V = wl.back(); wl.pop_back();
        APInt m = vis.find(V)->second;
        for (auto *U : V->users()) {
          auto *J = cast<Instruction>(U);
          APInt t(1, 0); bool copy = false;
          unsigned w = J->getType()->isVoidTy() ? 0 : J->getType()->isSized() ? bits(J) : 0;
          auto *K = J->getNumOperands() > 1 ? dyn_cast<ConstantInt>(J->getOperand(1)) : nullptr;
          if (isa<PHINode>(J)) copy = true, t = m;
          else if (auto *Se = dyn_cast<SelectInst>(J)) { if (Se->getCondition() != V) copy = true, t = m; }
          else if (isa<ZExtInst>(J)) copy = true, t = m.zext(w);
          else if (isa<SExtInst>(J)) copy = true, t = m.sext(w);
          else if (isa<TruncInst>(J)) copy = true, t = m.trunc(w);
          else if (isa<BitCastInst>(J) && w == m.getBitWidth()) copy = true, t = m;
          else if (isa<CastInst>(J) && w) copy = true, t = APInt::getAllOnes(w);
          else if (J->getOpcode() == Instruction::And && K) copy = true, t = m & K->getValue();
          else if (J->getOpcode() == Instruction::Or && w == m.getBitWidth()) copy = true, t = m;
          else if (J->getOpcode() == Instruction::Shl && K) copy = true, t = m.shl(K->getValue());
          else if (J->getOpcode() == Instruction::LShr && K) copy = true, t = m.lshr(K->getValue());
          else if (isa<InsertElementInst>(J) || isa<ShuffleVectorInst>(J) || isa<InsertValueInst>(J) || isa<FreezeInst>(J)) continue;
          else if (auto *St = dyn_cast<StoreInst>(J)) if (St->getValueOperand() == V && V == &I && isa<AllocaInst>(resolve(St->getPointerOperand()).root)) continue;
          if (!copy) { report(varOf(cast<CallBase>(&I)), J, &I, "used"); continue; }
          if (t.isZero()) continue;
          auto it = vis.find(J);
          if (it == vis.end()) { vis.insert({J, t}); wl.push_back(J); }
          else { APInt n = it->second | t; if (n != it->second) { it->second = n; wl.push_back(J); } }
        }
      }
      nuse++;
    }
  }
};
static void modeUninit(Module &M, const vector<string> &args) {
  Uninit U(M);
  for (unsigned i = 1; i + 1 < args.size(); i += 2) U.writes[args[i]].insert(std::stoul(args[i + 1]));
  for (auto &F : M) if (!F.isDeclaration()) { U.sum(&F); U.registers(F); }
  outs() << "count\t" << U.nuse << "\t" << U.nroot << "\t" << U.nlost << "\t" << U.nslot << "\t" << U.nload << "\t" << U.ncall << "\t" << U.narr << "\n";
}
