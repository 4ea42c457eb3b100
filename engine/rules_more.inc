// ------------------------------------------------------------ API result codes
// Which constants can the named functions return?  Backward closure of return values through phis, selects, local
// slots and calls; anything else is reported as an unresolved leaf.
struct RetWalk {
  set<const Value *> seen;
  set<const Function *> fns;
  map<pair<int64_t, string>, pair<string, string>> consts; // (value, function) -> where
  map<string, string> leaves;
  Module &M;
  RetWalk(Module &m) : M(m) {}
  void fn(const Function *F) {
    if (!fns.insert(F).second) return;
    for (auto &B : *F)
      if (auto *R = dyn_cast<ReturnInst>(B.getTerminator()))
        if (R->getReturnValue()) val(R->getReturnValue(), R, F);
  }
  void leaf(const Value *v, const Instruction *at) {
    string k = string(at->getFunction()->getName()) + "\t";
    if (auto *I = dyn_cast<Instruction>(v)) k += I->getOpcodeName(), at = I;
    else k += "arg";
    leaves[k + "\t" + loc(at)] = "";
  }
  // at: where the value is chosen
  void val(const Value *v, const Instruction *at, const Function *F) {
    if (auto *c = dyn_cast<ConstantInt>(v)) {
      int64_t k = c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : (int32_t)c->getSExtValue();
      consts.insert({{k, F->getName().str()}, {loc(at), ""}});
      return;
    }
    if (isa<Constant>(v)) return;
    if (!seen.insert(v).second) return;
    if (auto *p = dyn_cast<PHINode>(v)) {
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) val(p->getIncomingValue(i), p->getIncomingBlock(i)->getTerminator(), F);
      return;
    }
    if (auto *s = dyn_cast<SelectInst>(v)) { val(s->getTrueValue(), s, F); val(s->getFalseValue(), s, F); return; }
    if (auto *s = dyn_cast<CastInst>(v)) { val(s->getOperand(0), s, F); return; }
    if (auto *b = dyn_cast<BinaryOperator>(v))
      if (b->getOpcode() == Instruction::Or) { val(b->getOperand(0), b, F); val(b->getOperand(1), b, F); return; }
    if (auto *L = dyn_cast<LoadInst>(v))
      if (auto *A = dyn_cast<AllocaInst>(L->getPointerOperand())) {
        for (auto *U : A->users())
          if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == A) val(S->getValueOperand(), S, F); }
          else if (auto *C = dyn_cast<CallBase>(U)) // status handed out through a pointer parameter
            if (auto *G = calleeOf(C); G && !G->isDeclaration())
              for (unsigned i = 0; i < C->arg_size() && i < G->arg_size(); i++)
                if (C->getArgOperand(i) == A)
                  for (auto *AU : G->getArg(i)->users())
                    if (auto *S2 = dyn_cast<StoreInst>(AU)) if (S2->getPointerOperand() == G->getArg(i)) val(S2->getValueOperand(), S2, G);
        return;
      }
    if (auto *A = dyn_cast<Argument>(v)) { // a code handed in by the callers
      bool any = false;
      for (auto *U : A->getParent()->users())
        if (auto *C = dyn_cast<CallBase>(U); C && calleeOf(C) == A->getParent() && A->getArgNo() < C->arg_size())
          any = true, val(C->getArgOperand(A->getArgNo()), C, C->getFunction());
      if (any) return;
    }
    if (auto *L = dyn_cast<LoadInst>(v)) // a code parked in a structure: whatever is stored in that member
      if (auto *G = dyn_cast<GEPOperator>(L->getPointerOperand()); G && isa<StructType>(G->getSourceElementType())) {
        bool any = false;
        for (auto &X : M)
          for (auto &I : instructions(X))
            if (auto *S = dyn_cast<StoreInst>(&I))
              if (auto *H = dyn_cast<GEPOperator>(S->getPointerOperand()))
                if (H->getSourceElementType() == G->getSourceElementType() && H->getNumIndices() == G->getNumIndices() &&
                    S->getValueOperand()->getType() == L->getType() &&
                    std::equal(H->idx_begin() + 1, H->idx_end(), G->idx_begin() + 1))
                  any = true, val(S->getValueOperand(), S, &X);
        if (any) return;
      }
    if (auto *C = dyn_cast<CallBase>(v)) {
      auto *G = calleeOf(C);
      if (G && !G->isDeclaration()) { fn(G); return; }
      if (G && G->getName().contains("setjmp")) {
        for (auto &X : M)
          for (auto &I : instructions(X))
            if (auto *C2 = dyn_cast<CallBase>(&I))
              if (auto *G2 = calleeOf(C2)) if (G2->getName().contains("longjmp")) val(C2->getArgOperand(1), C2, &X);
        return;
      }
      if (!G) { // any defined function of that type whose address is taken
        for (auto &X : M)
          if (!X.isDeclaration() && X.hasAddressTaken() && X.getFunctionType() == C->getFunctionType()) fn(&X);
        return;
      }
    }
    leaf(v, at);
  }
};
static void modeRetcodes(Module &M, const vector<string> &args) {
  for (auto &a : args) {
    auto *F = M.getFunction(a);
    if (!F || F->isDeclaration()) { outs() << "missing\t" << a << "\n"; continue; }
    RetWalk w(M);
    w.fn(F);
    for (auto &c : w.consts) outs() << "const\t" << a << "\t" << c.first.first << "\t" << c.first.second << "\t" << c.second.first << "\n";
    for (auto &l : w.leaves) outs() << "leaf\t" << a << "\t" << l.first << "\n";
    outs() << "functions\t" << a << "\t" << w.fns.size() << "\n";
  }
}


// ------------------------------------------------------- error message tables
// Stores of object addresses into constant positions of a static object, made by a function: "slot  object  index path".
static void modeErrtab(Module &M, const vector<string> &args) {
  auto &DL = M.getDataLayout();
  for (auto &F : M)
    for (auto &I : instructions(F))
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        auto *G = dyn_cast<GlobalVariable>(S->getValueOperand()->stripPointerCasts());
        if (!G) continue;
        APInt off(64, 0);
        auto *B = dyn_cast<GlobalVariable>(S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true));
        if (!B || !isa<StructType>(B->getValueType())) continue;
        auto *ST = cast<StructType>(B->getValueType());
        uint64_t o = off.getZExtValue();
        auto *SL = DL.getStructLayout(ST);
        if (o >= SL->getSizeInBytes()) continue;
        unsigned f = SL->getElementContainingOffset(o);
        o -= SL->getElementOffset(f);
        Type *T = ST->getElementType(f);
        string path;
        while (auto *A = dyn_cast<ArrayType>(T)) {
          uint64_t e = DL.getTypeAllocSize(A->getElementType());
          path += "\t" + std::to_string(o / e);
          o %= e;
          T = A->getElementType();
        }
        outs() << "slot\t" << B->getName() << "\t" << G->getName() << "\t" << loc(S) << path << "\n";
      }
}

// -------------------------------------------------------------------- stack
// Call graph with indirect calls resolved by type; frame sizes from the locals of the source (raw module); variable-size
// frames; recursion and the state flags that bound it.
struct FieldKey {
  Type *T = nullptr; vector<int64_t> idx;
  bool operator==(const FieldKey &o) const { return T == o.T && idx == o.idx; }
  bool operator<(const FieldKey &o) const { return T != o.T ? T < o.T : idx < o.idx; }
};
static bool fieldOf(const Value *p, FieldKey &k) {
  auto *G = dyn_cast<GEPOperator>(p);
  if (!G || !isa<StructType>(G->getSourceElementType())) return false;
  k.T = G->getSourceElementType(); k.idx.clear();
  for (auto it = G->idx_begin() + 1; it != G->idx_end(); ++it) {
    auto *c = dyn_cast<ConstantInt>(*it);
    if (!c) return false;
    k.idx.push_back(c->getSExtValue());
  }
  return !k.idx.empty();
}
static string fieldName(const FieldKey &k) {
  string s = k.T->getStructName().str();
  for (auto i : k.idx) s += "." + std::to_string(i);
  return s;
}
static void modeStack(Module &M) {
  map<const Function *, set<const Function *>> cg;
  map<const Function *, vector<pair<const CallBase *, const Function *>>> calls;
  auto &DL = M.getDataLayout();
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    uint64_t fr = 0;
    for (auto &I : instructions(F)) {
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        if (!isa<ConstantInt>(A->getArraySize())) { outs() << "vla\t" << F.getName() << "\t" << loc(A) << "\n"; continue; }
        fr += A->getAllocationSize(DL)->getFixedValue();
      }
      if (auto *C = dyn_cast<CallBase>(&I)) {
        if (auto *G = calleeOf(C)) {
          if (!G->isDeclaration()) cg[&F].insert(G), calls[&F].push_back({C, G});
        } else
          for (auto &X : M)
            if (!X.isDeclaration() && X.hasAddressTaken() && X.getFunctionType() == C->getFunctionType())
              cg[&F].insert(&X), calls[&F].push_back({C, &X});
      }
    }
    string file = "?:0";
    if (auto *sp = F.getSubprogram()) file = base(sp->getFilename()) + ":" + std::to_string(sp->getLine());
    outs() << "frame\t" << F.getName() << "\t" << fr << "\t" << file << "\n";
    for (auto *G : cg[&F]) outs() << "edge\t" << F.getName() << "\t" << G->getName() << "\n";
  }
  // strongly connected components (Tarjan)
  map<const Function *, int> idx, low; vector<const Function *> st; set<const Function *> on; int n = 0;
  vector<vector<const Function *>> sccs;
  std::function<void(const Function *)> dfs = [&](const Function *f) {
    idx[f] = low[f] = n++; st.push_back(f); on.insert(f);
    for (auto *g : cg[f]) {
      if (!idx.count(g)) dfs(g), low[f] = std::min(low[f], low[g]);
      else if (on.count(g)) low[f] = std::min(low[f], idx[g]);
    }
    if (low[f] == idx[f]) {
      vector<const Function *> c; const Function *g;
      do { g = st.back(); st.pop_back(); on.erase(g); c.push_back(g); } while (g != f);
      if (c.size() > 1 || cg[f].count(f)) sccs.push_back(c);
    }
  };
  for (auto &F : M) if (!F.isDeclaration() && !idx.count(&F)) dfs(&F);
  for (auto &c : sccs) {
    set<const Function *> in(c.begin(), c.end());
    outs() << "scc";
    for (auto *f : c) outs() << "\t" << f->getName();
    outs() << "\n";
    // A function h of the component is entered again only while parameter p of h is non-zero (every call back into the
    // component lies behind a test of p), and every way back to h passes 0 for p: the recursion is one level deep.
    string proof;
    for (auto *h : c) {
      DominatorTree DT(*const_cast<Function *>(h));
      for (auto &P : h->args()) {
        if (!P.getType()->isIntegerTy()) continue;
        bool guarded = true;
        for (auto &cs : calls[h])
          if (in.count(cs.second)) {
            bool ok = false;
            for (auto &B : *h) {
              auto *Br = dyn_cast<BranchInst>(B.getTerminator());
              if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
              auto *Cm = dyn_cast<ICmpInst>(Br->getCondition());
              if (!Cm || Cm->getOperand(0) != &P) continue;
              auto *z = dyn_cast<ConstantInt>(Cm->getOperand(1));
              if (!z || !z->isZero()) continue;
              int e = -1;
              switch (Cm->getPredicate()) {
              case CmpInst::ICMP_NE: case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: e = 0; break;
              case CmpInst::ICMP_EQ: case CmpInst::ICMP_SLE: case CmpInst::ICMP_SGE: e = 1; break;
              default: break;
              }
              if (e >= 0 && DT.dominates(BasicBlockEdge(&B, Br->getSuccessor(e)), cs.first->getParent())) ok = true;
            }
            guarded &= ok;
          }
        if (!guarded) continue;
        bool good = true;
        for (auto *f : c)
          for (auto &cs : calls[f]) {
            if (cs.second != h) continue;
            auto *a = cs.first->getArgOperand(P.getArgNo());
            if (auto *z = dyn_cast<ConstantInt>(a)) { good &= z->isZero(); continue; }
            FieldKey k;
            auto *L = dyn_cast<LoadInst>(a);
            if (!L || !fieldOf(L->getPointerOperand(), k)) { good = false; continue; }
            // member k is cleared on every way from h to this call, and not set again before it
            auto cleared = [&](const CallBase *C) {
              DominatorTree D(*const_cast<Function *>(C->getFunction()));
              for (auto &I : instructions(*C->getFunction()))
                if (auto *S = dyn_cast<StoreInst>(&I)) {
                  FieldKey q; auto *z = dyn_cast<ConstantInt>(S->getValueOperand());
                  if (z && z->isZero() && fieldOf(S->getPointerOperand(), q) && q == k && D.dominates(S, C)) return true;
                }
              return false;
            };
            auto setBefore = [&](const CallBase *C) {
              for (auto &I : instructions(*C->getFunction()))
                if (auto *S = dyn_cast<StoreInst>(&I)) {
                  FieldKey q; auto *z = dyn_cast<ConstantInt>(S->getValueOperand());
                  if (fieldOf(S->getPointerOperand(), q) && q == k && !(z && z->isZero()) && isPotentiallyReachable(S, C))
                    return true;
                }
              return false;
            };
            // backwards from the call to h: every chain of calls must start with a clearing one
            set<const Function *> seen; vector<const Function *> wl;
            if (setBefore(cs.first)) good = false;
            if (!cleared(cs.first)) { if (f == h) good = false; else wl.push_back(f); }
            while (!wl.empty() && good) {
              auto *g = wl.back(); wl.pop_back();
              if (!seen.insert(g).second) continue;
              for (auto *x : c)
                for (auto &c2 : calls[x]) {
                  if (c2.second != g) continue;
                  if (x != h && setBefore(c2.first)) good = false;
                  if (cleared(c2.first)) continue;
                  if (x == h) good = false; else wl.push_back(x);
                }
            }
          }
        if (good) proof = "guard\t" + h->getName().str() + "\t" + std::to_string(P.getArgNo());
      }
    }
    // direct recursion on a shrinking size
    if (c.size() == 1) {
      auto *h = c[0];
      DominatorTree DT(*const_cast<Function *>(h));
      LoopInfo LI(DT);
      string verdict = "none";
      for (auto &P : h->args()) {
        if (!P.getType()->isIntegerTy()) continue;
        std::function<bool(const Value *, set<const Value *> &)> nonneg = [&](const Value *v, set<const Value *> &sn) -> bool {
          if (auto *k = dyn_cast<ConstantInt>(v)) return !k->isNegative();
          if (!sn.insert(v).second) return true;
          if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) if (!nonneg(o, sn)) return false; return true; }
          if (auto *b = dyn_cast<BinaryOperator>(v)) if (b->getOpcode() == Instruction::Add) return nonneg(b->getOperand(0), sn) && nonneg(b->getOperand(1), sn);
          return false;
        };
        // value = base + constant
        auto split = [&](const Value *v, int64_t &k) {
          k = 0;
          for (;;) {
            auto *b = dyn_cast<BinaryOperator>(v);
            if (!b) break;
            auto *c1 = dyn_cast<ConstantInt>(b->getOperand(1));
            if (!c1) break;
            if (b->getOpcode() == Instruction::Add) k += c1->getSExtValue();
            else if (b->getOpcode() == Instruction::Sub) k -= c1->getSExtValue();
            else break;
            v = b->getOperand(0);
          }
          return v;
        };
        // is v a counter of at most one per round of a loop that runs at most P-1 rounds?
        auto counter = [&](const Value *v) {
          auto *ph = dyn_cast<PHINode>(v);
          if (!ph) return false;
          auto *Lp = LI.getLoopFor(ph->getParent());
          if (!Lp || Lp->getHeader() != ph->getParent()) return false;
          std::function<bool(const Value *, int, bool &)> inc = [&](const Value *x, int d, bool &one) -> bool {
            if (x == ph) return true;
            if (d > 6) return false;
            int64_t k; auto *b = split(x, k);
            if (k == 1 && b == ph) { one = true; return true; }
            if (auto *p = dyn_cast<PHINode>(x)) { for (auto &o : p->incoming_values()) if (!inc(o, d + 1, one)) return false; return true; }
            return false;
          };
          bool one = false;
          for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
            if (Lp->contains(ph->getIncomingBlock(i))) { if (!inc(ph->getIncomingValue(i), 0, one)) return false; }
            else { auto *z = dyn_cast<ConstantInt>(ph->getIncomingValue(i)); if (!z || !z->isZero()) return false; }
          }
          auto *Br = dyn_cast<BranchInst>(Lp->getHeader()->getTerminator());
          if (!Br || !Br->isConditional()) return false;
          auto *Cm = dyn_cast<ICmpInst>(Br->getCondition());
          if (!Cm || Cm->getPredicate() != CmpInst::ICMP_SLT || !Lp->contains(Br->getSuccessor(0)) || Lp->contains(Br->getSuccessor(1))) return false;
          int64_t k; auto *b = split(Cm->getOperand(1), k);
          if (b != &P || k > -1) return false;
          auto *iv = dyn_cast<PHINode>(Cm->getOperand(0));
          if (!iv || iv->getParent() != Lp->getHeader()) return false;
          for (unsigned i = 0; i < iv->getNumIncomingValues(); i++) {
            if (Lp->contains(iv->getIncomingBlock(i))) { int64_t q; if (split(iv->getIncomingValue(i), q) != iv || q < 1) return false; }
            else { auto *z = dyn_cast<ConstantInt>(iv->getIncomingValue(i)); if (!z || z->isNegative()) return false; }
          }
          return true;
        };
        bool all = true, refuted = false;
        for (auto &cs : calls[h]) {
          if (cs.second != h) continue;
          auto *a = cs.first->getArgOperand(P.getArgNo());
          int64_t k; auto *b = split(a, k);
          bool ok = false;
          if (b == &P) { ok = k < 0; if (k >= 0) refuted = true; }
          else if (k <= 0 && counter(b)) ok = true;
          else if (auto *S = dyn_cast<BinaryOperator>(a); S && S->getOpcode() == Instruction::Sub && S->getOperand(0) == &P) {
            int64_t q; auto *x = split(S->getOperand(1), q); set<const Value *> sn;
            ok = q >= 1 && nonneg(x, sn);
          }
          all &= ok;
        }
        if (all) verdict = "shrinks\t" + std::to_string(P.getArgNo());
        else if (refuted && verdict == "none") verdict = "same\t" + std::to_string(P.getArgNo());
      }
      if (proof.empty()) proof = verdict;
    }
    outs() << "bound\t" << c[0]->getName() << "\t" << (proof.empty() ? "none" : proof) << "\n";
  }
}

// ------------------------------------------------------- float to integer
struct FR { double lo, hi; };
struct FloatRange {
  const Function *F; DominatorTree DT; const DataLayout &DL;
  map<pair<const Value *, const BasicBlock *>, int> active;
  FloatRange(const Function *f) : F(f), DT(*const_cast<Function *>(f)), DL(f->getParent()->getDataLayout()) {}
  static FR top() { return {-INFINITY, INFINITY}; }
  static double cst(const ConstantFP *c) { bool l; APFloat v = c->getValueAPF(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return v.convertToDouble(); }
  static FR meet(FR a, FR b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }
  // narrow r, the range of v, by condition c having value t
  FR cond(FR r, const Value *v, const Value *c, bool t, int d) {
    if (d > 8) return r;
    if (auto *b = dyn_cast<BinaryOperator>(c)) {
      auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
      if (b->getOpcode() == Instruction::Xor && k && k->isOne()) return cond(r, v, b->getOperand(0), !t, d + 1);
      if (b->getOpcode() == Instruction::And && t) return cond(cond(r, v, b->getOperand(0), t, d + 1), v, b->getOperand(1), t, d + 1);
      if (b->getOpcode() == Instruction::Or && !t) return cond(cond(r, v, b->getOperand(0), t, d + 1), v, b->getOperand(1), t, d + 1);
      return r;
    }
    if (auto *s = dyn_cast<SelectInst>(c)) { // a && b, a || b
      auto *f = dyn_cast<ConstantInt>(s->getFalseValue()); auto *g = dyn_cast<ConstantInt>(s->getTrueValue());
      if (f && f->isZero() && t) return cond(cond(r, v, s->getCondition(), true, d + 1), v, s->getTrueValue(), true, d + 1);
      if (g && g->isOne() && !t) return cond(cond(r, v, s->getCondition(), false, d + 1), v, s->getFalseValue(), false, d + 1);
      return r;
    }
    if (auto *i = dyn_cast<ICmpInst>(c)) {
      auto *k = dyn_cast<ConstantInt>(i->getOperand(1));
      if (k && i->isEquality()) {
        const Value *x = i->getOperand(0);
        bool nz = (i->getPredicate() == CmpInst::ICMP_NE) == k->isZero();
        if (!k->isZero() && !k->isOne()) return r;
        while (auto *z = dyn_cast<CastInst>(x)) x = z->getOperand(0);
        if (x->getType()->isIntegerTy(1)) return cond(r, v, x, t == nz, d + 1);
        if (auto *s = dyn_cast<SelectInst>(x)) {
          auto *a = dyn_cast<ConstantInt>(s->getTrueValue()), *b = dyn_cast<ConstantInt>(s->getFalseValue());
          if (a && b && a->isZero() != b->isZero()) return cond(r, v, s->getCondition(), (t == nz) == !a->isZero(), d + 1);
        }
      }
      return r;
    }
    if (auto *f = dyn_cast<FCmpInst>(c)) {
      const Value *a = f->getOperand(0), *b = f->getOperand(1);
      auto p = f->getPredicate();
      if (!t) p = f->getInversePredicate();
      // comparing an affine image of v is not looked through; v itself or its widening only
      auto strip = [](const Value *x) { while (auto *e = dyn_cast<FPExtInst>(x)) x = e->getOperand(0); return x; };
      const Value *o = nullptr;
      if (strip(a) == strip(v)) o = b; else if (strip(b) == strip(v)) { o = a; p = CmpInst::getSwappedPredicate(p); }
      if (!o) return r;
      FR q = top();
      if (auto *k = dyn_cast<ConstantFP>(o)) q.lo = q.hi = cst(k); else q = val(o, f->getParent(), 4);
      switch (p) { // NaN is not considered (see the assumptions)
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULT: case CmpInst::FCMP_ULE: r.hi = std::min(r.hi, q.hi); break;
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGT: case CmpInst::FCMP_UGE: r.lo = std::max(r.lo, q.lo); break;
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = meet(r, q); break;
      default: break;
      }
    }
    return r;
  }
  vector<pair<const Value *, bool>> assumed; // conditions under which the value is looked at
  FR val(const Value *v, const BasicBlock *B, int d, const Value *c, bool t) {
    assumed.push_back({c, t});
    FR r = val(v, B, d);
    assumed.pop_back();
    return r;
  }
  FR valEdge(const Value *v, const BasicBlock *P, const BasicBlock *B, int d) {
    if (DT.dominates(B, P)) { // a value of an earlier round: what holds now need not have held then
      vector<pair<const Value *, bool>> keep;
      keep.swap(assumed);
      FR r = val(v, P, d);
      keep.swap(assumed);
      return r;
    }
    auto *Br = dyn_cast<BranchInst>(P->getTerminator());
    if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) return val(v, P, d, Br->getCondition(), Br->getSuccessor(0) == B);
    return val(v, P, d);
  }
  FR edge(FR r, const Value *v, const BasicBlock *P, const BasicBlock *B) {
    if (auto *Br = dyn_cast<BranchInst>(P->getTerminator()))
      if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
        return cond(r, v, Br->getCondition(), Br->getSuccessor(0) == B, 0);
    return r;
  }
  FR ctx(FR r, const Value *v, const BasicBlock *B) {
    auto *N = DT.getNode(const_cast<BasicBlock *>(B));
    int n = 0;
    while (N && N->getIDom() && n++ < 64) {
      auto *D = N->getIDom()->getBlock();
      if (auto *Br = dyn_cast<BranchInst>(D->getTerminator()))
        if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
          for (unsigned i = 0; i < 2; i++)
            if (DT.dominates(BasicBlockEdge(D, Br->getSuccessor(i)), B)) r = cond(r, v, Br->getCondition(), i == 0, 0);
      N = N->getIDom();
    }
    return r;
  }
  static FR corners(FR a, FR b, double (*f)(double, double)) {
    double q[4] = {f(a.lo, b.lo), f(a.lo, b.hi), f(a.hi, b.lo), f(a.hi, b.hi)};
    FR r{INFINITY, -INFINITY};
    for (double x : q) { if (x != x) return top(); r.lo = std::min(r.lo, x); r.hi = std::max(r.hi, x); }
    return r;
  }
  void table(const Constant *c, FR &r, bool &ok) {
    if (auto *f = dyn_cast<ConstantFP>(c)) { r.lo = std::min(r.lo, cst(f)); r.hi = std::max(r.hi, cst(f)); return; }
    if (isa<ConstantAggregateZero>(c)) { r.lo = std::min(r.lo, 0.); r.hi = std::max(r.hi, 0.); return; }
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
      if (!d->getElementType()->isFloatingPointTy()) { ok = false; return; }
      for (unsigned i = 0; i < d->getNumElements(); i++) table(d->getElementAsConstant(i), r, ok);
      return;
    }
    if (isa<ConstantArray>(c)) { for (auto &o : c->operands()) table(cast<Constant>(o), r, ok); return; }
    ok = false;
  }
  FR val(const Value *v, const BasicBlock *B, int d) {
    if (d > 24) return top();
    if (auto *c = dyn_cast<ConstantFP>(v)) return {cst(c), cst(c)};
    if (!isa<Instruction>(v)) return top();
    auto key = std::make_pair(v, B);
    if (active[key]) return top();
    active[key] = 1;
    FR r = top();
    auto *I = cast<Instruction>(v);
    if (auto *p = dyn_cast<PHINode>(I)) {
      r = {INFINITY, -INFINITY};
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
        auto *P = p->getIncomingBlock(i); auto *x = p->getIncomingValue(i);
        FR q = edge(valEdge(x, P, p->getParent(), d + 1), x, P, p->getParent());
        if (q.lo > q.hi) continue; // no value flows here
        r.lo = std::min(r.lo, q.lo); r.hi = std::max(r.hi, q.hi);
      }
    } else if (auto *s = dyn_cast<SelectInst>(I)) {
      FR a = cond(val(s->getTrueValue(), B, d + 1, s->getCondition(), true), s->getTrueValue(), s->getCondition(), true, 0);
      FR b = cond(val(s->getFalseValue(), B, d + 1, s->getCondition(), false), s->getFalseValue(), s->getCondition(), false, 0);
      if (a.lo > a.hi) r = b; else if (b.lo > b.hi) r = a; else r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
    } else if (auto *b = dyn_cast<BinaryOperator>(I)) {
      FR x = val(b->getOperand(0), B, d + 1), y = val(b->getOperand(1), B, d + 1);
      switch (b->getOpcode()) {
      case Instruction::FMul: r = corners(x, y, [](double p, double q) { return p == 0 || q == 0 ? 0 : p * q; }); break;
      case Instruction::FAdd: r = corners(x, y, [](double p, double q) { return p + q; }); break;
      case Instruction::FSub: r = corners(x, y, [](double p, double q) { return p - q; }); break;
      case Instruction::FDiv: if (y.lo > 0 || y.hi < 0) r = corners(x, y, [](double p, double q) { return p / q; }); break;
      default: break;
      }
    } else if (I->getOpcode() == Instruction::FNeg) { FR x = val(I->getOperand(0), B, d + 1); r = {-x.hi, -x.lo}; }
    else if (isa<FPExtInst>(I) || isa<FPTruncInst>(I)) {
      r = val(I->getOperand(0), B, d + 1);
      if (isa<FPTruncInst>(I)) r = {(double)(float)r.lo, (double)(float)r.hi};
    } else if (isa<SIToFPInst>(I) || isa<UIToFPInst>(I)) {
      auto *x = I->getOperand(0);
      bool sg = isa<SIToFPInst>(I);
      ConstantRange cr = computeConstantRange(x, sg);
      KnownBits kb = computeKnownBits(x, DL);
      cr = cr.intersectWith(ConstantRange::fromKnownBits(kb, sg));
      r = sg ? FR{cr.getSignedMin().roundToDouble(true), cr.getSignedMax().roundToDouble(true)}
             : FR{cr.getUnsignedMin().roundToDouble(false), cr.getUnsignedMax().roundToDouble(false)};
    } else if (auto *C = dyn_cast<CallBase>(I)) {
      auto *G = calleeOf(C);
      StringRef n = G ? G->getName() : "";
      auto A = [&](unsigned i) { return val(C->getArgOperand(i), B, d + 1); };
      if (n.starts_with("llvm.minnum") || n.starts_with("fmin")) { FR x = A(0), y = A(1); r = {std::min(x.lo, y.lo), std::min(x.hi, y.hi)}; }
      else if (n.starts_with("llvm.maxnum") || n.starts_with("fmax")) { FR x = A(0), y = A(1); r = {std::max(x.lo, y.lo), std::max(x.hi, y.hi)}; }
      else if (n.starts_with("llvm.fabs") || n == "fabs" || n == "fabsf") { FR x = A(0); double m = std::max(std::fabs(x.lo), std::fabs(x.hi)); r = {x.lo > 0 ? x.lo : x.hi < 0 ? -x.hi : 0, m}; }
      else if (n == "sin" || n == "cos" || n == "sinf" || n == "cosf" || n.starts_with("llvm.sin") || n.starts_with("llvm.cos")) r = {-1, 1};
      else if (n.starts_with("llvm.floor") || n == "floor" || n == "floorf" || n.starts_with("llvm.ceil") || n == "ceil" || n == "ceilf" || n.starts_with("llvm.round") || n.starts_with("llvm.rint") || n.starts_with("llvm.trunc")) { FR x = A(0); r = {std::floor(x.lo), std::ceil(x.hi)}; }
      else if (n == "sqrt" || n == "sqrtf" || n.starts_with("llvm.sqrt")) { FR x = A(0); r = {0, x.hi >= 0 ? std::sqrt(x.hi) : 0}; }
      else if (n == "log10" || n == "log10f" || n.starts_with("llvm.log10")) { FR x = A(0); if (x.lo > 0) r = {std::log10(x.lo), std::log10(x.hi)}; }
      else if (n == "acos" || n == "acosf") r = {0, 3.15};
      else if (n.starts_with("atan")) r = {-3.15, 3.15};
      else if (n == "fmod" || n == "fmodf") { FR y = A(1); double m = std::max(std::fabs(y.lo), std::fabs(y.hi)); r = {-m, m}; }
      else if (n == "pow" || n == "powf" || n.starts_with("llvm.pow")) { FR x = A(0), y = A(1); if (x.lo > 0) r = corners(x, y, [](double p, double q) { return std::pow(p, q); }); }
    } else if (auto *L = dyn_cast<LoadInst>(I)) {
      const Value *p = L->getPointerOperand();
      while (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand();
      if (auto *g = dyn_cast<GlobalVariable>(p); g && g->isConstant() && g->hasInitializer()) {
        FR q{INFINITY, -INFINITY}; bool ok = true; table(g->getInitializer(), q, ok);
        if (ok && q.lo <= q.hi) r = q;
      }
    }
    r = ctx(r, v, B);
    for (size_t i = 0; i < assumed.size(); i++) r = cond(r, v, assumed[i].first, assumed[i].second, 0);
    active[key] = 0;
    return r;
  }
};
static void modeFpconv(Module &M) {
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    std::unique_ptr<FloatRange> R;
    for (auto &I : instructions(F)) {
      if (!isa<FPToSIInst>(I) && !isa<FPToUIInst>(I)) continue;
      if (!R) R.reset(new FloatRange(&F));
      FR r = R->val(I.getOperand(0), I.getParent(), 0);
      unsigned w = I.getType()->getIntegerBitWidth();
      bool sg = isa<FPToSIInst>(I);
      double lo = sg ? -std::ldexp(1, w - 1) : 0, hi = sg ? std::ldexp(1, w - 1) : std::ldexp(1, w);
      bool ok = std::trunc(r.lo) >= lo && std::trunc(r.hi) < hi;
      // where do the bits go?  bytes: highest shift + 8; direct narrow store: its width
      unsigned bytes = 0, narrow = 0;
      std::function<void(const Value *, unsigned, int)> uses = [&](const Value *v, unsigned sh, int d) {
        if (d > 10) return;
        for (auto *U : v->users()) {
          if (auto *S = dyn_cast<StoreInst>(U)) {
            if (S->getValueOperand() == v) { unsigned sw = v->getType()->getIntegerBitWidth(); if (sw == 8) bytes = std::max(bytes, sh + 8); else narrow = std::max(narrow, sh + sw); }
          } else if (isa<TruncInst>(U) || isa<SExtInst>(U) || isa<ZExtInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) uses(U, sh, d + 1);
          else if (auto *b = dyn_cast<BinaryOperator>(U)) {
            auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
            if (b->getOpcode() == Instruction::And) uses(b, sh, d + 1);
            else if ((b->getOpcode() == Instruction::LShr || b->getOpcode() == Instruction::AShr) && k) uses(b, sh + k->getZExtValue(), d + 1);
          } else if (auto *C = dyn_cast<CallBase>(U)) {
            auto *G = calleeOf(C);
            if (G && (G->getName().starts_with("llvm.smin") || G->getName().starts_with("llvm.smax"))) uses(C, sh, d + 1);
          }
        }
      };
      uses(&I, 0, 0);
      // scale: constant factor between the stored sample and the conversion
      double scale = 0;
      set<const Value *> sv; vector<pair<const Value *, double>> wl{{I.getOperand(0), 1.0}};
      bool mixed = false;
      while (!wl.empty()) {
        auto [v, k] = wl.back(); wl.pop_back();
        if (isa<ConstantFP>(v) || !sv.insert(v).second) continue;
        if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) wl.push_back({o, k}); continue; }
        if (auto *s = dyn_cast<SelectInst>(v)) { wl.push_back({s->getTrueValue(), k}); wl.push_back({s->getFalseValue(), k}); continue; }
        if (isa<CastInst>(v) && v->getType()->isFloatingPointTy() && cast<CastInst>(v)->getOperand(0)->getType()->isFloatingPointTy()) { wl.push_back({cast<CastInst>(v)->getOperand(0), k}); continue; }
        if (auto *C = dyn_cast<CallBase>(v)) { for (auto &a : C->args()) if (a->getType()->isFloatingPointTy()) wl.push_back({a, k}); continue; }
        if (auto *b = dyn_cast<BinaryOperator>(v); b && (b->getOpcode() == Instruction::FMul || b->getOpcode() == Instruction::FDiv)) {
          auto *c0 = dyn_cast<ConstantFP>(b->getOperand(0)), *c1 = dyn_cast<ConstantFP>(b->getOperand(1));
          bool mul = b->getOpcode() == Instruction::FMul;
          if (c1) { wl.push_back({b->getOperand(0), mul ? k * FloatRange::cst(c1) : k / FloatRange::cst(c1)}); continue; }
          if (c0 && mul) { wl.push_back({b->getOperand(1), k * FloatRange::cst(c0)}); continue; }
        }
        if (scale != 0 && scale != k) mixed = true;
        scale = k;
      }
      if (mixed) scale = -1;
      const DILocation *D = I.getDebugLoc().get();
      string fn = F.getName().str(), where = loc(&I), via;
      if (D) { if (auto *sp = D->getScope()->getSubprogram()) via = sp->getName().str(); }
      outs() << "conv\t" << fn << "\t" << via << "\t" << where << "\t" << (ok ? "ok" : "open") << "\t" << (sg ? "s" : "u") << w << "\t"
             << format("%.17g", r.lo) << "\t" << format("%.17g", r.hi) << "\t" << bytes << "\t" << narrow << "\t" << format("%.9g", scale) << "\n";
    }
  }
}

// ------------------------------------------------------------- termination
// Each natural loop must be bounded by (count) a computable trip count, (mono) a counter that strictly advances in every
// round towards a limit of its own width, or (read) at least one bit taken from the input in every round.
static set<const Function *> gConsume; // functions that take at least one bit, or do not return
static bool consumes(const CallBase *C) {
  auto *G = calleeOf(C);
  return G && gConsume.count(G);
}
static bool knownNonNegative(const Value *v, const BasicBlock *at, const BasicBlock *to, const DominatorTree &DT, const DataLayout &DL, int d = 0) {
  if (d > 4) return false;
  if (computeKnownBits(v, DL).isNonNegative() || computeConstantRange(v, true).isAllNonNegative()) return true;
  if (isa<ZExtInst>(v)) return true;
  Value *zero = Constant::getNullValue(v->getType());
  for (auto *N = DT.getNode(const_cast<BasicBlock *>(at)); N; N = N->getIDom()) {
    auto *Br = dyn_cast<BranchInst>(N->getBlock()->getTerminator());
    if (!Br || !Br->isConditional()) continue;
    for (unsigned i = 0; i < 2; i++)
      if (N->getBlock() == at ? to && Br->getSuccessor(i) == to && Br->getSuccessor(1 - i) != to
                              : DT.dominates(BasicBlockEdge(N->getBlock(), Br->getSuccessor(i)), at)) {
        auto r = isImpliedCondition(Br->getCondition(), CmpInst::ICMP_SGE, v, zero, DL, i == 0);
        if (r && *r) return true;
      }
  }
  if (auto *s = dyn_cast<SExtInst>(v)) return knownNonNegative(s->getOperand(0), at, to, DT, DL, d + 1);
  if (auto *b = dyn_cast<BinaryOperator>(v)) {
    if (b->getOpcode() == Instruction::AShr) return knownNonNegative(b->getOperand(0), at, to, DT, DL, d + 1);
    if (b->getOpcode() == Instruction::SDiv)
      return knownNonNegative(b->getOperand(0), at, to, DT, DL, d + 1) && knownNonNegative(b->getOperand(1), at, to, DT, DL, d + 1);
  }
  if (auto *p = dyn_cast<PHINode>(v)) {
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
      if (p->getIncomingValue(i) != p && !knownNonNegative(p->getIncomingValue(i), p->getIncomingBlock(i), p->getParent(), DT, DL, d + 2)) return false;
    return true;
  }
  if (auto *a = dyn_cast<Argument>(v)) { // every call passes such a value
    auto *F = a->getParent();
    if (!F->hasLocalLinkage() && d > 1) return false;
    bool any = false;
    for (auto *u : F->users()) {
      auto *c = dyn_cast<CallBase>(u);
      if (!c || c->getCalledOperand() != F) return false;
      DominatorTree D(*const_cast<Function *>(c->getFunction()));
      if (!knownNonNegative(c->getArgOperand(a->getArgNo()), c->getParent(), nullptr, D, DL, d + 2)) return false;
      any = true;
    }
    return any;
  }
  return false;
}
static void modeLoops(Module &M, const vector<string> &args) {
  // readers: name:argument index of the width
  map<const Function *, int> rd;
  for (auto &a : args) {
    auto p = a.find(':');
    if (auto *F = M.getFunction(a.substr(0, p))) rd[F] = std::stoi(a.substr(p + 1));
    else outs() << "noreader\t" << a << "\n";
  }
  auto takes = [&](const CallBase *C) {
    auto *G = calleeOf(C);
    auto it = G ? rd.find(G) : rd.end();
    if (it != rd.end()) {
      if (it->second < 0) return true;
      auto *k = dyn_cast<ConstantInt>(C->getArgOperand(it->second));
      return k && k->getSExtValue() >= 1;
    }
    return G && gConsume.count(G);
  };
  // a function consumes if a consuming call lies on every path through it
  for (bool ch = true; ch;) {
    ch = false;
    for (auto &F : M) {
      if (F.isDeclaration() || gConsume.count(&F) || rd.count(&F)) continue;
      set<const BasicBlock *> blk; // blocks with a consuming call
      for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (takes(C)) blk.insert(I.getParent());
      if (blk.empty()) continue;
      set<const BasicBlock *> seen; vector<const BasicBlock *> wl; bool leak = false;
      if (!blk.count(&F.getEntryBlock())) wl.push_back(&F.getEntryBlock());
      while (!wl.empty()) {
        auto *b = wl.back(); wl.pop_back();
        if (!seen.insert(b).second) continue;
        if (isa<ReturnInst>(b->getTerminator())) { leak = true; break; }
        for (auto *s : successors(b)) if (!blk.count(s)) wl.push_back(s);
      }
      if (!leak) { gConsume.insert(&F); ch = true; }
    }
  }
  TargetLibraryInfoImpl TLII;
  TargetLibraryInfo TLI(TLII);
  auto strip = [](const Value *v) { while (isa<SExtInst>(v) || isa<ZExtInst>(v)) v = cast<CastInst>(v)->getOperand(0); return v; };
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    // the compiler may assume that loops end; this rule must not
    F.removeFnAttr(Attribute::MustProgress);
    F.removeFnAttr(Attribute::WillReturn);
    for (auto &B : F) B.getTerminator()->setMetadata(LLVMContext::MD_loop, nullptr);
    DominatorTree DT(F); LoopInfo LI(DT);
    // blocks of a cycle that is not a natural loop
    for (scc_iterator<Function *> it = scc_begin(&F); !it.isAtEnd(); ++it)
      if (it.hasCycle()) {
        auto *l = LI.getLoopFor((*it)[0]);
        while (l && l->getParentLoop()) l = l->getParentLoop();
        bool ok = l;
        for (auto *b : *it) ok = ok && l->contains(b);
        if (!ok) outs() << "loop\t" << F.getName() << "\t" << loc((*it)[0]->getTerminator()) << "\tirreducible\t\t0\n";
      }
    if (LI.empty()) continue;
    AssumptionCache AC(F);
    ScalarEvolution SE(F, TLI, AC, DT, LI);
    const DataLayout &DL = M.getDataLayout();
    for (auto *L : LI.getLoopsInPreorder()) {
      string kind = "?", why;
      if (!isa<SCEVCouldNotCompute>(SE.getSymbolicMaxBackedgeTakenCount(L))) kind = "count";
      auto everyRound = [&](const BasicBlock *B) {
        SmallVector<BasicBlock *, 4> la; L->getLoopLatches(la);
        for (auto *l : la) if (!DT.dominates(B, l)) return false;
        return LI.getLoopFor(B) == L;
      };
      // value of a header phi at the end of a round minus at its start: is it always >= 1 (dir 1) or <= -1 (dir -1)?
      auto advances = [&](const PHINode *P, int dir, bool strict) {
        std::function<bool(const Value *, int64_t, int)> go = [&](const Value *v, int64_t acc, int d) -> bool {
          if (v == P) return strict ? acc * dir >= 1 : acc * dir >= 0;
          if (d > 20) return false;
          if (auto *b = dyn_cast<BinaryOperator>(v)) {
            auto *c = dyn_cast<ConstantInt>(b->getOperand(1));
            if (!c) {
              // a step whose sign is known
              if (b->getOpcode() != Instruction::Add && b->getOpcode() != Instruction::Sub) return false;
              for (int k = 0; k < (b->getOpcode() == Instruction::Add ? 2 : 1); k++) {
                auto r = SE.getSignedRange(SE.getSCEV(b->getOperand(1 - k)));
                unsigned rw = r.getBitWidth() + 1;
                auto lo = r.getSignedMin().sext(rw), hi = r.getSignedMax().sext(rw);
                if (b->getOpcode() == Instruction::Sub) { auto t = -hi; hi = -lo; lo = t; }
                int64_t st = dir > 0 ? (lo.sge(1) ? 1 : lo.sge(0) ? 0 : -1) : (hi.sle(-1) ? -1 : hi.sle(0) ? 0 : 1);
                if (st * dir >= 0 && !(k == 1 && isa<PHINode>(b->getOperand(0)) && b->getOperand(0) == P) && go(b->getOperand(k), acc + st, d + 1)) return true;
              }
              return false;
            }
            if (b->getOpcode() == Instruction::Add) return go(b->getOperand(0), acc + c->getSExtValue(), d + 1);
            if (b->getOpcode() == Instruction::Sub) return go(b->getOperand(0), acc - c->getSExtValue(), d + 1);
            return false;
          }
          if (auto *g = dyn_cast<GEPOperator>(v)) {
            APInt o(DL.getIndexTypeSizeInBits(g->getType()), 0);
            if (!g->accumulateConstantOffset(DL, o)) return false;
            return go(g->getPointerOperand(), acc + o.getSExtValue(), d + 1);
          }
          if (auto *p = dyn_cast<PHINode>(v)) {
            if (!L->contains(p)) return false;
            auto *inner = LI.getLoopFor(p->getParent());
            if (inner != L && inner && inner->getHeader() == p->getParent()) {
              // carried through an inner loop: its own rounds must not move it back
              for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
                if (inner->contains(p->getIncomingBlock(i))) {
                  std::function<bool(const Value *, int)> back = [&](const Value *w, int dd) -> bool {
                    if (w == p) return true;
                    if (dd > 20) return false;
                    if (auto *b = dyn_cast<BinaryOperator>(w)) {
                      auto *c = dyn_cast<ConstantInt>(b->getOperand(1));
                      if (!c) return false;
                      int64_t k = b->getOpcode() == Instruction::Add ? c->getSExtValue() : b->getOpcode() == Instruction::Sub ? -c->getSExtValue() : -dir;
                      return k * dir >= 0 && back(b->getOperand(0), dd + 1);
                    }
                    if (auto *q = dyn_cast<PHINode>(w)) { if (q == p) return true; for (auto &o : q->incoming_values()) if (!back(o, dd + 1)) return false; return true; }
                    return false;
                  };
                  if (!back(p->getIncomingValue(i), 0)) return false;
                } else if (!go(p->getIncomingValue(i), acc, d + 1)) return false;
              }
              return true;
            }
            for (auto &o : p->incoming_values()) if (!go(o, acc, d + 1)) return false;
            return true;
          }
          if (auto *s = dyn_cast<SelectInst>(v)) return go(s->getTrueValue(), acc, d + 1) && go(s->getFalseValue(), acc, d + 1);
          if (auto *t = dyn_cast<TruncInst>(v)) // i = (short)(i + 1)
            return go(t->getOperand(0), acc, d + 1);
          if (isa<SExtInst>(v) || isa<ZExtInst>(v)) return go(cast<CastInst>(v)->getOperand(0), acc, d + 1);
          return false;
        };
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
          if (L->contains(P->getIncomingBlock(i)) && !go(P->getIncomingValue(i), 0, 0)) return false;
        return true;
      };
      if (kind == "?") {
        SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex);
        for (auto *B : ex) {
          if (!everyRound(B)) continue;
          auto *Br = dyn_cast<BranchInst>(B->getTerminator());
          auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
          if (!Cm) continue;
          auto pr = Cm->getPredicate();
          if (!L->contains(Br->getSuccessor(0))) pr = Cm->getInversePredicate(); // condition under which the loop goes on
          const Value *a = Cm->getOperand(0), *b = Cm->getOperand(1);
          for (int sw = 0; sw < 2; sw++, std::swap(a, b), pr = CmpInst::getSwappedPredicate(pr)) {
            bool less = pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_ULT, more = pr == CmpInst::ICMP_SGT || pr == CmpInst::ICMP_UGT;
            bool le = pr == CmpInst::ICMP_SLE || pr == CmpInst::ICMP_ULE, ge = pr == CmpInst::ICMP_SGE || pr == CmpInst::ICMP_UGE;
            if (!less && !more && !le && !ge) continue;
            if (auto *k = dyn_cast<ConstantInt>(b)) { // a test that always holds is no limit
              if (pr == CmpInst::ICMP_UGE && k->isZero()) continue;
              if (pr == CmpInst::ICMP_ULE && k->isMaxValue(false)) continue;
              if (pr == CmpInst::ICMP_SLE && k->isMaxValue(true)) continue;
              if (pr == CmpInst::ICMP_SGE && k->isMinValue(true)) continue;
            }
            // counter side: a header phi, possibly widened or already advanced
            const Value *x = strip(a);
            int64_t off = 0;
            while (auto *bo = dyn_cast<BinaryOperator>(x)) {
              auto *k = dyn_cast<ConstantInt>(bo->getOperand(1));
              if (!k || (bo->getOpcode() != Instruction::Add && bo->getOpcode() != Instruction::Sub)) break;
              off += bo->getOpcode() == Instruction::Add ? k->getSExtValue() : -k->getSExtValue();
              x = strip(bo->getOperand(0));
              if (auto *t = dyn_cast<TruncInst>(x)) x = strip(t->getOperand(0));
            }
            while (auto *t = dyn_cast<TruncInst>(x)) x = strip(t->getOperand(0));
            // copies of the counter made where control flow joins
            std::set<const Value *> on;
            std::function<const Value *(const Value *)> orig = [&](const Value *v) -> const Value * {
              auto *q = dyn_cast<PHINode>(v);
              if (!q || q->getParent() == L->getHeader() || !L->contains(q)) return v;
              if (!on.insert(q).second) return nullptr; // already being looked at: adds nothing
              const Value *one = nullptr;
              for (auto &o : q->incoming_values()) { auto *u = orig(strip(o)); if (u) { if (one && one != u) return q; one = u; } }
              return one ? one : q;
            };
            if (auto *u = orig(x)) x = u;
            auto *P = dyn_cast<PHINode>(x);
            if (!P || P->getParent() != L->getHeader()) {
              // exit test on a value merged from the counter
              if (P && L->contains(P)) { const PHINode *H = nullptr; for (auto &hp : L->getHeader()->phis()) for (auto &o : hp.incoming_values()) if (o == P) H = &hp; P = H; }
              else P = nullptr;
              if (!P) for (auto &hp : L->getHeader()->phis()) for (auto &o : hp.incoming_values()) if (strip(o) == strip(a) && isa<Instruction>(strip(a)) && L->contains(cast<Instruction>(strip(a)))) P = &hp;
            }
            if (!P || !P->getType()->isIntegerTy()) continue;
            int dir = (less || le) ? 1 : -1;
            if (!advances(P, dir, true)) continue;
            unsigned cw = P->getType()->getIntegerBitWidth(), lw = strip(b)->getType()->getIntegerBitWidth();
            // a narrow counter truncated each round has the width of the truncation
            std::function<void(const Value *, int)> nar = [&](const Value *v, int d) {
              if (d > 6 || v == P) return;
              if (auto *t = dyn_cast<TruncInst>(v)) cw = std::min(cw, t->getType()->getIntegerBitWidth());
              if (auto *u = dyn_cast<Instruction>(v)) if (L->contains(u)) for (auto &o : u->operands()) nar(o, d + 1);
            };
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (L->contains(P->getIncomingBlock(i))) nar(P->getIncomingValue(i), 0);
            ConstantRange cr = computeConstantRange(b, true);
            auto *bi = dyn_cast<Instruction>(strip(b));
            unsigned need = std::min<unsigned>(lw, cr.getActiveBits() ? std::max(cr.getActiveBits(), 1u) : 1u);
            (void)bi;
            if (le || ge) need++;
            if (auto *k = dyn_cast<ConstantInt>(b)) need = k->isNegative() ? 0 : k->getValue().getActiveBits() + 1;
            if (dir < 0) { kind = "mono"; why = "down"; }
            else if (cw >= 32 || need <= cw) { kind = "mono"; why = "up"; }
            else { kind = "narrow"; why = "counter of " + std::to_string(cw) + " bits, limit of up to " + std::to_string(need); }
            if (kind == "mono") break;
          }
          if (kind == "mono") break;
        }
      }
      if (kind != "count" && kind != "mono") {
        // (shrink) a value that is shifted right or divided every round until it is used up
        // (grow) a value that is multiplied every round towards a limit
        for (auto &P : L->getHeader()->phis()) {
          if (!P.getType()->isIntegerTy()) continue;
          bool shr = true, mul = true, keepsSign = false, nonneg = true;
          for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
            auto *v = P.getIncomingValue(i);
            if (!L->contains(P.getIncomingBlock(i))) nonneg = nonneg && knownNonNegative(v, P.getIncomingBlock(i), P.getParent(), DT, DL);
            if (!L->contains(P.getIncomingBlock(i))) {
              auto *k = dyn_cast<ConstantInt>(v);
              mul = mul && k && k->getSExtValue() >= 1;
              continue;
            }
            auto *b = dyn_cast<BinaryOperator>(strip(v));
            auto *k = b ? dyn_cast<ConstantInt>(b->getOperand(1)) : nullptr;
            bool own = b && strip(b->getOperand(0)) == &P && k;
            unsigned op = b ? b->getOpcode() : 0;
            keepsSign = keepsSign || op == Instruction::AShr;
            shr = shr && own && ((k->getSExtValue() >= 1 && (op == Instruction::AShr || op == Instruction::LShr)) || (k->getSExtValue() >= 2 && (op == Instruction::SDiv || op == Instruction::UDiv)));
            mul = mul && own && ((op == Instruction::Shl && k->getSExtValue() >= 1) || (op == Instruction::Mul && k->getSExtValue() >= 2));
          }
          if (!shr && !mul) continue;
          SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex);
          for (auto *B : ex) {
            auto *Br = dyn_cast<BranchInst>(B->getTerminator());
            auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
            if (!Cm || !everyRound(B)) continue;
            auto pr = Cm->getPredicate();
            if (!L->contains(Br->getSuccessor(0))) pr = Cm->getInversePredicate();
            auto *x = strip(Cm->getOperand(0));
            bool self = x == &P;
            for (auto &o : P.incoming_values()) self = self || strip(o) == x;
            auto *k = dyn_cast<ConstantInt>(Cm->getOperand(1));
            // a negative value shifted arithmetically stops at -1, not at 0
            bool sticks = keepsSign && !nonneg && (pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_NE);
            if (shr && !sticks && self && k && ((pr == CmpInst::ICMP_SGT && k->getSExtValue() >= 0) || pr == CmpInst::ICMP_UGT || (pr == CmpInst::ICMP_NE && k->isZero()) || (pr == CmpInst::ICMP_SGE && k->getSExtValue() >= 1)) ) { kind = "mono"; why = "shrinks"; }
            if (mul && self && (pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_SLE || pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_ULE)) { kind = "mono"; why = "grows"; }
            if (shr && k && pr == CmpInst::ICMP_EQ && k->isZero()) // divisible
              if (auto *m = dyn_cast<BinaryOperator>(x)) if ((m->getOpcode() == Instruction::SRem || m->getOpcode() == Instruction::URem) && (m->getOperand(0) == &P || (is_contained(P.incoming_values(), m->getOperand(0)) && isa<Instruction>(m->getOperand(0)) && L->contains(cast<Instruction>(m->getOperand(0)))))) { kind = "mono"; why = "divides"; }
          }
        }
      }
      if (kind != "count" && kind != "mono") {
        // (walk) an address that moves on by a constant every round and is dereferenced every round: bounded by the object
        bool zext = false;
        std::function<const PHINode *(const Value *, int)> walker = [&](const Value *v, int d) -> const PHINode * {
          if (d > 12) return nullptr;
          if (auto *p = dyn_cast<PHINode>(v)) {
            if (p->getParent() == L->getHeader()) return p;
            return nullptr;
          }
          if (auto *c = dyn_cast<CastInst>(v)) { zext |= isa<ZExtInst>(c); return walker(c->getOperand(0), d + 1); }
          if (auto *b = dyn_cast<BinaryOperator>(v)) {
            if (b->getOpcode() != Instruction::Add && b->getOpcode() != Instruction::Sub && b->getOpcode() != Instruction::Mul && b->getOpcode() != Instruction::Shl) return nullptr;
            auto *o = b->getOperand(1);
            if (!isa<ConstantInt>(o) && !L->isLoopInvariant(o)) return nullptr;
            return walker(b->getOperand(0), d + 1);
          }
          if (auto *g = dyn_cast<GEPOperator>(v)) {
            const Value *var = nullptr;
            for (auto &o : g->operands())
              if (!L->isLoopInvariant(o)) { if (var) return nullptr; var = o; }
            return var ? walker(var, d + 1) : nullptr;
          }
          return nullptr;
        };
        for (auto *B : L->blocks()) {
          if (LI.getLoopFor(B) != L) continue;
          if (!everyRound(B)) continue;
          for (auto &I : *B) {
            const Value *a = nullptr;
            if (auto *ld = dyn_cast<LoadInst>(&I)) a = ld->getPointerOperand();
            if (auto *st = dyn_cast<StoreInst>(&I)) a = st->getPointerOperand();
            if (!a) continue;
            zext = false;
            auto *P = walker(a, 0);
            // a narrow counter that is extended with its sign leaves the object before it comes round; others must be wide
            if (!P || (zext && P->getType()->isIntegerTy() && P->getType()->getIntegerBitWidth() < 16)) continue;
            if (advances(P, 1, true) || advances(P, -1, true)) { kind = "walk"; why = ""; }
          }
        }
      }
      if (kind != "count" && kind != "mono" && kind != "walk") {
        for (auto *B : L->blocks()) {
          if (LI.getLoopFor(B) != L && !everyRound(B)) continue;
          bool dom = true;
          SmallVector<BasicBlock *, 4> la; L->getLoopLatches(la);
          for (auto *l : la) dom &= DT.dominates(B, l);
          if (!dom) continue;
          for (auto &I : *B) if (auto *C = dyn_cast<CallBase>(&I)) if (takes(C)) { kind = "read"; why = calleeOf(C)->getName().str(); }
        }
      }
      outs() << "loop\t" << F.getName() << "\t" << loc(L->getHeader()->getFirstNonPHIOrDbg()) << "\t" << kind << "\t" << why << "\t" << L->getLoopDepth() << "\n";
    }
  }
}


// ------------------------------------------------------------- non-local exits
// Which jump buffer a longjmp uses is read from a field; facts of the form "this location holds a jump buffer whose setjmp
// belongs to a live frame" are propagated forward, over the call graph from the API functions.
struct Jumps {
  Module &M;
  const vector<string> &roots;
  map<const Function *, std::unique_ptr<DominatorTree>> dts;
  pair<const Type *, unsigned> jf{nullptr, 0}; // struct and index of the jump buffer field of a bit buffer
  map<const Function *, set<unsigned>> needs;  // parameters that are bit buffers (or jump buffer pointers) a callee may jump through
  map<const Function *, int> retArg;
  map<const Function *, set<string>> gen, kill;
  map<const Function *, set<string>> in;
  map<const Function *, bool> hasIn;
  map<const FunctionType *, vector<Function *>> taken;
  typedef set<string> S;

  Jumps(Module &M, const vector<string> &roots) : M(M), roots(roots) {}
  const Type *jst() { return jf.first; }
  static string ty(const Type *t) { auto *st = dyn_cast<StructType>(t); if (!st || !st->hasName()) return "?"; auto n = st->getName(); if (n.starts_with("struct.")) n = n.drop_front(7); return n.substr(0, n.find('.')).str(); }
  vector<string> key(const Value *v, int d = 0) {
    if (d > 10) return {"?"};
    if (auto *a = dyn_cast<AllocaInst>(v)) return {"A" + std::to_string((uintptr_t)a)};
    if (auto *a = dyn_cast<Argument>(v)) return {"P" + std::to_string(a->getArgNo())};
    if (isa<ConstantPointerNull>(v)) return {"N"};
    if (auto *g = dyn_cast<GEPOperator>(v)) {
      auto *t = g->getSourceElementType();
      auto base = g->getPointerOperand();
      string ix;
      auto it = g->idx_begin();
      if (it != g->idx_end()) ++it;
      const Type *cur = t, *last = t; string lix;
      for (; it != g->idx_end(); ++it) {
        auto *c = dyn_cast<ConstantInt>(*it);
        if (auto *st = dyn_cast<StructType>(cur)) {
          last = st; lix = "." + std::to_string(c->getZExtValue());
          ix += lix;
          cur = st->getElementType(c->getZExtValue());
        } else if (auto *at = dyn_cast<ArrayType>(cur)) { cur = at->getElementType(); ix += ".*"; }
      }
      if (isa<AllocaInst>(base)) return {"A" + std::to_string((uintptr_t)base) + ix};
      if (lix.empty()) return key(base, d + 1);
      return {"F" + ty(last) + lix};
    }
    if (auto *l = dyn_cast<LoadInst>(v)) { vector<string> r; for (auto &k : key(l->getPointerOperand(), d + 1)) r.push_back("L" + k); return r; }
    if (auto *c = dyn_cast<CallBase>(v)) { auto *G = calleeOf(c); auto it = retArg.find(G); if (G && it != retArg.end()) return key(c->getArgOperand(it->second), d + 1); return {"?"}; }
    if (auto *p = dyn_cast<PHINode>(v)) {
      // a merged pointer is a name of its own as well; it is listed when the merge has several sources
      set<string> r; for (auto &o : p->incoming_values()) { if (o == p) continue; for (auto &k : key(o, d + 4)) r.insert(k); }
      return vector<string>(r.begin(), r.end());
    }
    if (auto *s = dyn_cast<SelectInst>(v)) { set<string> r; for (auto &k : key(s->getTrueValue(), d + 2)) r.insert(k); for (auto &k : key(s->getFalseValue(), d + 2)) r.insert(k); return vector<string>(r.begin(), r.end()); }
    return {"?"};
  }
  bool isJmpField(const Value *p, const Value *&owner) {
    auto *g = dyn_cast<GEPOperator>(p);
    if (!g || g->getSourceElementType() != jst()) return false;
    auto *c = g->getNumIndices() == 2 ? dyn_cast<ConstantInt>(*(g->idx_begin() + 1)) : nullptr;
    if (!c || c->getZExtValue() != jf.second) return false;
    owner = g->getPointerOperand();
    return true;
  }
  // location of a stored pointer
  vector<string> locOf(const Value *p) {
    const Value *o;
    vector<string> r;
    if (isJmpField(p, o)) { for (auto &k : key(o)) r.push_back("J" + k); return r; }
    return key(p);
  }
  const CallBase *setjmpOf(const AllocaInst *a) {
    for (auto &I : instructions(*a->getFunction()))
      if (auto *c = dyn_cast<CallBase>(&I))
        if (auto *G = c->getCalledFunction())
          if (G->getName().contains("setjmp") && getUnderlyingObject(c->getArgOperand(0)) == a) return c;
    return nullptr;
  }
  bool jmpAlloca(const Value *v, const AllocaInst *&a) {
    a = dyn_cast<AllocaInst>(getUnderlyingObject(v));
    if (!a) return false;
    return setjmpOf(a) != nullptr;
  }
  // a branch taken only when a pointer field is null, into code that dereferences that very field, does not go on
  bool deadEnd(const BasicBlock *B, const BasicBlock *T) {
    auto *br = dyn_cast<BranchInst>(B->getTerminator());
    auto *cm = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
    if (!cm || !isa<ConstantPointerNull>(cm->getOperand(1)) || !cm->isEquality()) return false;
    if (T != br->getSuccessor(cm->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1) || br->getSuccessor(0) == br->getSuccessor(1)) return false;
    auto *l = dyn_cast<LoadInst>(cm->getOperand(0));
    if (!l) return false;
    auto k = key(l->getPointerOperand());
    for (auto &I : *T) {
      if (isa<CallBase>(&I) && !isa<DbgInfoIntrinsic>(&I)) return false;
      const Value *p = nullptr;
      if (auto *s = dyn_cast<StoreInst>(&I)) { p = s->getPointerOperand(); if (key(p) == k) return false; }
      if (auto *x = dyn_cast<LoadInst>(&I)) p = x->getPointerOperand();
      if (!p) continue;
      while (auto *g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand();
      if (p == l) return true;
      if (auto *x = dyn_cast<LoadInst>(p)) if (x->getParent() == T && key(x->getPointerOperand()) == k) return true;
    }
    return false;
  }
  bool precedes(const Instruction *a, const Instruction *at) {
    auto &F = *at->getFunction();
    if (dts[&F]->dominates(a, at)) return true;
    if (a->getParent() == at->getParent()) return false;
    set<const BasicBlock *> seen; vector<const BasicBlock *> wl{&F.getEntryBlock()};
    while (!wl.empty()) {
      auto *b = wl.back(); wl.pop_back();
      if (b == a->getParent() || !seen.insert(b).second) continue;
      if (b == at->getParent()) return false;
      for (auto *n : successors(b)) if (!deadEnd(b, n)) wl.push_back(n);
    }
    return true;
  }
  // does v, stored now, point to a live jump buffer?
  bool liveVal(const Value *v, const S &s, const Instruction *at, int d = 0) {
    if (d > 6) return false;
    v = v->stripPointerCasts();
    const AllocaInst *a;
    if (isa<AllocaInst>(v) || isa<GEPOperator>(v)) if (jmpAlloca(v, a)) return precedes(setjmpOf(a), at);
    if (auto *l = dyn_cast<LoadInst>(v)) { for (auto &k : locOf(l->getPointerOperand())) if (!s.count(k)) return false; return true; }
    if (auto *p = dyn_cast<Argument>(v)) return s.count("V" + std::to_string(p->getArgNo()));
    if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) if (o != p && !liveVal(o, s, at, d + 3)) return false; return true; }
    if (auto *p = dyn_cast<SelectInst>(v)) return liveVal(p->getTrueValue(), s, at, d + 1) && liveVal(p->getFalseValue(), s, at, d + 1);
    return false;
  }
  static string own(const Value *v) { return "JS" + std::to_string((uintptr_t)v); }
  bool liveBuf(const Value *v, const S &s) {
    if (s.count(own(v))) return true;
    for (auto &k : key(v)) if (!s.count("J" + k)) return false;
    return true;
  }
  vector<const Function *> targets(const CallBase *C) {
    if (auto *G = calleeOf(C)) return {G};
    vector<const Function *> r;
    auto it = taken.find(C->getFunctionType());
    if (it != taken.end()) r.assign(it->second.begin(), it->second.end());
    return r;
  }
  // translate a callee location into the caller
  vector<string> up(const string &k, const CallBase *C) {
    size_t p = k.find('P');
    if (k[0] == 'J' && p == 1) {
      size_t e = 2; while (e < k.size() && isdigit(k[e])) e++;
      unsigned i = std::stoul(k.substr(2, e - 2));
      if (e != k.size() || i >= C->arg_size()) return {};
      vector<string> r; for (auto &q : key(C->getArgOperand(i))) r.push_back("J" + q);
      return r;
    }
    if (k.find("A") != string::npos && (k[0] == 'A' || k.substr(0, 2) == "JA" || k.substr(0, 3) == "JLA" || k.substr(0,2)=="LA")) return {};
    if (k.substr(0, 2) == "JS") return {};
    if (k.find('P') == 0 || k[0] == 'V' || k.substr(0, 2) == "LP" || k.substr(0, 3) == "JLP") return {};
    return {k};
  }
  bool ownLocal(const Value *v) { // points into this frame
    auto *a = dyn_cast<AllocaInst>(getUnderlyingObject(v));
    return a != nullptr;
  }
  void xfer(const Instruction &I, S &s, set<string> *dead) {
    auto set1 = [&](const vector<string> &ks, bool live, bool local) {
      for (auto &k : ks) {
        if (live && ks.size() == 1) s.insert(k); else if (!live) s.erase(k);
        if (dead && (!live || local)) dead->insert(k);
      }
    };
    if (auto *st = dyn_cast<StoreInst>(&I)) {
      if (!st->getValueOperand()->getType()->isPointerTy()) return;
      auto *v = st->getValueOperand();
      const Value *o;
      auto ks = locOf(st->getPointerOperand());
      bool lv = liveVal(v, s, &I);
      if (isJmpField(st->getPointerOperand(), o)) { if (lv) s.insert(own(o)); else s.erase(own(o)); }
      // only locations that can hold jump buffers matter
      if (isJmpField(st->getPointerOperand(), o) || lv || [&] { for (auto &k : ks) if (s.count(k)) return true; return false; }()) set1(ks, lv, ownLocal(v));
      vector<string> js; for (auto &k : ks) js.push_back("JL" + k);
      bool lb = liveBuf(v, s);
      bool had = false; for (auto &k : js) had |= s.count(k);
      if (lb || had) set1(js, lb, ownLocal(v));
      return;
    }
    auto *C = dyn_cast<CallBase>(&I);
    if (!C) return;
    if (auto *mt = dyn_cast<MemTransferInst>(C)) {
      auto *n = dyn_cast<ConstantInt>(mt->getLength());
      bool lv = liveBuf(mt->getSource(), s) && n && n->getZExtValue() >= M.getDataLayout().getTypeAllocSize(const_cast<Type *>(jst()));
      vector<string> js; for (auto &k : key(mt->getDest())) js.push_back("J" + k);
      bool had = false; for (auto &k : js) had |= s.count(k);
      if (lv || had) set1(js, lv, false);
      return;
    }
    if (auto *ms = dyn_cast<MemSetInst>(C)) { for (auto &k : key(ms->getDest())) { s.erase("J" + k); if (dead) dead->insert("J" + k); } return; }
    auto ts = targets(C);
    S g; bool first = true, any = false;
    for (auto *G : ts) {
      if (G->isDeclaration()) continue;
      any = true;
      for (auto &k : kill[G]) for (auto &u : up(k, C)) { s.erase(u); if (dead) dead->insert(u); }
      S h; for (auto &k : gen[G]) for (auto &u : up(k, C)) h.insert(u);
      if (first) g = h, first = false;
      else { S t; for (auto &k : g) if (h.count(k)) t.insert(k); g = t; }
    }
    if (any) s.insert(g.begin(), g.end());
  }
  bool full(const S &a) { return a.count("*"); }
  static bool meet(S &a, bool &has, const S &b) {
    if (!has) { a = b; has = true; return true; }
    S t; for (auto &k : a) if (b.count(k)) t.insert(k);
    bool ch = t.size() != a.size(); a = t; return ch;
  }
  // forward pass over one function; returns state at returns
  S pass(const Function &F, const S &start, std::function<void(const CallBase *, const S &)> visit, set<string> *dead) {
    map<const BasicBlock *, S> bi; map<const BasicBlock *, bool> has;
    bi[&F.getEntryBlock()] = start; has[&F.getEntryBlock()] = true;
    S out; bool hasOut = false;
    ReversePostOrderTraversal<const Function *> R(&F);
    for (bool ch = true; ch;) {
      ch = false;
      for (auto *B : R) {
        if (!has[B]) continue;
        S s = bi[B];
        for (auto &I : *B) xfer(I, s, dead);
        for (auto *n : successors(B)) { bool h = has[n]; ch |= meet(bi[n], h, s); has[n] = h; }
      }
    }
    for (auto *B : R) {
      if (!has[B]) continue;
      S s = bi[B];
      for (auto &I : *B) {
        if (auto *C = dyn_cast<CallBase>(&I)) if (visit) visit(C, s);
        if (isa<ReturnInst>(&I)) meet(out, hasOut, s);
        xfer(I, s, dead);
      }
    }
    return out;
  }
  S entry(const Function &F) {
    S s = in[&F];
    for (auto &a : F.args()) if (a.getType()->isPointerTy()) { s.insert("JP" + std::to_string(a.getArgNo())); s.insert("V" + std::to_string(a.getArgNo())); }
    return s;
  }
  void run() {
    for (auto &F : M) if (!F.isDeclaration()) { dts[&F] = std::make_unique<DominatorTree>(F); if (F.hasAddressTaken()) taken[F.getFunctionType()].push_back(&F); }
    // the jump field
    for (auto &F : M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = C->getCalledFunction()) if (G->getName().contains("longjmp")) {
      auto *l = dyn_cast<LoadInst>(getUnderlyingObject(C->getArgOperand(0)));
      auto *g = l ? dyn_cast<GEPOperator>(l->getPointerOperand()) : nullptr;
      outs() << "longjmp\t" << F.getName() << "\t" << loc(&I) << "\t";
      auto *k = dyn_cast<ConstantInt>(C->getArgOperand(1));
      outs() << (k ? std::to_string(k->getSExtValue()) : "?") << "\n";
      if (g) if (auto *st = dyn_cast<StructType>(g->getSourceElementType())) if (auto *c = dyn_cast<ConstantInt>(*(g->idx_end() - 1)))
        if (!jf.first) jf = {st, (unsigned)c->getZExtValue()};
      if (g) if (auto *a = dyn_cast<Argument>(g->getPointerOperand()->stripPointerCasts())) needs[&F].insert(a->getArgNo());
    }
    if (!jf.first) { outs() << "nofield\n"; return; }
    for (auto &F : M) { // returns one of its arguments
      int r = -1; bool ok = !F.isDeclaration() && F.getReturnType()->isPointerTy();
      for (auto &I : instructions(F)) if (auto *x = dyn_cast<ReturnInst>(&I)) { auto *a = x->getReturnValue() ? dyn_cast<Argument>(x->getReturnValue()->stripPointerCasts()) : nullptr; if (!a || (r >= 0 && r != (int)a->getArgNo())) ok = false; else r = a->getArgNo(); }
      if (ok && r >= 0) retArg[&F] = r;
    }
    // who may jump through a parameter
    for (bool ch = true; ch;) {
      ch = false;
      for (auto &F : M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) for (auto *G : targets(C)) {
        auto it = needs.find(G); if (it == needs.end()) continue;
        auto ns = it->second;
        for (auto i : ns) if (i < C->arg_size()) for (auto &k : key(C->getArgOperand(i))) if (k[0] == 'P' && k.find('.') == string::npos) ch |= needs[&F].insert(std::stoul(k.substr(1))).second;
      }
      // a jump buffer pointer parameter stored into a buffer
      for (auto &F : M) for (auto &I : instructions(F)) if (auto *st = dyn_cast<StoreInst>(&I)) { const Value *o; if (isJmpField(st->getPointerOperand(), o)) if (auto *a = dyn_cast<Argument>(st->getValueOperand())) ch |= needs[&F].insert(1000 + a->getArgNo()).second; }
    }
    // summaries
    for (int r = 0; r < 12; r++) {
      bool ch = false;
      for (auto &F : M) {
        if (F.isDeclaration()) continue;
        S dead; S st;
        for (auto &a : F.args()) if (a.getType()->isPointerTy()) { st.insert("V" + std::to_string(a.getArgNo())); }
        S out = pass(F, st, nullptr, &dead);
        S g; for (auto &k : out) if (k[0] != 'V' && !dead.count(k)) g.insert(k);
        if (g != gen[&F] || dead != kill[&F]) { ch = true; gen[&F] = g; kill[&F] = dead; }
      }
      if (!ch) break;
    }
    for (auto &r : roots) if (auto *F = M.getFunction(r)) hasIn[F] = true, in[F] = {}; else outs() << "noroot\t" << r << "\n";
    for (int r = 0; r < 40; r++) {
      bool ch = false;
      for (auto &F : M) {
        if (F.isDeclaration() || !hasIn[&F]) continue;
        pass(F, entry(F), [&](const CallBase *C, const S &s) {
          S p; for (auto &k : s) for (auto &u : up(k, nullptr_call(C))) p.insert(u);
          for (auto *G : targets(C)) if (!G->isDeclaration()) { bool h = hasIn[G]; ch |= meet(in[G], h, p); hasIn[G] = h; }
        }, nullptr);
      }
      if (!ch) break;
    }
    // verdicts
    for (auto &F : M) {
      if (F.isDeclaration() || !hasIn[&F]) continue;
      set<string> done;
      pass(F, entry(F), [&](const CallBase *C, const S &s) {
        for (auto *G : targets(C)) {
          auto it = needs.find(G); if (it == needs.end()) continue;
          for (auto i : it->second) {
            bool jp = i >= 1000; unsigned n = i % 1000;
            if (n >= C->arg_size()) continue;
            auto *a = C->getArgOperand(n);
            bool ok = jp ? liveVal(a, s, C) : liveBuf(a, s);
            string ks; for (auto &k : key(a)) ks += (ks.empty() ? "" : ",") + k;
            if (!ok && !jp && (enough(C, G, n) || enoughUp(F))) ok = true, ks += "(guarded)";
            if (auto *al = dyn_cast<AllocaInst>(getUnderlyingObject(a))) ks = "local " + al->getName().str();
            outs() << "call\t" << F.getName() << "\t" << loc(C) << "\t" << G->getName() << "\t" << (ok ? "live" : "dead") << "\t" << ks << "\n";
          }
        }
      }, nullptr);
    }
    handlers();
  }
  const CallBase *nullptr_call(const CallBase *C) { return C; }
  // F reads a fixed number of bits and is called only when the buffer holds that many
  bool enoughUp(const Function &F) {
    if (F.size() != 1 || F.hasAddressTaken()) return false;
    bool any = false;
    for (auto *u : F.users()) if (auto *C = dyn_cast<CallBase>(u)) { any = true; if (!enough(C, &F, 0)) return false; }
    return any;
  }
  // a callee that reads a fixed number of bits, called only if the buffer holds that many
  bool enough(const CallBase *C, const Function *G, unsigned n) {
    int64_t sum = 0;
    if (G->size() != 1) return false;
    for (auto &I : instructions(*G)) if (auto *c = dyn_cast<CallBase>(&I)) {
      auto *H = calleeOf(c);
      if (!H || H->isIntrinsic()) continue;
      auto *k = c->arg_size() == 2 ? dyn_cast<ConstantInt>(c->getArgOperand(1)) : nullptr;
      if (!k || !needs.count(H) || needs[H].size() != 1) return false;
      sum += k->getSExtValue();
    }
    auto &DT = *dts[C->getFunction()];
    for (auto &B : *C->getFunction()) {
      auto *br = dyn_cast<BranchInst>(B.getTerminator());
      auto *cm = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
      if (!cm || cm->getPredicate() != CmpInst::ICMP_SGE || !DT.dominates(BasicBlockEdge(&B, br->getSuccessor(0)), C->getParent())) continue;
      auto *l = dyn_cast<LoadInst>(cm->getOperand(0));
      auto *g = l ? dyn_cast<GEPOperator>(l->getPointerOperand()) : nullptr;
      if (!g || g->getSourceElementType() != jst()) continue;
      int64_t lim = -1;
      if (auto *k = dyn_cast<ConstantInt>(cm->getOperand(1))) lim = k->getSExtValue();
      else if (auto *l2 = dyn_cast<LoadInst>(cm->getOperand(1))) {
        auto ks = key(l2->getPointerOperand());
        if (ks.size() != 1 || ks[0][0] != 'F') continue;
        lim = INT64_MAX;
        for (auto &F : M) for (auto &I : instructions(F)) if (auto *st = dyn_cast<StoreInst>(&I)) if (key(st->getPointerOperand()) == ks) { auto *k = dyn_cast<ConstantInt>(st->getValueOperand()); lim = std::min<int64_t>(lim, k ? k->getSExtValue() : -1); }
        if (lim == INT64_MAX) lim = -1;
      }
      if (lim >= sum) return true;
    }
    return false;
  }
  // what a handler does: returns an error, reads no more input
  void handlers() {
    set<const Function *> jumpers;
    for (auto &F : M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = C->getCalledFunction()) if (G->getName().contains("longjmp")) jumpers.insert(&F);
    for (bool ch = true; ch;) { ch = false; for (auto &F : M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) for (auto *G : targets(C)) if (jumpers.count(G)) ch |= jumpers.insert(&F).second; }
    for (auto &F : M) for (auto &I : instructions(F)) {
      auto *C = dyn_cast<CallBase>(&I);
      auto *G = C ? C->getCalledFunction() : nullptr;
      if (!G || !G->getName().contains("setjmp")) continue;
      const BasicBlock *P = nullptr, *T = nullptr;
      for (auto *u : C->users()) {
        auto *cm = dyn_cast<ICmpInst>(u);
        auto *k = cm ? dyn_cast<ConstantInt>(cm->getOperand(1)) : nullptr;
        if (!k || !k->isZero()) continue;
        for (auto *w : cm->users()) if (auto *br = dyn_cast<BranchInst>(w)) { P = br->getParent(); T = br->getSuccessor(cm->getPredicate() == CmpInst::ICMP_NE ? 0 : 1); }
      }
      string verdict = "ok";
      if (!T) verdict = "result of setjmp not tested";
      else {
        set<const BasicBlock *> seen;
        std::function<void(const BasicBlock *, const BasicBlock *)> go = [&](const BasicBlock *from, const BasicBlock *b) {
          for (auto &J : *b) {
            if (auto *c = dyn_cast<CallBase>(&J)) for (auto *H : targets(c)) { if (jumpers.count(H) || H->getName().contains("longjmp")) verdict = "handler calls " + H->getName().str() + ", which may jump again"; }
            if (auto *r = dyn_cast<ReturnInst>(&J)) {
              const Value *v = r->getReturnValue();
              if (auto *p = dyn_cast_or_null<PHINode>(v)) if (p->getParent() == b) v = p->getIncomingValueForBlock(from);
              auto *k = dyn_cast_or_null<ConstantInt>(v);
              if (!k || k->isZero()) { if (verdict == "ok") verdict = "handler does not return an error"; }
              else outs() << "hret\t" << F.getName() << "\t" << k->getZExtValue() << "\n";
            }
          }
          if (!seen.insert(b).second) return;
          for (auto *n : successors(b)) go(b, n);
        };
        go(P, T);
      }
      outs() << "handler\t" << F.getName() << "\t" << loc(C) << "\t" << verdict << "\n";
    }
  }
};
static void modeJumps(Module &M, const vector<string> &args) { Jumps j(M, args); j.run(); }


// Locals changed between setjmp and longjmp have no defined value in the handler (unoptimised module: locals are in memory).
static void modeClobber(Module &M) {
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    for (auto &I : instructions(F)) {
      auto *C = dyn_cast<CallBase>(&I);
      auto *G = C ? C->getCalledFunction() : nullptr;
      if (!G || !G->getName().contains("setjmp")) continue;
      set<const Value *> res{C};
      for (auto *u : C->users()) if (auto *st = dyn_cast<StoreInst>(u)) if (st->getValueOperand() == C) for (auto *w : st->getPointerOperand()->users()) if (auto *l = dyn_cast<LoadInst>(w)) res.insert(l);
      const BasicBlock *T = nullptr;
      set<const BasicBlock *> after; vector<const BasicBlock *> wl{C->getParent()};
      while (!wl.empty()) {
        auto *b = wl.back(); wl.pop_back();
        if (!after.insert(b).second) continue;
        auto *br = dyn_cast<BranchInst>(b->getTerminator());
        auto *cm = br && br->isConditional() ? dyn_cast<ICmpInst>(br->getCondition()) : nullptr;
        if (cm && res.count(cm->getOperand(0)) && !T) T = br->getSuccessor(cm->getPredicate() == CmpInst::ICMP_NE ? 0 : 1);
        for (auto *n : successors(b)) wl.push_back(n);
      }
      if (!T) continue;
      DominatorTree DT(F);
      int n = 0;
      for (auto &B : F) if (DT.dominates(T, &B)) for (auto &J : B) if (auto *l = dyn_cast<LoadInst>(&J)) {
        auto *a = dyn_cast<AllocaInst>(l->getPointerOperand());
        if (!a || l->isVolatile() || res.count(l)) continue;
        n++;
        for (auto *u : a->users()) if (auto *st = dyn_cast<StoreInst>(u))
          if (st->getPointerOperand() == a && after.count(st->getParent()) && !DT.dominates(T, st->getParent()) && !(st->getParent() == C->getParent() && st->comesBefore(C)))
            outs() << "clobber\t" << F.getName() << "\t" << loc(l) << "\t" << a->getName() << "\n";
      }
      outs() << "handlerlocals\t" << F.getName() << "\t" << loc(C) << "\t" << n << "\n";
    }
  }
}
#include "alloc.inc"
#include "dangle.inc"
#include "progress.inc"

static int moreModes(const string &mode, Module &M, const vector<string> &args) {
  if (mode == "retcodes") modeRetcodes(M, args);
  else if (mode == "stack") modeStack(M);
  else if (mode == "fpconv") modeFpconv(M);
  else if (mode == "loops") modeLoops(M, args);
  else if (mode == "clobber") modeClobber(M);
  else if (mode == "jumps") modeJumps(M, args);
  else if (mode == "progress") modeProgress(M, args);
  else if (mode == "dangling") modeDangling(M, args);
  else if (mode == "errtab") modeErrtab(M, args);
  else if (mode == "alloc") modeAlloc(M);
  else { errs() << "unknown mode " << mode << "\n"; return 2; }
  return 0;
}
