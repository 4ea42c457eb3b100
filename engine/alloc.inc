// ------------------------------------------------------------------ alloc
// Path-sensitive constant propagation through ia_mpegh_dec_create and ia_mpegh_dec_delete with a typestate per block
// obtained from the application's allocator: checked for null before use, recorded once, released once, and every
// object placed in it inside its size and aligned.
struct AllocRun {
  struct AV {
    enum K { Unk, Int, Ptr, Null, Rem, NegRem, Fn } k = Unk;
    int64_t n = 0;   // Int: value; Rem: alignment; Ptr: offset; Fn: 1 alloc 2 free
    int r = -1;      // region
    unsigned w = 0;
    bool operator==(const AV &o) const { return k == o.k && n == o.n && r == o.r; }
  };
  static AV I(int64_t n) { AV a; a.k = AV::Int; a.n = n; return a; }
  static AV P(int r, int64_t o) { AV a; a.k = AV::Ptr; a.r = r; a.n = o; return a; }
  static AV U() { return AV(); }
  static AV N() { AV a; a.k = AV::Null; return a; }
  struct Region { string what; int64_t size = -1; int64_t align = 16; bool heap = false; int of = -1; const Instruction *at = nullptr; const GlobalVariable *g = nullptr; bool app = false; };
  struct Ent { AV v; unsigned sz; };
  struct State {
    map<pair<int, int64_t>, Ent> mem;
    vector<pair<int, pair<int64_t, int64_t>>> zero; // region -> [lo,hi)
    map<int, int> freed;
    vector<int> live; // heap blocks, in order
    bool failed = false; // some allocation failed
  };
  struct Out { State s; AV v; };
  Module &M; const DataLayout &DL;
  vector<Region> regs;
  map<const Value *, int> globReg;
  map<pair<pair<const Instruction *, int>, int>, int> heapReg; // (site, ordinal) -> region
  map<pair<int, pair<int64_t, int64_t>>, int> viewReg;
  map<pair<const Instruction *, int>, int> allocaReg;
  int64_t offMalloc = -1, offFree = -1, offArr = -1, offCnt = -1; int64_t arrBytes = 0;
  long steps = 0; unsigned paths = 0, accesses = 0;
  set<string> reported;
  map<int, int64_t> asked;
  AllocRun(Module &m) : M(m), DL(m.getDataLayout()) {}

  void viol(const string &kind, const Instruction *at, const string &what) {
    string l = "viol\t" + kind + "\t" + (at ? at->getFunction()->getName().str() : "-") + "\t" + (at ? loc(at) : "?:0") + "\t" + what;
    if (reported.insert(l).second) outs() << l << "\n";
  }
  int region(const string &w, int64_t size) { Region r; r.what = w; r.size = size; regs.push_back(r); return (int)regs.size() - 1; }

  bool findFields() {
    for (auto &F : M) { auto *SP = F.getSubprogram(); (void)SP; }
    DebugInfoFinder D; D.processModule(M);
    for (auto *T : D.types())
      if (auto *C = dyn_cast<DICompositeType>(T)) {
        map<string, const DIDerivedType *> f;
        for (auto *e : C->getElements()) if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member) f[d->getName().str()] = d;
        if (f.count("malloc_mpegh") && f.count("free_mpegh") && f.count("arr_alloc_memory") && f.count("malloc_count")) {
          offMalloc = f["malloc_mpegh"]->getOffsetInBits() / 8; offFree = f["free_mpegh"]->getOffsetInBits() / 8;
          offArr = f["arr_alloc_memory"]->getOffsetInBits() / 8; offCnt = f["malloc_count"]->getOffsetInBits() / 8;
          arrBytes = f["arr_alloc_memory"]->getSizeInBits() / 8;
          return true;
        }
      }
    return false;
  }

  // requirement on a region: [lo,hi) accessed at instruction
  bool access(State &s, const AV &p, int64_t size, unsigned align, const Instruction *at, const char *how) {
    if (p.k == AV::Null) { viol("null", at, string(how) + " through a block that may be null"); return false; }
    if (p.k == AV::Unk && p.r >= 0) { viol("size", at, string(how) + " at an address inside " + regs[p.r].what + " that is not bounded"); return true; }
    if (p.k != AV::Ptr) return true;
    Region &R = regs[p.r]; accesses++;
    if (R.heap || R.of >= 0) {
      int b = R.of >= 0 ? R.of : p.r;
      if (s.freed.count(b)) { viol("freed", at, string(how) + " of a block already released"); }
      if (size >= 0 && (p.n < 0 || p.n + size > R.size))
        viol("size", at, string(how) + " of bytes " + std::to_string(p.n) + ".." + std::to_string(p.n + size) + " of " + R.what + ", which has " + std::to_string(R.size));
      if (align > 1 && (R.align % align || p.n % align))
        viol("align", at, string(how) + " needs alignment " + std::to_string(align) + " but " + R.what + " only guarantees " + std::to_string(R.align));
    }
    return true;
  }
  void clear(State &s, int r, int64_t lo, int64_t hi) {
    for (auto it = s.mem.lower_bound({r, lo - 16}); it != s.mem.end() && it->first.first == r && it->first.second < hi;) {
      if (it->first.second + (int64_t)it->second.sz > lo) it = s.mem.erase(it); else ++it;
    }
  }
  AV load(State &s, const AV &p, Type *T) {
    if (p.k != AV::Ptr) return U();
    unsigned sz = DL.getTypeStoreSize(T);
    auto it = s.mem.find({p.r, p.n});
    if (it != s.mem.end() && it->second.sz == sz) return it->second.v;
    // overlapped by another entry?
    for (auto i = s.mem.lower_bound({p.r, p.n - 16}); i != s.mem.end() && i->first.first == p.r && i->first.second < p.n + (int64_t)sz; ++i)
      if (i->first.second + (int64_t)i->second.sz > p.n) return U();
    for (auto &z : s.zero) if (z.first == p.r && z.second.first <= p.n && z.second.second >= p.n + (int64_t)sz) return T->isPointerTy() ? N() : T->isIntegerTy() ? I(0) : U();
    if (auto *G = regs[p.r].g) if (G->isConstant() && G->hasInitializer())
      if (Constant *c = ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), T, APInt(64, p.n), DL)) return constant(c);
    return U();
  }
  void store(State &s, const AV &p, Type *T, const AV &v) {
    if (p.k != AV::Ptr) return;
    unsigned sz = DL.getTypeStoreSize(T);
    clear(s, p.r, p.n, p.n + sz);
    s.mem[{p.r, p.n}] = Ent{v, sz};
  }
  AV constant(const Constant *c) {
    if (auto *i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? I(i->getSExtValue()) : U();
    if (isa<ConstantPointerNull>(c)) return N();
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
      auto it = globReg.find(g);
      if (it == globReg.end()) { int r = region(g->getName().str(), -1); regs[r].g = g; it = globReg.insert({g, r}).first; }
      return P(it->second, 0);
    }
    if (isa<Function>(c)) { AV a; a.k = AV::Fn; a.n = 0; return a; }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
      APInt o(64, 0); auto *b = e->stripAndAccumulateConstantOffsets(DL, o, true);
      if (b != e) { AV a = constant(cast<Constant>(b)); if (a.k == AV::Ptr) a.n += o.getSExtValue(); return a; }
    }
    return U();
  }
  int view(int r, int64_t c, int64_t A, bool rem) { // base + c - (base mod A), or (base + c) & ~(A-1)
    auto key = std::make_pair(r, std::make_pair(c, rem ? A : -A));
    auto it = viewReg.find(key); if (it != viewReg.end()) return it->second;
    Region R; R.of = r; R.size = regs[r].size - c; R.align = rem && c % A ? 1 : A; R.what = regs[r].what + " (aligned)"; R.at = regs[r].at;
    if (c < A - 1) viol("size", regs[r].at, "the aligned address can lie before " + regs[r].what);
    regs.push_back(R); return viewReg[key] = (int)regs.size() - 1;
  }
  AV trunc(const AV &a, unsigned w) { if (a.k != AV::Int || w >= 64) return a; int64_t m = a.n & ((1ull << w) - 1); if (m & (1ull << (w - 1))) m -= (1ll << w); return I(m); }
  static int64_t uns(int64_t n, unsigned w) { return w >= 64 ? n : (int64_t)((uint64_t)n & ((1ull << w) - 1)); }
  AV bin(unsigned op, AV a, AV b, unsigned w) {
    if (a.k == AV::Int && b.k == AV::Int) {
      int64_t x = a.n, y = b.n, ux = uns(x, w), uy = uns(y, w);
      switch (op) {
      case Instruction::Add: return trunc(I(x + y), w); case Instruction::Sub: return trunc(I(x - y), w);
      case Instruction::Mul: return trunc(I(x * y), w); case Instruction::And: return I(x & y); case Instruction::Or: return I(x | y);
      case Instruction::Xor: return I(x ^ y); case Instruction::Shl: return uy < w ? trunc(I((int64_t)((uint64_t)x << uy)), w) : U();
      case Instruction::LShr: return uy < w ? trunc(I((int64_t)((uint64_t)ux >> uy)), w) : U(); case Instruction::AShr: return uy < w ? I(x >> uy) : U();
      case Instruction::SDiv: return y ? I(x / y) : U(); case Instruction::SRem: return y ? I(x % y) : U();
      case Instruction::UDiv: return uy ? trunc(I((int64_t)((uint64_t)ux / uy)), w) : U(); case Instruction::URem: return uy ? trunc(I((int64_t)((uint64_t)ux % uy)), w) : U();
      }
      return U();
    }
    if (op == Instruction::Add && b.k == AV::Ptr) std::swap(a, b);
    if (op == Instruction::Add && a.k == AV::NegRem && b.k == AV::Int) std::swap(a, b);
    if (a.k == AV::Ptr && (regs[a.r].heap)) {
      if (op == Instruction::URem && b.k == AV::Int && a.n == 0) { AV r; r.k = AV::Rem; r.n = b.n; r.r = a.r; return r; }
      if (op == Instruction::And && b.k == AV::Int && a.n == 0 && b.n > 0 && ((b.n + 1) & b.n) == 0) { AV r; r.k = AV::Rem; r.n = b.n + 1; r.r = a.r; return r; }
      if (op == Instruction::And && b.k == AV::Int && b.n < 0 && ((-b.n) & (-b.n - 1)) == 0) return P(view(a.r, a.n, -b.n, false), 0);
      if (op == Instruction::Add && b.k == AV::Int) { a.n += b.n; return a; }
      if (op == Instruction::Sub && b.k == AV::Int) { a.n -= b.n; return a; }
      if (op == Instruction::Sub && b.k == AV::Rem && b.r == a.r) return P(view(a.r, a.n, b.n, true), 0);
    }
    if (a.k == AV::Ptr && b.k == AV::Int && (op == Instruction::Add || op == Instruction::Sub)) { a.n += op == Instruction::Add ? b.n : -b.n; return a; }
    if (op == Instruction::Sub && a.k == AV::Int && b.k == AV::Rem) { AV r = b; r.k = AV::NegRem; r.w = (unsigned)a.n; return r; } // a - rem
    if (op == Instruction::Add && a.k == AV::Int && b.k == AV::NegRem) { b.w += (unsigned)a.n; return b; }
    return U();
  }
  AV addOff(const AV &p, const AV &ix, int64_t scale, const Instruction *at) {
    if (p.k == AV::Ptr) {
      if (ix.k == AV::Int) { AV q = p; q.n += ix.n * scale; return q; }
      if (scale == 1 && ix.k == AV::NegRem && regs[p.r].heap && ix.r == p.r) return P(view(p.r, p.n + ix.w, ix.n, true), 0);
      if (regs[p.r].heap || regs[p.r].of >= 0) { AV q; q.r = p.r; return q; }
    }
    if (p.k == AV::Null) return p;
    return U();
  }

  typedef map<const Value *, AV> Env;
  struct Fr { const Function *F; int depth; };
  int serial = 0;
  AV get(const Value *v, Env &e) {
    if (auto *c = dyn_cast<Constant>(v)) return constant(c);
    auto it = e.find(v); return it == e.end() ? U() : it->second;
  }
  AV asW(AV a, const Value *v) { return a; }

  void exec(const Function *F, const vector<AV> &args, State s0, vector<Out> &outv, int depth) {
    struct Job { const BasicBlock *B; const BasicBlock *prev; BasicBlock::const_iterator it; Env e; State s; };
    vector<Job> wl;
    Env e0; unsigned i = 0; for (auto &A : F->args()) { e0[&A] = i < args.size() ? args[i] : U(); i++; }
    wl.push_back(Job{&F->getEntryBlock(), nullptr, F->getEntryBlock().begin(), e0, s0});
    while (!wl.empty()) {
      Job j = std::move(wl.back()); wl.pop_back();
      for (;;) {
        if (++steps > 20000000) { outs() << "limit\n"; return; }
        const Instruction *I0 = &*j.it;
        Env &e = j.e; State &s = j.s;
        bool next = true, end = false;
        auto go = [&](const BasicBlock *T, Job &k) {
          // phis
          Env ne = k.e; const BasicBlock *from = k.B;
          auto it = T->begin();
          for (; auto *ph = dyn_cast<PHINode>(&*it); ++it) ne[ph] = get(ph->getIncomingValueForBlock(from), k.e);
          k.e = std::move(ne); k.prev = from; k.B = T; k.it = it;
        };
        if (auto *A = dyn_cast<AllocaInst>(I0)) {
          auto key = std::make_pair((const Instruction *)A, depth);
          auto it = allocaReg.find(key);
          if (it == allocaReg.end()) it = allocaReg.insert({key, region("local", -1)}).first;
          clear(s, it->second, INT64_MIN / 2, INT64_MAX / 2);
          e[A] = P(it->second, 0);
        } else if (auto *L = dyn_cast<LoadInst>(I0)) {
          AV p = get(L->getPointerOperand(), e);
          if (!access(s, p, DL.getTypeStoreSize(L->getType()), L->getAlign().value(), I0, "read")) { end = true; }
          else e[L] = load(s, p, L->getType());
        } else if (auto *S = dyn_cast<StoreInst>(I0)) {
          AV p = get(S->getPointerOperand(), e), v = get(S->getValueOperand(), e);
          if (!access(s, p, DL.getTypeStoreSize(S->getValueOperand()->getType()), S->getAlign().value(), I0, "write")) end = true;
          else { store(s, p, S->getValueOperand()->getType(), v); note(S, v); }
        } else if (auto *G = dyn_cast<GetElementPtrInst>(I0)) {
          AV p = get(G->getPointerOperand(), e);
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            if (StructType *ST = gi.getStructTypeOrNull()) { unsigned f = cast<ConstantInt>(gi.getOperand())->getZExtValue(); p = addOff(p, I(DL.getStructLayout(ST)->getElementOffset(f)), 1, G); }
            else p = addOff(p, get(gi.getOperand(), e), DL.getTypeAllocSize(gi.getIndexedType()), G);
          }
          e[G] = p;
        } else if (auto *B = dyn_cast<BinaryOperator>(I0)) {
          e[B] = B->getType()->isIntegerTy() ? bin(B->getOpcode(), get(B->getOperand(0), e), get(B->getOperand(1), e), B->getType()->getIntegerBitWidth()) : U();
        } else if (auto *C = dyn_cast<CastInst>(I0)) {
          AV a = get(C->getOperand(0), e);
          if (isa<TruncInst>(C)) { a = a.k == AV::Int ? trunc(a, C->getType()->getIntegerBitWidth()) : a.k == AV::Ptr ? U() : a; }
          else if (isa<ZExtInst>(C)) { if (a.k == AV::Int) a.n = uns(a.n, C->getOperand(0)->getType()->getIntegerBitWidth()); }
          else if (isa<SExtInst>(C) || isa<PtrToIntInst>(C) || isa<BitCastInst>(C)) { if (a.k == AV::Null && isa<PtrToIntInst>(C)) a = I(0); }
          else if (isa<IntToPtrInst>(C)) { if (a.k == AV::Int) a = a.n ? U() : N(); }
          else a = U();
          e[C] = a;
        } else if (auto *C = dyn_cast<ICmpInst>(I0)) e[C] = cmp(C, get(C->getOperand(0), e), get(C->getOperand(1), e));
        else if (auto *Z = dyn_cast<FreezeInst>(I0)) e[Z] = get(Z->getOperand(0), e);
        else if (auto *Se = dyn_cast<SelectInst>(I0)) {
          AV c = get(Se->getCondition(), e);
          if (c.k == AV::Int) e[Se] = get(c.n ? Se->getTrueValue() : Se->getFalseValue(), e);
          else { AV a = get(Se->getTrueValue(), e), b = get(Se->getFalseValue(), e); e[Se] = a == b ? a : U(); }
        } else if (auto *C = dyn_cast<CallBase>(I0)) {
          next = call(C, j, wl, outv, depth, end);
          if (!next && !end) { end = true; } // forks were queued
        } else if (auto *R = dyn_cast<ReturnInst>(I0)) {
          Out o; o.s = s; if (R->getReturnValue()) o.v = get(R->getReturnValue(), e); outv.push_back(o); end = true;
        } else if (auto *Br = dyn_cast<BranchInst>(I0)) {
          next = false;
          if (Br->isUnconditional()) go(Br->getSuccessor(0), j);
          else {
            AV c = get(Br->getCondition(), e);
            if (c.k == AV::Int) go(Br->getSuccessor(c.n ? 0 : 1), j);
            else { Job k = j; go(Br->getSuccessor(1), k); wl.push_back(std::move(k)); go(Br->getSuccessor(0), j); }
          }
        } else if (auto *Sw = dyn_cast<SwitchInst>(I0)) {
          next = false;
          AV c = get(Sw->getCondition(), e);
          if (c.k == AV::Int) {
            auto *ci = ConstantInt::get(cast<IntegerType>(Sw->getCondition()->getType()), c.n, true);
            go(const_cast<SwitchInst *>(Sw)->findCaseValue(ci)->getCaseSuccessor(), j);
          } else {
            set<const BasicBlock *> t; for (unsigned k = 0; k < Sw->getNumSuccessors(); k++) t.insert(Sw->getSuccessor(k));
            for (auto *b : t) { Job k = j; go(b, k); wl.push_back(std::move(k)); }
            end = true;
          }
        } else if (isa<UnreachableInst>(I0)) end = true;
        else e[I0] = U();
        if (end) break;
        if (next) ++j.it;
      }
    }
  }
  AV cmp(const ICmpInst *C, const AV &a, const AV &b) {
    auto P0 = C->getPredicate();
    bool ap = a.k == AV::Ptr || a.k == AV::Fn, bp = b.k == AV::Ptr || b.k == AV::Fn, an = a.k == AV::Null || (a.k == AV::Int && a.n == 0 && (bp || b.k == AV::Null)), bn = b.k == AV::Null || (b.k == AV::Int && b.n == 0 && (ap || a.k == AV::Null));
    if (ICmpInst::isEquality(P0)) {
      int eq = -1;
      if (an && bn) eq = 1; else if ((ap && bn) || (an && bp)) eq = 0; else if (ap && bp && a.r == b.r) eq = a.n == b.n;
      if (eq >= 0) return I(P0 == ICmpInst::ICMP_EQ ? eq : !eq);
    }
    if (a.k == AV::Int && b.k == AV::Int) {
      unsigned w = C->getOperand(0)->getType()->isIntegerTy() ? C->getOperand(0)->getType()->getIntegerBitWidth() : 64;
      return I(ICmpInst::compare(APInt(w, a.n, true), APInt(w, b.n, true), P0));
    }
    return U();
  }
  // pointers stored into named fields, for the extent check
  map<FieldKey, uint64_t> need; map<FieldKey, unsigned> needAlign;
  void note(const StoreInst *S, const AV &v) {
    if (v.k != AV::Ptr) return;
    Region &R = regs[v.r]; if (R.of < 0 && !R.heap) return;
    FieldKey k; if (!fieldOf(S->getPointerOperand(), k)) return;
    auto it = need.find(k); if (it == need.end()) return;
    if (v.n < 0 || v.n + (int64_t)it->second > R.size) viol("size", S, "object of " + std::to_string(it->second) + " bytes at offset " + std::to_string(v.n) + " of " + R.what + ", which has " + std::to_string(R.size));
    if (R.align % needAlign[k] || v.n % needAlign[k]) viol("align", S, "object that needs alignment " + std::to_string(needAlign[k]) + " at offset " + std::to_string(v.n) + " of " + R.what + ", which guarantees " + std::to_string(R.align));
    placedAt[v.r][{v.n, v.n + (int64_t)it->second}] = S;
  }
  map<int, map<pair<int64_t, int64_t>, const Instruction *>> placedAt;
  void learnNeeds() {
    for (auto &F : M) for (auto &I0 : instructions(F)) {
      auto *L = dyn_cast<LoadInst>(&I0); if (!L || !L->getType()->isPointerTy()) continue;
      FieldKey k; if (!fieldOf(L->getPointerOperand(), k)) continue;
      for (auto *U : L->users()) if (auto *G = dyn_cast<GetElementPtrInst>(U)) if (G->getPointerOperand() == L && isa<StructType>(G->getSourceElementType())) {
        if (auto *ci = dyn_cast<ConstantInt>(G->getOperand(1))) if (!ci->isZero()) continue;
        uint64_t sz = DL.getTypeAllocSize(G->getSourceElementType()); need[k] = std::max(need[k], sz);
        needAlign[k] = std::max<unsigned>(std::max(1u, needAlign[k]), DL.getABITypeAlign(G->getSourceElementType()).value());
      }
    }
  }
  template <class J> bool call(const CallBase *C, J &j, vector<J> &wl, vector<Out> &outv, int depth, bool &end) {
    auto &e = j.e; auto &s = j.s;
    if (auto *MS = dyn_cast<MemSetInst>(C)) {
      AV p = get(MS->getDest(), e), n = get(MS->getLength(), e), v = get(MS->getValue(), e);
      if (!access(s, p, n.k == AV::Int ? n.n : -1, 1, C, "clear")) { end = true; return false; }
      if (p.k == AV::Ptr) {
        if (n.k != AV::Int) { clear(s, p.r, INT64_MIN / 2, INT64_MAX / 2); }
        else { clear(s, p.r, p.n, p.n + n.n); if (v.k == AV::Int && v.n == 0) s.zero.push_back({p.r, {p.n, p.n + n.n}}); else s.zero.erase(std::remove_if(s.zero.begin(), s.zero.end(), [&](auto &z) { return z.first == p.r; }), s.zero.end()); }
      }
      return true;
    }
    if (auto *MT = dyn_cast<MemTransferInst>(C)) {
      AV d = get(MT->getDest(), e), q = get(MT->getSource(), e), n = get(MT->getLength(), e);
      int64_t sz = n.k == AV::Int ? n.n : -1;
      if (!access(s, d, sz, 1, C, "copy") || !access(s, q, sz, 1, C, "copy")) { end = true; return false; }
      if (d.k == AV::Ptr) { clear(s, d.r, sz < 0 ? INT64_MIN / 2 : d.n, sz < 0 ? INT64_MAX / 2 : d.n + sz);
        s.zero.erase(std::remove_if(s.zero.begin(), s.zero.end(), [&](auto &z) { return z.first == d.r; }), s.zero.end()); }
      return true;
    }
    if (isa<DbgInfoIntrinsic>(C)) return true;
    if (auto *II = dyn_cast<IntrinsicInst>(C)) { e[C] = U(); (void)II; return true; }
    auto *G = calleeOf(C);
    vector<AV> args; for (auto &A : C->args()) args.push_back(get(A, e));
    if (!G) {
      AV f = get(C->getCalledOperand(), e);
      if (f.k == AV::Fn && f.n == 1) {
        AV sz = args.size() > 0 ? args[0] : U(), al = args.size() > 1 ? args[1] : U();
        if (sz.k != AV::Int || al.k != AV::Int) { outs() << "opaque\t" << loc(C) << "\n"; }
        int64_t n = sz.k == AV::Int ? uns(sz.n, 32) : 0, a = al.k == AV::Int ? uns(al.n, 32) : 0;
        int ord = (int)s.live.size();
        auto key = std::make_pair(std::make_pair((const Instruction *)C, ord), (int)(n ^ (a << 24)));
        auto it = heapReg.find(key);
        if (it == heapReg.end()) { Region R; R.heap = true; R.size = n + a; R.align = 1; R.at = C; asked[(int)regs.size()] = n; R.what = "block " + std::to_string(ord) + " of " + std::to_string(n) + " bytes"; regs.push_back(R); it = heapReg.insert({key, (int)regs.size() - 1}).first; outs() << "block\t" << ord << "\t" << n << "\t" << a << "\t" << loc(C) << "\n"; }
        J k = j; k.e[C] = N(); k.s.failed = true; ++k.it; wl.push_back(std::move(k));
        s.live.push_back(it->second); e[C] = P(it->second, 0);
        return true;
      }
      if (f.k == AV::Fn && f.n == 2) {
        AV p = args.size() ? args[0] : U();
        if (p.k == AV::Null) return true;
        if (p.k != AV::Ptr || !regs[p.r].heap || p.n) { viol("free", C, "releases something that is not a block as the allocator returned it"); return true; }
        if (s.freed[p.r]++) viol("free", C, "releases " + regs[p.r].what + " twice");
        return true;
      }
      viol("indirect", C, "call through an unknown pointer"); e[C] = U(); return true;
    }
    if (G->isDeclaration()) { e[C] = U(); return true; }
    if (depth > 20) { outs() << "limit\n"; return true; }
    vector<Out> o; exec(G, args, s, o, depth + 1);
    if (o.empty()) { end = true; return false; }
    for (size_t i = 1; i < o.size(); i++) { J k = j; k.s = o[i].s; k.e[C] = o[i].v; ++k.it; wl.push_back(std::move(k)); }
    j.s = o[0].s; j.e[C] = o[0].v;
    return true;
  }
  void run() {
    if (!findFields()) { outs() << "nofield\n"; return; }
    learnNeeds();
    auto *Cr = M.getFunction("ia_mpegh_dec_create"), *De = M.getFunction("ia_mpegh_dec_delete");
    if (!Cr || !De || Cr->isDeclaration() || De->isDeclaration()) { outs() << "noroot\n"; return; }
    State s; int in = region("input configuration", -1), out = region("output configuration", -1);
    AV fa; fa.k = AV::Fn; fa.n = 1; AV fr = fa; fr.n = 2;
    s.mem[{out, offMalloc}] = Ent{fa, 8}; s.mem[{out, offFree}] = Ent{fr, 8}; s.mem[{out, offCnt}] = Ent{I(0), 4};
    vector<Out> o; exec(Cr, {P(in, 0), P(out, 0)}, s, o, 0);
    const Instruction *ent = &*Cr->getEntryBlock().begin();
    for (auto &x : o) {
      paths++;
      if (x.s.failed && !(x.v.k == AV::Int && x.v.n != 0)) viol("report", ent, "a failed allocation is not reported as an error");
      auto c = x.s.mem.find({out, offCnt});
      if (c == x.s.mem.end() || c->second.v.k != AV::Int) { viol("count", ent, "the number of blocks is not known after creation"); continue; }
      int64_t n = c->second.v.n;
      if (n < 0 || n * 8 > arrBytes) viol("count", ent, "the number of blocks leaves the table");
      map<int, int> rec;
      for (int64_t i = 0; i < n; i++) {
        auto m = x.s.mem.find({out, offArr + 8 * i});
        if (m == x.s.mem.end()) { viol("record", ent, "slot " + std::to_string(i) + " is counted but never set"); continue; }
        AV v = m->second.v;
        if (v.k == AV::Null) continue;
        if (v.k != AV::Ptr || !regs[v.r].heap || v.n) { viol("record", ent, "slot " + std::to_string(i) + " does not hold a block as the allocator returned it"); continue; }
        rec[v.r]++;
      }
      for (int b : x.s.live) {
        if (rec[b] == 0) viol("record", regs[b].at, regs[b].what + " is not recorded for release" + (x.s.failed ? " when a later allocation fails" : ""));
        if (rec[b] > 1) viol("record", regs[b].at, regs[b].what + " is recorded twice");
      }
      if (!x.s.failed) for (int b : x.s.live) {
        bool ok = false;
        for (auto &z : x.s.zero) {
          auto &R = regs[z.first];
          if (z.first == b && z.second.first == 0 && z.second.second >= asked[b]) ok = true;
          if (R.of == b && z.second.first == 0 && z.second.second >= asked[b]) ok = true;
        }
        if (!ok) viol("clear", regs[b].at, regs[b].what + " is not cleared before use");
      }
      vector<Out> d; exec(De, {P(out, 0)}, x.s, d, 0);
      const Instruction *de = &*De->getEntryBlock().begin();
      if (d.empty()) viol("release", de, "delete does not return");
      for (auto &y : d) for (int b : y.s.live) if (!y.s.freed.count(b)) viol("release", de, regs[b].what + " is not released");
    }
    for (auto &p : placedAt) for (auto i = p.second.begin(); i != p.second.end(); ++i) for (auto k = std::next(i); k != p.second.end(); ++k) {
      auto a = i->first, b = k->first;
      if (a.second <= b.first || b.second <= a.first) continue;
      if ((a.first <= b.first && b.second <= a.second) || (b.first <= a.first && a.second <= b.second)) continue;
      viol("overlap", k->second, "objects overlap in " + regs[p.first].what);
    }
    // nobody else obtains or releases memory
    set<const Function *> reach; std::deque<const Function *> q{Cr, De}; reach.insert(Cr); reach.insert(De);
    while (!q.empty()) { auto *F = q.front(); q.pop_front(); for (auto &I0 : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I0)) if (auto *G = calleeOf(C)) if (!G->isDeclaration() && reach.insert(G).second) q.push_back(G); }
    unsigned cb = 0;
    for (auto &F : M) for (auto &I0 : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I0)) {
      FieldKey k; if (!fieldOf(L->getPointerOperand(), k)) continue;
      string n = fieldName(k);
      if (n.find("ia_output_config") == string::npos) continue;
      if (k.idx.size() != 1) continue;
      int64_t off = DL.getStructLayout(cast<StructType>(k.T))->getElementOffset(k.idx[0]);
      if (off != offMalloc && off != offFree) continue;
      cb++;
      if (!reach.count(&F)) viol("elsewhere", L, "uses the application's allocator outside creation and deletion");
    }
    unsigned nb = 0; for (auto &R : regs) nb += R.heap;
    outs() << "count\tpaths\t" << paths << "\ncount\taccesses\t" << accesses << "\ncount\tblocks\t" << nb << "\ncount\tcallback_uses\t" << cb << "\ncount\tplaced\t" << placedAt.size() << "\n";
  }
};
static void modeAlloc(Module &M) { AllocRun r(M); r.run(); }
