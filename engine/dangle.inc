// ------------------------------------------------------------------ dangling
// Addresses of locals that are stored where they outlive the local's function.  Per function: the roots every pointer can
// have (a local, a parameter, a static object; `deep` when loaded from there), with summaries of what a callee stores of one
// parameter behind another.  A stored address is harmless when the location is overwritten on every path to the return, or
// when everything that loads the location is called from the storing frame after the store (so the local is still there).
struct Dangle {
  struct R { char k; const Value *v; int deep; bool operator<(const R &o) const { return std::tie(k, v, deep) < std::tie(o.k, o.v, o.deep); } };
  typedef set<R> RS;
  typedef pair<const StructType *, unsigned> Key; // struct, field
  struct Eff { int src, dst; const Instruction *at; bool operator<(const Eff &o) const { return std::tie(src, dst, at) < std::tie(o.src, o.dst, o.at); } };
  struct Sum { set<Eff> st; RS ret; };
  struct Site { const Function *F; const AllocaInst *a; const Instruction *here, *at; Key k; };
  Module &M; set<string> roots;
  map<const Function *, Sum> sums; map<const Function *, std::unique_ptr<DominatorTree>> dts;
  vector<Site> sites; set<std::tuple<const Instruction *, const AllocaInst *, const Instruction *>> have;
  set<string> out; set<Key> tainted; size_t nstores = 0;
  Dangle(Module &m, const vector<string> &args) : M(m), roots(args.begin(), args.end()) {}

  static Key keyOf(const Value *p) {
    auto *g = dyn_cast<GEPOperator>(p->stripPointerCasts());
    Key k{nullptr, 0};
    if (!g) return k;
    Type *t = g->getSourceElementType(); auto it = g->idx_begin();
    for (++it; it != g->idx_end(); ++it) {
      if (auto *s = dyn_cast<StructType>(t)) { unsigned i = cast<ConstantInt>(*it)->getZExtValue(); k = {s, i}; t = s->getElementType(i); }
      else if (auto *a = dyn_cast<ArrayType>(t)) t = a->getElementType();
    }
    if (!k.first) return keyOf(g->getPointerOperand()); // element of an array member
    return k;
  }
  static string kname(Key k) { return k.first ? (k.first->hasName() ? k.first->getName().str() : string("struct")) + "." + std::to_string(k.second) : "?"; }
  static bool jump(const AllocaInst *a) { string s; raw_string_ostream o(s); a->getAllocatedType()->print(o); return s.find("__jmp_buf") != string::npos; }

  bool analyse(Function &F, int phase) {
    map<const Value *, RS> V; map<const Value *, RS> C; bool ch = true;
    Sum &s = sums[&F]; size_t before = s.st.size() + s.ret.size();
    auto get = [&](const Value *v) -> RS {
      if (auto *a = dyn_cast<Argument>(v)) return RS{{'P', a, 0}};
      if (isa<Constant>(v)) { auto *b = getUnderlyingObject(v); return isa<GlobalVariable>(b) ? RS{{'G', b, 0}} : RS(); }
      if (isa<AllocaInst>(v)) return RS{{'A', v, 0}};
      auto it = V.find(v); return it == V.end() ? RS() : it->second;
    };
    auto add = [&](RS &d, const RS &x) { for (auto &r : x) if (d.insert(r).second) ch = true; };
    auto deref = [&](const RS &x) {
      RS o;
      for (auto &r : x) if (r.k == 'A' && !r.deep) { auto &c = C[r.v]; o.insert(c.begin(), c.end()); } else { R q = r; q.deep = 1; o.insert(q); }
      return o;
    };
    auto store = [&](const RS &val, const RS &addr, const Instruction *here, const Instruction *at, Key k) {
      for (auto &a : addr) {
        if (a.k == 'K') continue;
        if (a.k == 'A' && !a.deep) { add(C[a.v], val); continue; }
        if (a.k == 'A') continue; // behind something a local's content points to: followed through the content's own roots
        int dst = a.k == 'P' ? (int)cast<Argument>(a.v)->getArgNo() : -1;
        for (auto &r : val) {
          if (r.k == 'A' && !r.deep) {
            auto *al = cast<AllocaInst>(r.v);
            if (phase == 1 && !jump(al) && have.insert({here, al, at}).second) sites.push_back({&F, al, here, at, k});
          } else if (r.k == 'P' && !r.deep && a.v != r.v) s.st.insert({(int)cast<Argument>(r.v)->getArgNo(), dst, at});
          else if (r.k == 'K' && phase == 2 && !tainted.count(k)) out.insert("dangle\tcopied\t" + F.getName().str() + "\t" + loc(here) + "\ta pointer to a local variable is taken from where it was kept and stored on in " + kname(k));
        }
      }
    };
    while (ch) {
      ch = false;
      for (auto &I : instructions(F)) {
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) add(V[&I], get(g->getPointerOperand()));
        else if (isa<CastInst>(&I)) add(V[&I], get(I.getOperand(0)));
        else if (auto *p = dyn_cast<PHINode>(&I)) { if (I.getType()->isPointerTy()) for (auto &o : p->incoming_values()) add(V[&I], get(o)); }
        else if (auto *q = dyn_cast<SelectInst>(&I)) { if (I.getType()->isPointerTy()) add(V[&I], get(q->getTrueValue())), add(V[&I], get(q->getFalseValue())); }
        else if (auto *l = dyn_cast<LoadInst>(&I)) {
          if (!I.getType()->isPointerTy()) continue;
          add(V[&I], deref(get(l->getPointerOperand())));
          if (phase == 2 && tainted.count(keyOf(l->getPointerOperand()))) add(V[&I], RS{{'K', nullptr, 0}});
        } else if (auto *st = dyn_cast<StoreInst>(&I)) {
          if (!st->getValueOperand()->getType()->isPointerTy()) continue;
          store(get(st->getValueOperand()), get(st->getPointerOperand()), st, st, keyOf(st->getPointerOperand()));
        } else if (auto *m = dyn_cast<MemTransferInst>(&I)) store(deref(get(m->getSource())), get(m->getDest()), m, m, Key{nullptr, 0});
        else if (auto *r = dyn_cast<ReturnInst>(&I)) {
          if (!r->getReturnValue() || !r->getReturnValue()->getType()->isPointerTy()) continue;
          for (auto &x : get(r->getReturnValue())) {
            if (x.k == 'A' && !x.deep && phase == 1) out.insert("dangle\treturned\t" + F.getName().str() + "\t" + loc(r) + "\treturns the address of a local variable");
            if (x.k == 'P' || x.k == 'G') s.ret.insert(x);
          }
        } else if (auto *c = dyn_cast<CallBase>(&I)) {
          auto *f = calleeOf(c);
          if (!f || f->isDeclaration()) continue;
          auto t = sums[f];
          for (auto &e : t.st) {
            if (e.src >= (int)c->arg_size() || e.dst >= (int)c->arg_size()) continue;
            Key k{nullptr, 0};
            if (auto *st = dyn_cast<StoreInst>(e.at)) k = keyOf(st->getPointerOperand());
            store(get(c->getArgOperand(e.src)), e.dst < 0 ? RS{{'G', nullptr, 0}} : get(c->getArgOperand(e.dst)), c, e.at, k);
          }
          for (auto &x : t.ret) if (x.k == 'P') { unsigned n = cast<Argument>(x.v)->getArgNo(); if (n < c->arg_size()) { RS q = get(c->getArgOperand(n)); add(V[&I], x.deep ? deref(q) : q); } } else add(V[&I], RS{x});
        }
      }
    }
    if (phase == 1) scopes(F, V);
    if (phase == 1) for (auto &I : instructions(F)) if (auto *st = dyn_cast<StoreInst>(&I)) nstores += st->getValueOperand()->getType()->isPointerTy();
    return s.st.size() + s.ret.size() != before;
  }
  // Locals of a block (their lifetime ends before the function does): a merged pointer, or a member of another local, that
  // got the address must not be used after the block.
  unsigned blocks = 0;
  void scopes(Function &F, map<const Value *, RS> &V) {
    set<const AllocaInst *> as;
    auto marker = [](const Instruction &I, Intrinsic::ID id) -> const AllocaInst * {
      auto *i = dyn_cast<IntrinsicInst>(&I);
      return i && i->getIntrinsicID() == id ? dyn_cast<AllocaInst>(i->getArgOperand(1)->stripPointerCasts()) : nullptr;
    };
    for (auto &I : instructions(F)) if (auto *a = marker(I, Intrinsic::lifetime_end)) as.insert(a);
    auto has = [&](const Value *v, const Value *a) { if (v == a) return true; auto it = V.find(v); return it != V.end() && it->second.count({'A', a, 0}); };
    // walks from a point where the address has been put somewhere; `stop` ends a path, `use` reports when A is gone
    auto walk = [&](const AllocaInst *A, const BasicBlock *B, BasicBlock::const_iterator from, std::function<bool(const BasicBlock *, const BasicBlock *)> enter,
                    std::function<bool(const Instruction &)> stop, std::function<bool(const Instruction &)> use) -> const Instruction * {
      set<pair<const BasicBlock *, bool>> seen; vector<pair<pair<const BasicBlock *, bool>, BasicBlock::const_iterator>> wl{{{B, false}, from}};
      while (!wl.empty()) {
        auto w = wl.back(); wl.pop_back();
        bool dead = w.first.second, cut = false;
        for (auto it = w.second, e = w.first.first->end(); it != e && !cut; ++it) {
          if (dead && use(*it)) return &*it;
          if (stop(*it)) cut = true;
          if (marker(*it, Intrinsic::lifetime_start) == A) dead = false;
          if (marker(*it, Intrinsic::lifetime_end) == A) dead = true;
        }
        if (!cut) for (auto *n : successors(w.first.first)) if (enter(w.first.first, n) && seen.insert({n, dead}).second) wl.push_back({{n, dead}, n->getFirstNonPHI()->getIterator()});
      }
      return nullptr;
    };
    for (auto *A : as) {
      blocks++;
      auto report = [&](const Instruction *at, const char *how) { out.insert("dangle\tscope\t" + F.getName().str() + "\t" + loc(at) + "\t" + how); };
      set<const Value *> direct{A};
      for (bool ch = true; ch;) { ch = false; for (auto &J : instructions(F)) if ((isa<GetElementPtrInst>(J) || isa<CastInst>(J)) && direct.count(J.getOperand(0))) ch |= direct.insert(&J).second; }
      auto uses = [](const set<const Value *> &derived, const Instruction &J) {
        if (auto *l = dyn_cast<LoadInst>(&J)) return derived.count(l->getPointerOperand()) > 0;
        if (auto *s = dyn_cast<StoreInst>(&J)) return derived.count(s->getPointerOperand()) > 0;
        if (auto *c = dyn_cast<CallBase>(&J)) { if (isa<IntrinsicInst>(c) && !isa<MemIntrinsic>(c)) return false; for (auto &a : c->args()) if (derived.count(a)) return true; }
        return false;
      };
      auto always = [](const BasicBlock *, const BasicBlock *) { return true; };
      for (auto &I : instructions(F)) {
        if (marker(I, Intrinsic::lifetime_end) == A) {
          auto *u = walk(A, I.getParent(), I.getIterator(), always, [&](const Instruction &J) { return marker(J, Intrinsic::lifetime_start) == A; },
                         [&](const Instruction &J) { return uses(direct, J); });
          if (u) report(u, "a local variable of an inner block is used after the block");
        }
        if (auto *p = dyn_cast<PHINode>(&I)) {
          if (!I.getType()->isPointerTy()) continue;
          set<const Value *> derived{p};
          for (bool ch = true; ch;) { ch = false; for (auto &J : instructions(F)) if ((isa<GetElementPtrInst>(J) || isa<CastInst>(J)) && derived.count(J.getOperand(0))) ch |= derived.insert(&J).second; }
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
            if (!has(p->getIncomingValue(i), A)) continue;
            auto *u = walk(A, p->getParent(), p->getParent()->getFirstNonPHI()->getIterator(),
              [&](const BasicBlock *f, const BasicBlock *t) { return t != p->getParent() || has(p->getIncomingValueForBlock(f), A); },
              [](const Instruction &) { return false; },
              [&](const Instruction &J) { return uses(derived, J); });
            if (u) report(u, "a pointer to a local variable of an inner block is used after the block");
          }
        } else if (auto *st = dyn_cast<StoreInst>(&I)) {
          if (!st->getValueOperand()->getType()->isPointerTy() || !has(st->getValueOperand(), A)) continue;
          auto *B = dyn_cast<AllocaInst>(getUnderlyingObject(st->getPointerOperand()));
          if (!B || B == A) continue;
          Key k = keyOf(st->getPointerOperand());
          auto *u = walk(A, st->getParent(), std::next(st->getIterator()), always,
            [&](const Instruction &J) {
              if (marker(J, Intrinsic::lifetime_start) == B || marker(J, Intrinsic::lifetime_end) == B) return true;
              auto *s = dyn_cast<StoreInst>(&J);
              return s && s != st && getUnderlyingObject(s->getPointerOperand()) == B && (keyOf(s->getPointerOperand()) == k);
            },
            [&](const Instruction &J) {
              if (auto *l = dyn_cast<LoadInst>(&J)) return getUnderlyingObject(l->getPointerOperand()) == B && keyOf(l->getPointerOperand()) == k;
              if (auto *c = dyn_cast<CallBase>(&J)) { if (isa<IntrinsicInst>(c) && !isa<MemTransferInst>(c)) return false; for (auto &a : c->args()) if (a->getType()->isPointerTy() && getUnderlyingObject(a) == B) return true; }
              return false;
            });
          if (u) report(u, "a member that holds the address of a local variable of an inner block is used after the block");
        }
      }
    }
  }
  DominatorTree &dt(const Function *F) { auto &d = dts[F]; if (!d) d.reset(new DominatorTree(*const_cast<Function *>(F))); return *d; }
  // the location is overwritten on every path from the store to a return
  bool cleared(const Site &s) {
    if (!s.k.first) return false;
    auto writes = [&](const Instruction &I) { auto *st = dyn_cast<StoreInst>(&I); return st && st != s.here && keyOf(st->getPointerOperand()) == s.k && !isa<AllocaInst>(getUnderlyingObject(st->getValueOperand())); };
    set<const BasicBlock *> seen; vector<const BasicBlock *> wl;
    auto scan = [&](BasicBlock::const_iterator b, const BasicBlock *B) { // false: reached a return
      for (auto e = B->end(); b != e; ++b) { if (writes(*b)) return true; if (isa<ReturnInst>(*b)) return false; }
      for (auto *n : successors(B)) if (seen.insert(n).second) wl.push_back(n);
      return true;
    };
    if (!scan(std::next(s.here->getIterator()), s.here->getParent())) return false;
    while (!wl.empty()) { auto *B = wl.back(); wl.pop_back(); if (!scan(B->begin(), B)) return false; }
    return true;
  }
  // every way to I goes through a store to k made by a frame that is still there
  bool covered(const Instruction *I, Key k, set<const Function *> &seen) {
    auto *F = I->getFunction();
    for (auto &s : sites) if (s.F == F && s.k == k && s.here != I && dt(F).dominates(s.here, I)) return true;
    for (auto &J : instructions(*F)) if (auto *st = dyn_cast<StoreInst>(&J)) if (keyOf(st->getPointerOperand()) == k && dt(F).dominates(st, I)) return true;
    if (!seen.insert(F).second) return true;
    if (roots.count(F->getName().str()) || F->hasAddressTaken()) return false;
    for (auto *u : F->users()) if (auto *C = dyn_cast<CallBase>(u)) { if (!covered(C, k, seen)) return false; }
    return true;
  }
  void run() {
    for (bool ch = true; ch;) { ch = false; for (auto &F : M) if (!F.isDeclaration()) ch |= analyse(F, 0); }
    unsigned fns = 0;
    for (auto &F : M) if (!F.isDeclaration()) analyse(F, 1), fns++;
    vector<Site> open;
    for (auto &s : sites) {
      string v = "kept";
      if (!s.k.first) {
        out.insert("dangle\tunnamed\t" + s.F->getName().str() + "\t" + loc(s.here) + "\tthe address of a local variable is stored in memory that outlives the call");
        v = "unnamed";
      } else if (cleared(s)) v = "cleared";
      else tainted.insert(s.k);
      outs() << "site\t" << s.F->getName() << "\t" << loc(s.here) << "\t" << loc(s.at) << "\t" << kname(s.k) << "\t" << v << "\n";
    }
    unsigned loads = 0;
    for (auto &F : M) if (!F.isDeclaration()) {
      if (!tainted.empty()) analyse(F, 2);
      for (auto &I : instructions(F)) if (auto *l = dyn_cast<LoadInst>(&I)) {
        Key k = keyOf(l->getPointerOperand());
        if (!tainted.count(k)) continue;
        loads++;
        set<const Function *> seen;
        if (!covered(l, k, seen)) out.insert("dangle\tread\t" + F.getName().str() + "\t" + loc(l) + "\t" + kname(k) + " is read where the local variable it may point to can be gone");
      }
    }
    for (auto &o : out) outs() << o << "\n";
    outs() << "sum\t" << fns << "\t" << nstores << "\t" << sites.size() << "\t" << loads << "\t" << blocks << "\n";
  }
};
static void modeDangling(Module &M, const vector<string> &args) { Dangle d(M, args); d.run(); }
