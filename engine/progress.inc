// ------------------------------------------------------------------ progress
// What a failing API call reports as consumed.  Forward path-sensitive dataflow through ia_mpegh_dec_init/_execute and the
// functions below them that write the byte count: for the count in the application's structure and the one in the decoder's
// state, which of {left from an earlier call, zero, not zero} it can be, split by what is known about the error codes on the path.
struct Progress {
  enum { Stale = 1, Zero = 2, Non = 4 };
  struct St { int m[2] = {Stale, Stale}; map<const Value *, int> env; map<const Value *, int> ld; const Instruction *from = nullptr; bool operator<(const St &o) const { return std::tie(m[0], m[1], env, ld, from) < std::tie(o.m[0], o.m[1], o.env, o.ld, o.from); } };
  struct Out { int m0, m1, r; bool operator<(const Out &o) const { return std::tie(m0, m1, r) < std::tie(o.m0, o.m1, o.r); } };
  Module &M; const DataLayout &DL;
  string sname[2]; int64_t off[2] = {-1, -1};
  set<const Function *> writers;
  map<std::tuple<const Function *, int, int>, set<Out>> memo; set<std::tuple<const Function *, int, int>> active;
  map<const Function *, set<const Value *>> rel;
  map<const Function *, map<const BasicBlock *, set<const Value *>>> lv;
  set<string> out; unsigned states = 0, joins = 0, rets = 0;
  Progress(Module &m) : M(m), DL(m.getDataLayout()) {}

  bool findFields() {
    DebugInfoFinder D; D.processModule(M);
    map<const DIType *, string> td;
    for (auto *T : D.types()) if (auto *d = dyn_cast<DIDerivedType>(T)) if (d->getTag() == dwarf::DW_TAG_typedef && d->getBaseType()) td[d->getBaseType()] = d->getName().str();
    for (auto *T : D.types())
      if (auto *C = dyn_cast<DICompositeType>(T)) {
        map<string, int64_t> f;
        for (auto *e : C->getElements()) if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member) f[d->getName().str()] = d->getOffsetInBits() / 8;
        if (!f.count("i_bytes_consumed")) continue;
        int k = f.count("num_out_bytes") ? 0 : f.count("ui_in_bytes") ? 1 : -1;
        if (k < 0) continue;
        sname[k] = C->getName().empty() ? td[C] : C->getName().str(); off[k] = f["i_bytes_consumed"];
      }
    return off[0] >= 0 && off[1] >= 0 && !sname[0].empty() && !sname[1].empty();
  }
  int keyOf(const Value *p) {
    auto *g = dyn_cast<GEPOperator>(p);
    if (!g || g->getNumIndices() != 2) return -1;
    auto *s = dyn_cast<StructType>(g->getSourceElementType());
    auto *c = dyn_cast<ConstantInt>(*(g->idx_end() - 1));
    if (!s || !c || !s->hasName()) return -1;
    string n = s->getName().str(); if (n.rfind("struct.", 0) == 0) n = n.substr(7);
    auto d = n.rfind('.'); if (d != string::npos && n.find_first_not_of("0123456789", d + 1) == string::npos) n = n.substr(0, d);
    for (int k = 0; k < 2; k++) if (n == sname[k] && (int64_t)DL.getStructLayout(s)->getElementOffset(c->getZExtValue()) == off[k]) return k;
    return -1;
  }
  int cls(const St &s, const Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) return c->isZero() ? Zero : Non;
    auto e = s.env.find(v); if (e != s.env.end()) return e->second;
    auto l = s.ld.find(v); if (l != s.ld.end()) return s.m[l->second];
    if (auto *q = dyn_cast<SelectInst>(v)) return cls(s, q->getTrueValue()) | cls(s, q->getFalseValue());
    return Zero | Non;
  }
  // values that end up returned or stored as a count, or are such counts
  const set<const Value *> &relevant(const Function &F) {
    auto it = rel.find(&F); if (it != rel.end()) return it->second;
    auto &R = rel[&F]; vector<const Value *> wl;
    for (auto &I : instructions(F)) {
      if (auto *r = dyn_cast<ReturnInst>(&I)) { if (r->getReturnValue()) wl.push_back(r->getReturnValue()); }
      else if (auto *st = dyn_cast<StoreInst>(&I)) { if (keyOf(st->getPointerOperand()) >= 0) wl.push_back(st->getValueOperand()); }
    }
    while (!wl.empty()) {
      auto *v = wl.back(); wl.pop_back();
      if (isa<Constant>(v) || !R.insert(v).second) continue;
      if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) wl.push_back(o);
      if (auto *q = dyn_cast<SelectInst>(v)) wl.push_back(q->getTrueValue()), wl.push_back(q->getFalseValue());
    }
    return R;
  }
  // blocks at whose start a value is still to be used
  const map<const BasicBlock *, set<const Value *>> &live(const Function &F) {
    auto it = lv.find(&F); if (it != lv.end()) return it->second;
    auto &L = lv[&F]; set<const Value *> V = relevant(F);
    for (auto &I : instructions(F)) if (auto *l = dyn_cast<LoadInst>(&I)) if (keyOf(l->getPointerOperand()) >= 0) V.insert(l);
    for (auto *v : V) {
      auto *d = dyn_cast<Instruction>(v); const BasicBlock *DB = d ? d->getParent() : nullptr;
      vector<const BasicBlock *> wl; set<const BasicBlock *> done;
      std::function<void(const Value *)> uses = [&](const Value *x) { for (auto *u : x->users()) if (auto *i = dyn_cast<Instruction>(u)) {
        if (auto *p = dyn_cast<PHINode>(i)) { for (unsigned k = 0; k < p->getNumIncomingValues(); k++) if (p->getIncomingValue(k) == x && !(x == v && p->getIncomingBlock(k) == DB)) wl.push_back(p->getIncomingBlock(k)); }
        else { if (i->getParent() != DB) wl.push_back(i->getParent()); if (isa<CmpInst>(i) || isa<SelectInst>(i) || isa<BinaryOperator>(i)) uses(i); }
      } };
      uses(v);
      while (!wl.empty()) { auto *b = wl.back(); wl.pop_back(); if (b == DB || !done.insert(b).second) continue; L[b].insert(v); for (auto *q : predecessors(b)) wl.push_back(q); }
    }
    return L;
  }
  // refine by a condition
  bool assume(St &s, const Value *c, bool t) {
    auto *cm = dyn_cast<ICmpInst>(c);
    if (!cm) {
      if (auto *b = dyn_cast<BinaryOperator>(c)) if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) if (b->getOpcode() == Instruction::Xor && k->isOne()) return assume(s, b->getOperand(0), !t);
      return true;
    }
    auto *k = dyn_cast<ConstantInt>(cm->getOperand(1)); if (!k) return true;
    const Value *v = cm->getOperand(0);
    auto pr = t ? cm->getPredicate() : cm->getInversePredicate();
    int keep = Stale | Zero | Non;
    if (pr == CmpInst::ICMP_EQ) keep = k->isZero() ? Zero : Non;
    else if (pr == CmpInst::ICMP_NE && k->isZero()) keep = Non;
    else if ((pr == CmpInst::ICMP_SLT && !k->getValue().isStrictlyPositive()) || (pr == CmpInst::ICMP_SGT && !k->isNegative()) || (pr == CmpInst::ICMP_UGT)) keep = Non;
    if (keep == (Stale | Zero | Non)) return true;
    auto l = s.ld.find(v);
    if (l != s.ld.end()) { int b = s.m[l->second] & Stale; int n = s.m[l->second] & keep; if (b) n |= b; s.m[l->second] = n; return n != 0; }
    int n = cls(s, v) & keep; if (!n) return false;
    if (!isa<Constant>(v)) s.env[v] = n;
    return true;
  }
  set<Out> eval(const Function &F, int m0, int m1, bool root) {
    auto id = std::make_tuple(&F, m0, m1);
    auto it = memo.find(id); if (it != memo.end()) return it->second;
    if (!active.insert(id).second) return {{m0 | Zero | Non, m1 | Zero | Non, Zero | Non}};
    set<Out> res; auto &R = relevant(F); auto &LV = live(F);
    map<const BasicBlock *, set<St>> seen; vector<pair<const BasicBlock *, St>> wl;
    St s0; s0.m[0] = m0; s0.m[1] = m1; wl.push_back({&F.getEntryBlock(), s0});
    auto go = [&](const BasicBlock *f, const BasicBlock *t, St s) {
      map<const Value *, int> up;
      for (auto &p : t->phis()) if (R.count(&p)) up[&p] = cls(s, p.getIncomingValueForBlock(f));
      for (auto &u : up) { s.env[u.first] = u.second; s.ld.erase(u.first); }
      bool last = isa<ReturnInst>(t->getTerminator());
      s.from = root && last ? f->getTerminator() : nullptr;
      { auto q = LV.find(t); // only what is used later
        auto dead = [&](const Value *v) { return (q == LV.end() || !q->second.count(v)) && !(isa<PHINode>(v) && cast<PHINode>(v)->getParent() == t); };
        for (auto i = s.env.begin(); i != s.env.end();) if (dead(i->first) || !R.count(i->first)) i = s.env.erase(i); else ++i;
        for (auto i = s.ld.begin(); i != s.ld.end();) if (dead(i->first)) i = s.ld.erase(i); else ++i; }
      if (last) { // only what is returned matters
        auto *rv = cast<ReturnInst>(t->getTerminator())->getReturnValue(); int c = rv ? cls(s, rv) : 0;
        s.env.clear(); if (rv && !isa<Constant>(rv) && !s.ld.count(rv)) s.env[rv] = c;
        for (auto i = s.ld.begin(); i != s.ld.end();) if (i->first != rv) i = s.ld.erase(i); else ++i;
      }
      auto &S = seen[t];
      if (!last && S.size() > 48 && !S.count(s)) { // join
        joins++;
        for (auto &o : S) { s.m[0] |= o.m[0]; s.m[1] |= o.m[1]; for (auto i = s.env.begin(); i != s.env.end();) { auto j = o.env.find(i->first); if (j == o.env.end()) i = s.env.erase(i); else i->second |= j->second, ++i; } for (auto i = s.ld.begin(); i != s.ld.end();) { auto j = o.ld.find(i->first); if (j == o.ld.end() || j->second != i->second) i = s.ld.erase(i); else ++i; } }
      }
      if (S.insert(s).second) wl.push_back({t, s});
    };
    while (!wl.empty()) {
      auto w = wl.back(); wl.pop_back(); states++;
      vector<St> cur{w.second};
      auto *B = w.first;
      for (auto &I : *B) {
        if (auto *l = dyn_cast<LoadInst>(&I)) {
          int k = keyOf(l->getPointerOperand());
          for (auto &s : cur) { s.env.erase(l); if (k >= 0) s.ld[l] = k; }
        } else if (auto *st = dyn_cast<StoreInst>(&I)) {
          int k = keyOf(st->getPointerOperand());
          if (k >= 0) for (auto &s : cur) {
            int c = cls(s, st->getValueOperand());
            for (auto i = s.ld.begin(); i != s.ld.end();) if (i->second == k) { if (R.count(i->first)) s.env[i->first] = s.m[k]; i = s.ld.erase(i); } else ++i;
            s.m[k] = c;
          }
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          auto *G = calleeOf(C);
          if (isa<IntrinsicInst>(C)) continue;
          for (auto &a : C->args()) { int k = keyOf(a); if (k >= 0) for (auto &s : cur) s.m[k] = Non, s.ld.clear(); } // set there
          if (!G) continue;
          for (auto &s : cur) s.env.erase(C);
          vector<St> nx;
          if (G->getName().contains("setjmp")) for (auto &s : cur) {
            St a = s, b = s; a.env[C] = Zero; b.env[C] = Non; b.ld.clear();
            for (int k = 0; k < 2; k++) b.m[k] |= Zero | Non;
            nx.push_back(a); nx.push_back(b);
          } else if (writers.count(G)) for (auto &s : cur) for (auto &o : eval(*G, s.m[0], s.m[1], false)) {
            St a = s; for (auto &l : s.ld) if (R.count(l.first)) a.env[l.first] = s.m[l.second];
            a.ld.clear(); a.m[0] = o.m0; a.m[1] = o.m1;
            if (R.count(C)) { a.env[C] = o.r; }
            nx.push_back(a);
          }
          else if (R.count(C)) for (auto &s : cur) { St a = s, b = s; a.env[C] = Zero; b.env[C] = Non; nx.push_back(a); nx.push_back(b); }
          else continue;
          cur.swap(nx);
        } else if (auto *r = dyn_cast<ReturnInst>(&I)) {
          for (auto &s : cur) {
            int c = r->getReturnValue() && r->getReturnValue()->getType()->isIntegerTy() ? cls(s, r->getReturnValue()) : Zero;
            if (c & Stale) c = (c & ~Stale) | Zero | Non;
            res.insert({s.m[0], s.m[1], c});
            if (root) {
              rets++;
              const char *e = (s.m[0] & Stale) ? "stale" : ((c & Non) && (s.m[0] & Zero)) ? "zero" : nullptr;
              if (!e) continue;
              const Instruction *at = s.from ? s.from : r;
              for (const BasicBlock *b = at->getParent(); b && loc(at) == "?:0"; b = b->getSinglePredecessor()) at = b->getTerminator();
              out.insert(string("progress\t") + e + "\t" + F.getName().str() + "\t" + loc(at));
            }
          }
        }
      }
      auto *T = B->getTerminator();
      for (auto &s : cur) {
        if (auto *br = dyn_cast<BranchInst>(T)) {
          if (br->isConditional()) {
            St a = s, b = s;
            if (assume(a, br->getCondition(), true)) go(B, br->getSuccessor(0), a);
            if (assume(b, br->getCondition(), false)) go(B, br->getSuccessor(1), b);
          } else go(B, br->getSuccessor(0), s);
        } else for (auto *n : successors(B)) go(B, n, s);
      }
    }
    active.erase(id);
    return memo[id] = res;
  }
  void run(const vector<string> &roots) {
    if (!findFields()) { outs() << "nofield\n"; return; }
    for (auto &F : M) for (auto &I : instructions(F)) if (auto *st = dyn_cast<StoreInst>(&I)) if (keyOf(st->getPointerOperand()) >= 0) writers.insert(&F);
    unsigned direct = writers.size();
    for (bool ch = true; ch;) { ch = false; for (auto &F : M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = calleeOf(C)) if (writers.count(G)) ch |= writers.insert(&F).second; }
    for (auto &r : roots) if (auto *F = M.getFunction(r)) eval(*F, Stale, Stale, true); else outs() << "noroot\t" << r << "\n";
    for (auto &o : out) outs() << o << "\n";
    outs() << "sum\t" << direct << "\t" << writers.size() << "\t" << memo.size() << "\t" << states << "\t" << rets << "\t" << joins << "\n";
  }
};
static void modeProgress(Module &M, const vector<string> &args) { Progress d(M); d.run(args); }
