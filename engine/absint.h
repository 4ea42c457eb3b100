// Whole-program flow-sensitive abstract interpreter over LLVM IR (C, opaque pointers).
// Domain: intervals with "taint" (depends on bits read from a stream / on application-supplied
// parameters) and "solid" bounds (the bound is attained by some input, as far as the abstraction can
// tell: it comes from a field width, a constant or a comparison and not from widening or from unknown
// memory).
// Memory: field-sensitive abstract locations; heap memory is keyed by (innermost struct type, field);
// array elements are smashed, with a recency part so that read / validate / use sequences stay exact.
#pragma once
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>
#include <unordered_map>
#include <memory>
#include <string>
#include <functional>
#include <cstdint>
#include <climits>
using namespace llvm;
typedef __int128 i128;

// ---------------------------------------------------------------- persistent Patricia map
template <class V> struct PNode {
  int rc = 0;
  uint32_t prefix, bit; // bit==0: leaf
  V val;
  PNode *l = nullptr, *r = nullptr;
};
template <class V> struct PMap {
  typedef PNode<V> N;
  N *root = nullptr;
  static void inc(N *n) { if (n) n->rc++; }
  static void dec(N *n) {
    if (n && --n->rc == 0) { dec(n->l); dec(n->r); delete n; }
  }
  PMap() {}
  PMap(const PMap &o) : root(o.root) { inc(root); }
  PMap(PMap &&o) : root(o.root) { o.root = nullptr; }
  PMap &operator=(const PMap &o) { inc(o.root); dec(root); root = o.root; return *this; }
  PMap &operator=(PMap &&o) { std::swap(root, o.root); return *this; }
  ~PMap() { dec(root); }
  static N *leaf(uint32_t k, const V &v) { N *n = new N; n->prefix = k; n->bit = 0; n->val = v; return n; }
  static uint32_t mask(uint32_t k, uint32_t b) { return k & ~((b << 1) - 1); } // bits above b
  static N *br(uint32_t p, uint32_t b, N *l, N *r) { N *n = new N; n->prefix = p; n->bit = b; n->l = l; n->r = r; inc(l); inc(r); return n; }
  static bool match(uint32_t k, N *n) { return mask(k, n->bit) == n->prefix; }
  static uint32_t bbit(uint32_t a, uint32_t b) { return 1u << (31 - __builtin_clz(a ^ b)); }
  static N *join2(uint32_t p0, N *t0, uint32_t p1, N *t1) {
    uint32_t b = bbit(p0, p1);
    if (p0 & b) return br(mask(p0, b), b, t1, t0);
    return br(mask(p0, b), b, t0, t1);
  }
  const V *get(uint32_t k) const {
    N *n = root;
    while (n) {
      if (!n->bit) return n->prefix == k ? &n->val : nullptr;
      n = (k & n->bit) ? n->r : n->l;
    }
    return nullptr;
  }
  static N *ins(N *n, uint32_t k, const V &v) {
    if (!n) return leaf(k, v);
    if (!n->bit) {
      if (n->prefix == k) return leaf(k, v);
      return join2(k, leaf(k, v), n->prefix, n);
    }
    if (!match(k, n)) return join2(k, leaf(k, v), n->prefix, n);
    if (k & n->bit) return br(n->prefix, n->bit, n->l, ins(n->r, k, v));
    return br(n->prefix, n->bit, ins(n->l, k, v), n->r);
  }
  void set(uint32_t k, const V &v) { N *n = ins(root, k, v); inc(n); dec(root); root = n; }
  static void each(N *n, const std::function<void(uint32_t, const V &)> &f) {
    if (!n) return;
    if (!n->bit) { f(n->prefix, n->val); return; }
    each(n->l, f); each(n->r, f);
  }
  void forEach(const std::function<void(uint32_t, const V &)> &f) const { each(root, f); }
  // transform all values of a subtree (used for one-sided joins)
  template <class F> static N *mapAll(N *n, const F &f) {
    if (!n) return nullptr;
    if (!n->bit) { V v = n->val; if (f(n->prefix, v)) return leaf(n->prefix, v); return n; }
    N *l = mapAll(n->l, f), *r = mapAll(n->r, f);
    if (l == n->l && r == n->r) return n;
    return br(n->prefix, n->bit, l, r);
  }
  template <class F> static N *filter(N *n, const F &keep) {
    if (!n) return nullptr;
    if (!n->bit) return keep(n->prefix) ? n : nullptr;
    N *l = filter(n->l, keep), *r = filter(n->r, keep);
    if (l == n->l && r == n->r) return n;
    if (!l) return r;
    if (!r) return l;
    return br(n->prefix, n->bit, l, r);
  }
  template <class F> void filterIn(const F &keep) { N *n = filter(root, keep); inc(n); dec(root); root = n; }
  // merge: both(k,a,b)->V ; one(k,v)->bool changed (in place)
  template <class FB, class FO> static N *mrg(N *a, N *b, const FB &both, const FO &one) {
    if (a == b) return a;
    if (!a) return mapAll(b, one);
    if (!b) return mapAll(a, one);
    if (!a->bit && !b->bit && a->prefix == b->prefix) {
      V v = both(a->prefix, a->val, b->val);
      if (v.same(a->val)) return a;
      return leaf(a->prefix, v);
    }
    if (!a->bit) { // leaf a into b
      if (match(a->prefix, b)) {
        if (a->prefix & b->bit) {
          N *l = mapAll(b->l, one), *r = mrg(a, b->r, both, one);
          return br(b->prefix, b->bit, l, r);
        }
        N *l = mrg(a, b->l, both, one), *r = mapAll(b->r, one);
        return br(b->prefix, b->bit, l, r);
      }
      return join2(a->prefix, mapAll(a, one), b->prefix, mapAll(b, one));
    }
    if (!b->bit) {
      if (match(b->prefix, a)) {
        N *l, *r;
        if (b->prefix & a->bit) { l = mapAll(a->l, one); r = mrg(a->r, b, both, one); }
        else { l = mrg(a->l, b, both, one); r = mapAll(a->r, one); }
        if (l == a->l && r == a->r) return a;
        return br(a->prefix, a->bit, l, r);
      }
      return join2(a->prefix, mapAll(a, one), b->prefix, mapAll(b, one));
    }
    if (a->bit == b->bit && a->prefix == b->prefix) {
      N *l = mrg(a->l, b->l, both, one), *r = mrg(a->r, b->r, both, one);
      if (l == a->l && r == a->r) return a;
      return br(a->prefix, a->bit, l, r);
    }
    if (a->bit > b->bit && match(b->prefix, a)) {
      N *l, *r;
      if (b->prefix & a->bit) { l = mapAll(a->l, one); r = mrg(a->r, b, both, one); }
      else { l = mrg(a->l, b, both, one); r = mapAll(a->r, one); }
      if (l == a->l && r == a->r) return a;
      return br(a->prefix, a->bit, l, r);
    }
    if (b->bit > a->bit && match(a->prefix, b)) {
      N *l, *r;
      if (a->prefix & b->bit) { l = mapAll(b->l, one); r = mrg(a, b->r, both, one); }
      else { l = mrg(a, b->l, both, one); r = mapAll(b->r, one); }
      return br(b->prefix, b->bit, l, r);
    }
    return join2(a->prefix, mapAll(a, one), b->prefix, mapAll(b, one));
  }
  template <class FB, class FO> static PMap merge(const PMap &a, const PMap &b, const FB &both, const FO &one) {
    PMap m;
    N *n = mrg(a.root, b.root, both, one);
    inc(n);
    m.root = n;
    return m;
  }
};
