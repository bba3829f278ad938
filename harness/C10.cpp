#include "verif.h"
#include "utils/IndexVar.h"
using INDEXVAR::IndexVar; using INDEXVAR::pIndexVar; using INDEXVAR::pInt; typedef std::vector<int> V;
// OPT * init=1 search=40000
static int any(const char *n) { return (int)nd_small(n, INT32_MIN, INT32_MAX, -2, 3); }
static V seq(const char *size, const char *id, size_t max) { V v; size_t n = nd_size(size, 0, max); for (size_t i = 0; i < n; ++i) v.push_back(any(id)); return v; }
static void fill(IndexVar &x, const V &v) { for (int i : v) { x.indices.push_back(pInt(new int(i))); x.positions.push_back(V()); } }
static V now(IndexVar &x) { V v; for (auto &p : x.indices) v.push_back(*p); return v; }
static V fresh(const V &v) { IndexVar x; fill(x, v); return *x.normalize(); }
static void canonical(const V &v, const V &r) {
  CHECK(r.size() == v.size(), "normalising keeps the length"); size_t k = 0;
  for (size_t i = 0; i < v.size(); ++i) { bool first = true;
    for (size_t j = 0; j < i; ++j) { if (v[i] == v[j]) first = false; CHECK((v[i] == v[j]) == (r[i] == r[j]), "equal indices stay equal and different ones different"); CHECK((v[i] < v[j]) == (r[i] < r[j]), "relative order is kept"); }
    if (first) ++k; }
  for (size_t i = 0; i < r.size(); ++i) CHECK(r[i] >= 0 && (size_t)r[i] < k, "values are below the number of different indices");   // with order kept and k different values: exactly 0..k-1
}
PROOF(normalise) {
  V v = seq("size", "index", 4); IndexVar x; fill(x, v); auto r = x.normalize(); CHECK(r != nullptr, "normalising gives a sequence"); canonical(v, *r);
  CHECK(now(x) == v, "normalising leaves the indices alone"); CHECK(*x.indices_normalized() == *r, "the reported form is the normalised one"); cover("end");
}
PROOF(idempotent) { V v = seq("size", "index", 3); V r = fresh(v); CHECK(fresh(r) == r, "normalising twice changes nothing"); cover("end"); }
PROOF(renaming) {   // an order-preserving renaming gives the same form
  size_t n = nd_size("size", 0, 3); V v, w; for (size_t i = 0; i < n; ++i) { v.push_back(any("index")); w.push_back(any("renamed")); }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) assume((v[i] < v[j]) == (w[i] < w[j]) && (v[j] < v[i]) == (w[j] < w[i]));
  CHECK(fresh(v) == fresh(w), "order-preserving renaming normalises identically"); cover("end");
}
static void current(IndexVar &x, const char *l, const char *lh) {
  V v = now(x); V f = fresh(v); CHECK(*x.indices_normalized() == f, l); CHECK(*x.normalize() == f, l);
  IndexVar y; fill(y, v); CHECK(x.__hash__() == y.__hash__(), lh); CHECK(now(x) == v, "reporting leaves the indices alone");
}
// invariant "what is cached describes the current indices", preserved by one arbitrary operation from any state satisfying it
static void arbitrary(IndexVar &x, const V &v) { fill(x, v); if (nd_bool("normalised")) x.indices_normalized(); if (nd_bool("hashed")) x.__hash__(); }
PROOF(current_single) {
  IndexVar x; arbitrary(x, seq("size", "index", 2));
  switch (nd_choice("step", 0, 6)) { case 0: x.add(any("new"), {}); break; case 1: x.remove({}); break; case 2: x.build(); break; case 3: x.rebuild(); break; case 4: x.__hash__(); break; case 5: x.do_hashing(); break; default: x.normalize(); }
  current(x, "the normalised form is that of the current indices", "the hash is that of the current indices"); cover("end");
}
static void tree(int lo, int hi) {
  auto f = IndexVar::create(), a = IndexVar::create(), b = IndexVar::create(); bool cached = nd_bool("cached");
  fill(*a, seq("size a", "index a", 1)); fill(*b, seq("size b", "index b", 1)); if (cached) { a->__hash__(); b->__hash__(); } IndexVar::connect(f, a); if (nd_bool("built")) f->build(); if (cached) f->__hash__();
  switch (nd_choice("step", lo, hi)) { case 0: f->add(any("new"), {0}); break; case 1: f->remove({0}); break; case 2: IndexVar::connect(f, b); break; case 3: IndexVar::connect(f, b, true); break; case 4: f->build(); break; case 5: f->rebuild(); break; case 6: a->add(any("new"), {}); break; case 7: a->remove({}); break; default: IndexVar::connect(f, b); f->build(); }
  if (nd_bool("then rebuild")) f->rebuild(); int w = nd_choice("node", 0, 2);
  current(w == 0 ? *f : w == 1 ? *a : *b, "the normalised form in a composite is that of the current indices", "the hash in a composite is that of the current indices"); cover("end");
}
PROOF(current_tree_change) { tree(0, 1); }
PROOF(current_tree_connect) { tree(2, 3); }
PROOF(current_tree_build) { tree(4, 5); }
PROOF(current_tree_below) { tree(6, 8); }
PROOF(current_change_rebuild) {   // change below, then rebuild: the composite reports the new indices
  auto f = IndexVar::create(), a = IndexVar::create(); fill(*a, seq("size", "index", 2)); IndexVar::connect(f, a); f->build(); if (nd_bool("cached")) { f->indices_normalized(); f->__hash__(); }
  int n = any("new"); if (nd_bool("remove")) { f->remove({0}); } else f->add(n, {0}); f->rebuild(); CHECK(now(*f) == now(*a), "rebuilding takes over the changed indices"); current(*f, "the normalised form after rebuilding is that of the current indices", "the hash after rebuilding is that of the current indices"); cover("end");
}
// longer sequences and more components, by example
PROOF(many) { for (int e = 0; e < 6; ++e) { Some s(e); V v; int n = 6 + 3 * e; for (int i = 0; i < n; ++i) v.push_back((int)s.below(e % 2 ? 7 : 1000000) - (e % 3 ? 3 : 500000)); if (e == 4) { v[2] = INT32_MAX; v[7] = INT32_MIN; } V r = fresh(v); canonical(v, r); CHECK(fresh(r) == r, "normalising twice changes nothing"); V w; for (int i : v) w.push_back(e == 4 ? 0 : 3 * i + 11); if (e != 4) CHECK(fresh(w) == r, "order-preserving renaming normalises identically"); } cover("end"); }
PROOF(many_components) {
  auto f = IndexVar::create(); Some s(7); std::vector<pIndexVar> c; for (int i = 0; i < 6; ++i) { auto a = IndexVar::create(); V v; for (int j = 0; j < 1 + i % 3; ++j) v.push_back((int)s.below(5)); fill(*a, v); c.push_back(a); IndexVar::connect(f, a, i % 2); } f->build(); current(*f, "the normalised form in a composite is that of the current indices", "the hash in a composite is that of the current indices");
  for (int i = 0; i < 6; ++i) { f->indices_normalized(); f->__hash__(); f->remove({i}); f->add((int)s.below(9), {i}); f->rebuild(); current(*f, "the normalised form after rebuilding is that of the current indices", "the hash after rebuilding is that of the current indices"); for (auto &a : c) current(*a, "the normalised form of a component is that of the current indices", "the hash of a component is that of the current indices"); } cover("end");
}
