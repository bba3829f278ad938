#include "verif.h"
#include "Interpreter/include/Interpreter.hpp"
#include "utils/IndexVar.h"
using INDEXVAR::IndexVar; using INDEXVAR::pIndexVar; using INDEXVAR::pInt; using TERM::pTerm; using TERM::Term; using STATEMENT::Statement; using COMPOUND::Compound; using VARIABLE::Variable; using VARIABLE::VarPrefix;
typedef std::vector<int> V; typedef std::vector<V> VV;
// OPT * init=1 search=40000
// OVERRIDE INDEXVAR::IndexVar::normalize\(\) => vf_normalize
// ASSUME the normalised form is a function of the indices (contract proved as C10); it is represented by the finest such function
// OVERRIDE ^INDEXVAR::IndexVar::build\(bool\) => vf_build
// ASSUME in build_step: a component's own build obeys the contract (the induction hypothesis over the nesting depth)
#ifdef VF_MODEL
extern "C" std::shared_ptr<V> vf_normalize(IndexVar *x) { auto r = std::make_shared<V>(); for (auto &p : x->indices) r->push_back(*p); x->_indices_normalized = r; return r; }
#endif
static int any(const char *n) { return (int)nd_small(n, INT32_MIN, INT32_MAX, -2, 3); }
// occurrences of one component: arbitrary indices at arbitrary positions
static void leaf(IndexVar &x, size_t maxn, size_t maxdepth) { size_t n = nd_size("occurrences", 0, maxn); for (size_t i = 0; i < n; ++i) { x.indices.push_back(pInt(new int(any("index")))); V p; size_t d = nd_size("depth", 0, maxdepth); for (size_t j = 0; j < d; ++j) p.push_back(any("position")); x.positions.push_back(p); } }
struct Occ { V idx; VV pos; };
static Occ occ(const IndexVar &x) { Occ o; for (auto &p : x.indices) o.idx.push_back(*p); o.pos = x.positions; return o; }
static bool eq(const Occ &a, const Occ &b) { return a.idx == b.idx && a.pos == b.pos; }
static Occ join(const std::vector<Occ> &cs) { Occ r; for (size_t c = 0; c < cs.size(); ++c) { for (int i : cs[c].idx) r.idx.push_back(i); for (auto &p : cs[c].pos) { V q; q.push_back((int)c); for (int i : p) q.push_back(i); r.pos.push_back(q); } } return r; }
static void mirrors(const IndexVar &x, const std::vector<Occ> &cs, const char *l) { CHECK(x.indices.size() == x.positions.size(), "as many positions as indices"); Occ o = occ(x), w = join(cs); CHECK(o.idx == w.idx, l); CHECK(o.pos == w.pos, l); }
#ifdef VF_MODEL
extern "C" void vf_build(IndexVar *x, bool re) { if (!__vf_marked(x, "component")) return x->build(re); if (!re && __vf_markof(x, "built")) return; x->indices.clear(); x->positions.clear(); leaf(*x, 1, 1); __vf_mark(x, "built", 1); }
static void component(pIndexVar c, size_t i) { __vf_mark(c.get(), "component", 1); __vf_mark(c.get(), "built", 0); }
static bool is_built(pIndexVar c) { return __vf_markof(c.get(), "built"); }
static void stale(pIndexVar c) { __vf_mark(c.get(), "built", 0); }
#else
static void component(pIndexVar c, size_t i) { auto l = IndexVar::create(); leaf(*l, 2, 2); IndexVar::connect(c, l); }
static bool is_built(pIndexVar c) { return eq(occ(*c), join({occ(*c->successors[0])})); }
static void stale(pIndexVar c) { leaf(*c->successors[0], 2, 2); }
#endif
PROOF(build) {
  auto f = IndexVar::create(); size_t n = nd_size("components", 0, 3); std::vector<pIndexVar> s; std::vector<Occ> cs;
  for (size_t i = 0; i < n; ++i) { auto c = IndexVar::create(); leaf(*c, n == 3 ? 1 : 2, 1); s.push_back(c); cs.push_back(occ(*c)); IndexVar::connect(f, c); }
  CHECK(f->successors.size() == n, "connecting adds one component"); f->build(); mirrors(*f, cs, "building lists the occurrences of the components");
  for (size_t i = 0; i < n; ++i) CHECK(eq(occ(*s[i]), cs[i]) && f->successors[i] == s[i], "building leaves the components alone");
  if (nd_bool("re")) f->rebuild(); else f->build(); mirrors(*f, cs, "building again gives the same result");
  for (size_t i = 0; i < n; ++i) CHECK(eq(occ(*s[i]), cs[i]), "building again leaves the components alone"); cover("end");
}
// induction over the nesting depth: a component obeys the contract of building (afterwards it lists arbitrary occurrences, fresh ones whenever it is built anew)
PROOF(build_step) {
  auto f = IndexVar::create(); size_t n = nd_size("components", 1, 2); std::vector<pIndexVar> s; std::vector<Occ> cs; for (size_t i = 0; i < n; ++i) { auto c = IndexVar::create(); component(c, i); IndexVar::connect(f, c); s.push_back(c); }
  bool re = nd_bool("re"); f->build(re); for (size_t i = 0; i < n; ++i) { CHECK(is_built(s[i]), "every component is built"); cs.push_back(occ(*s[i])); } mirrors(*f, cs, "building lists the occurrences of built components");
  for (size_t i = 0; i < n; ++i) stale(s[i]); f->rebuild(); cs.clear(); for (size_t i = 0; i < n; ++i) { CHECK(is_built(s[i]), "every component is rebuilt"); cs.push_back(occ(*s[i])); } mirrors(*f, cs, "rebuilding lists the occurrences of rebuilt components"); cover("end");
}
PROOF(positions) {   // positions of any depth up to 6, with every shorter one
  auto f = IndexVar::create(), a = IndexVar::create(), b = IndexVar::create(); leaf(*a, 1, 6); leaf(*b, 1, 0); IndexVar::connect(f, b, true); IndexVar::connect(f, a, true); Occ oa = occ(*a), ob = occ(*b); mirrors(*f, {ob, oa}, "connecting prefixes positions of any depth"); f->build(); mirrors(*f, {ob, oa}, "building prefixes positions of any depth"); CHECK(eq(occ(*a), oa), "building leaves deep positions alone");
  auto y = IndexVar::clone(a); CHECK(eq(occ(*y), oa), "a copy lists the same positions"); cover("end");
}
PROOF(rebuild_chain) {   // a change far below is followed
  auto a = IndexVar::create(); a->add(any("old"), {}); std::vector<pIndexVar> c{a}; size_t n = nd_size("nesting", 1, 4); for (size_t i = 0; i < n; ++i) { auto f = IndexVar::create(); IndexVar::connect(f, c.back()); if (i % 2) { auto l = IndexVar::create(); l->add(7, {}); IndexVar::connect(f, l); } c.push_back(f); }
  c.back()->build(); auto all = [&](const char *l) { for (size_t i = 1; i < c.size(); ++i) { std::vector<Occ> cs; for (auto &s : c[i]->successors) cs.push_back(occ(*s)); mirrors(*c[i], cs, l); } }; all("building builds every level"); int v = any("new"); if (nd_bool("remove")) a->remove({}); else a->add(v, {}); c.back()->rebuild(); all("rebuilding rebuilds every level"); cover("end");
}
PROOF(add_below) {   // adding and removing at a position of a composite
  auto f = IndexVar::create(), m = IndexVar::create(), a = IndexVar::create(), b = IndexVar::create(); IndexVar::connect(m, a); IndexVar::connect(m, b); IndexVar::connect(f, m); int x = any("x"), y = any("y"); a->add(x, {}); f->build(); auto p = f->add(y, {0, 1});
  CHECK(*p == y && b->indices.size() == 1 && b->indices[0] == p && b->positions.size() == 1 && b->positions[0].empty(), "adding at a position adds to the component there"); CHECK(a->indices.size() == 1 && *a->indices[0] == x, "adding at a position leaves other components alone"); f->rebuild(); CHECK(occ(*f).idx == (V{x, y}) && occ(*f).pos == (VV{{0, 0}, {0, 1}}), "the added occurrence is listed after rebuilding");
  f->remove({0, 0}); CHECK(a->indices.empty() && a->positions.empty() && b->indices.size() == 1, "removing at a position removes the occurrences there"); f->rebuild(); CHECK(occ(*f).idx == V{y} && occ(*f).pos == (VV{{0, 1}}), "the removed occurrence is gone after rebuilding"); cover("end");
}
PROOF(build_nested) {   // a component that is itself composite is built first
  auto f = IndexVar::create(), m = IndexVar::create(), a = IndexVar::create(), b = IndexVar::create(); leaf(*a, 2, 1); leaf(*b, 1, 1); IndexVar::connect(m, a); bool first = nd_bool("leaf first");
  if (first) IndexVar::connect(f, b); IndexVar::connect(f, m); if (!first) IndexVar::connect(f, b); f->build(); Occ om = join({occ(*a)}); CHECK(eq(occ(*m), om), "a composite component is built too");
  mirrors(*f, first ? std::vector<Occ>{occ(*b), om} : std::vector<Occ>{om, occ(*b)}, "building lists nested occurrences");
  int v = any("new"); a->add(v, {}); f->rebuild(); om = join({occ(*a)}); CHECK(a->indices.size() == 1 && *a->indices[0] == v, "adding at the top sets the single occurrence");
  mirrors(*f, first ? std::vector<Occ>{occ(*b), om} : std::vector<Occ>{om, occ(*b)}, "rebuilding follows a changed component"); cover("end");
}
PROOF(connect_after_build) {
  auto f = IndexVar::create(), a = IndexVar::create(), b = IndexVar::create(); leaf(*a, 2, 1); leaf(*b, 2, 1); IndexVar::connect(f, a); if (nd_bool("built")) f->build(); IndexVar::connect(f, b); f->build();
  mirrors(*f, {occ(*a), occ(*b)}, "a component connected later is listed as well"); cover("end");
}
PROOF(connect_positions) {   // connecting with positions lists the occurrences at once
  auto f = IndexVar::create(), a = IndexVar::create(), b = IndexVar::create(); leaf(*a, 2, 1); leaf(*b, 2, 1); Occ oa = occ(*a), ob = occ(*b); IndexVar::connect(f, a, true); IndexVar::connect(f, b, true);
  CHECK(eq(occ(*a), oa) && eq(occ(*b), ob), "connecting leaves the component alone"); mirrors(*f, {oa, ob}, "connecting with positions lists the occurrences"); f->build(); mirrors(*f, {oa, ob}, "building after connecting with positions gives the same"); cover("end");
}
PROOF(copy) {
  auto x = IndexVar::create(); leaf(*x, 2, 1); if (nd_bool("normalised")) x->indices_normalized(); if (nd_bool("hashed")) x->__hash__(); Occ o = occ(*x); auto y = IndexVar::clone(x);
  CHECK(y != x && eq(occ(*y), o) && eq(occ(*x), o), "a copy lists the same occurrences"); size_t h = x->__hash__(); CHECK(y->__hash__() == h, "a copy has the same hash"); V norm = *x->indices_normalized(); CHECK(*y->indices_normalized() == norm, "a copy has the same normalised form");
  for (size_t i = 0; i < x->indices.size(); ++i) CHECK(x->indices[i] != y->indices[i], "a copy has indices of its own"); if (x->_indices_normalized != nullptr) CHECK(x->_indices_normalized != y->_indices_normalized, "a copy has a normalised form of its own");
  int v = any("new"); switch (nd_choice("change", 0, 2)) { case 0: for (auto &p : y->indices) *p = v; break; case 1: y->add(v, {}); break; default: y->remove({}); }
  CHECK(eq(occ(*x), o) && *x->indices_normalized() == norm && x->__hash__() == h, "changing a copy leaves the original alone"); cover("end");
}
// a component term with arbitrary occurrences of the three kinds of variables
static pTerm part() { pTerm t(new Term()); leaf(*t->_vars_independent, 1, 1); leaf(*t->_vars_dependent, 1, 0); leaf(*t->_vars_query, 1, 0); t->has_ivar = t->_vars_independent->indices.size() > 0; t->has_dvar = t->_vars_dependent->indices.size() > 0; t->has_qvar = t->_vars_query->indices.size() > 0; t->has_var = t->has_ivar || t->has_dvar || t->has_qvar; return t; }
static void kinds(Term &t, const std::vector<pTerm> &cs, const char *l) { std::vector<Occ> i, d, q; for (auto &c : cs) { i.push_back(occ(*c->_vars_independent)); d.push_back(occ(*c->_vars_dependent)); q.push_back(occ(*c->_vars_query)); } mirrors(*t._vars_independent, i, l); mirrors(*t._vars_dependent, d, l); mirrors(*t._vars_query, q, l); }
PROOF(statement) { pTerm a = part(), b = part(); Statement s(a, COPULA::Copula::Inheritance, b, true); kinds(s, {a, b}, "a statement lists the variables of subject and predicate, each kind apart"); s._vars_dependent->rebuild(); s._vars_independent->rebuild(); s._vars_query->rebuild(); kinds(s, {a, b}, "rebuilding a statement's index gives the same"); cover("end"); }
PROOF(product) { std::vector<pTerm> c{part(), part()}; std::vector<pTerm> d = c; Compound s(CONNECTOR::Connector::Product, d, true); kinds(s, c, "a compound lists the variables of its components, each kind apart"); cover("end"); }
PROOF(variable_statement) {   // with real variables, as written in a text
  VarPrefix k[] = {VarPrefix::Independent, VarPrefix::Dependent, VarPrefix::Qeury}; int i = nd_choice("kind1", 0, 2), j = nd_choice("kind2", 0, 2), x = any("index1"), y = any("index2"); pTerm a(new Variable(k[i], "x")), b(new Variable(k[j], "y"));
  (i == 0 ? a->_vars_independent : i == 1 ? a->_vars_dependent : a->_vars_query)->add(x, {}); (j == 0 ? b->_vars_independent : j == 1 ? b->_vars_dependent : b->_vars_query)->add(y, {});
  Statement s(a, COPULA::Copula::Similarity, b, nd_bool("input")); IndexVar *v[] = {s._vars_independent.get(), s._vars_dependent.get(), s._vars_query.get()};
  for (int t = 0; t < 3; ++t) { V wi; VV wp; if (i == t) { wi.push_back(x); wp.push_back(V{0}); } if (j == t) { wi.push_back(y); wp.push_back(V{1}); } Occ o = occ(*v[t]); CHECK(o.idx == wi && o.pos == wp, "variables of a statement are listed under their own kind"); } cover("end");
}
// more components, occurrences and levels, by example
static void grow(IndexVar &x, Some &s, int n) { for (int i = 0; i < n; ++i) { x.indices.push_back(pInt(new int((int)s.below(6)))); V p; int d = s.below(4); for (int j = 0; j < d; ++j) p.push_back((int)s.below(9)); x.positions.push_back(p); } }
PROOF(many) {
  for (int e = 0; e < 2; ++e) {
    Some s(e); auto f = IndexVar::create(); std::vector<pIndexVar> m, a; for (int i = 0; i < 7; ++i) { auto c = IndexVar::create(); grow(*c, s, i % 4); a.push_back(c); }
    for (int i = 0; i < 3; ++i) { auto c = IndexVar::create(); IndexVar::connect(c, a[2 * i], e); IndexVar::connect(c, a[2 * i + 1], e); IndexVar::connect(c, a[6], e); m.push_back(c); } for (int i = 0; i < 6; ++i) IndexVar::connect(f, i % 2 ? a[i] : m[i / 2], e);
    auto all = [&](const char *l) { for (int i = 0; i < 3; ++i) mirrors(*m[i], {occ(*a[2 * i]), occ(*a[2 * i + 1]), occ(*a[6])}, l); std::vector<Occ> o; for (int i = 0; i < 6; ++i) o.push_back(occ(i % 2 ? *a[i] : *m[i / 2])); mirrors(*f, o, l); };
    if (e) all("connecting with positions lists the occurrences"); f->build(); all("building lists the occurrences of many components"); Occ before = occ(*f); auto y = IndexVar::clone(f); CHECK(eq(occ(*y), before), "a copy lists the same occurrences");
    f->add((int)s.below(9), {4, 1}); f->remove({1}); f->add(8, {0, 2}); f->rebuild(); all("rebuilding lists the occurrences of many components"); CHECK(eq(occ(*y), before), "changing the original leaves a copy alone");
  } cover("end");
}
