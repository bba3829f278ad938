#include "terms.h"
#include "utils/IndexVar.h"
#include "Narsese/include/Narsese.h"
using INDEXVAR::IndexVar; using INDEXVAR::pIndexVar; using INDEXVAR::pInt; using CONNECTOR::Connector; typedef std::vector<pTerm> V; typedef std::vector<int> I; typedef std::vector<I> II;
// OPT * init=1 search=60000
// OVERRIDE ^TERM::Term::operator<\(TERM::Term&\) => vf_less
// OVERRIDE ^TERM::Term::operator==\(TERM::Term&\) => vf_equal
// OVERRIDE ^TERM::Term::clone\(TERM::pTerm\) => vf_clone
// OVERRIDE ^INDEXVAR::IndexVar::normalize\(\) => vf_normalize
// MERGE ^bool std::any_of
// ASSUME the induction hypothesis over the nesting depth: cloning a component obeys the contract proved here for composites and variables
// ASSUME the normalised form is a function of the indices (contract proved as C10)
// ASSUME the order of the components is a strict weak order (proved as C06), given by ranks; a clone has the place of its original
static int any(const char *n) { return (int)nd_small(n, INT32_MIN, INT32_MAX, -2, 3); }
struct Occ { I idx; II pos; };
static Occ occ(const IndexVar &x) { Occ o; for (auto &p : x.indices) o.idx.push_back(*p); o.pos = x.positions; return o; }
static bool eq(const Occ &a, const Occ &b) { return (int)(a.idx == b.idx) & (int)(a.pos == b.pos); }
#ifdef VF_MODEL
extern "C" std::shared_ptr<I> vf_normalize(IndexVar *x) { auto r = std::make_shared<I>(); for (auto &p : x->indices) r->push_back(*p); x->_indices_normalized = r; return r; }
// the contract of cloning, used for the components
extern "C" pTerm vf_clone(pTerm t) {
  if (!__vf_marked(t.get(), "component")) return Term::clone(t);
  if (!t->has_var) return t;
  pTerm u(new Term()); u->type = t->type; u->has_var = t->has_var; u->has_ivar = t->has_ivar; u->has_dvar = t->has_dvar; u->has_qvar = t->has_qvar; u->hash_value = t->hash_value; u->complexity = t->complexity; u->is_operation = t->is_operation; u->is_higher_order = t->is_higher_order;
  u->_vars_independent = IndexVar::clone(t->_vars_independent); u->_vars_dependent = IndexVar::clone(t->_vars_dependent); u->_vars_query = IndexVar::clone(t->_vars_query);
  __vf_mark(u.get(), "component", 1); __vf_mark(u.get(), "clone of", (uint64_t)t.get()); __vf_mark(u.get(), "rank", __vf_markof(t.get(), "rank")); __vf_mark(u.get(), "cls", __vf_markof(t.get(), "cls")); return u;
}
static bool clone_of(const pTerm &u, const pTerm &t) { return __vf_marked(u.get(), "clone of") && __vf_markof(u.get(), "clone of") == (uint64_t)t.get(); }
static void leaf(IndexVar &x, bool some) { if (!some) return; x.indices.push_back(pInt(new int(any("index")))); I p; if (nd_bool("deep")) p.push_back(any("position")); x.positions.push_back(p); }
static pTerm comp() { pTerm t = part(); t->complexity = nd_int("complexity", 1, 1 << 24); __vf_mark(t.get(), "component", 1); int k = nd_choice("variables", 0, 4); t->has_ivar = k == 1 || k == 4; t->has_dvar = k == 2; t->has_qvar = k == 3 || k == 4; t->has_var = k > 0; leaf(*t->_vars_independent, k == 1 || k == 4); leaf(*t->_vars_dependent, k == 2); leaf(*t->_vars_query, k == 3 || k == 4); return t; }
#else
static bool agree(Term &a, Term &b);
static bool clone_of(const pTerm &u, const pTerm &t) { return u != t && agree(*u, *t); }
static pTerm real_variable() { int k = nd_choice("kind", 0, 2); pTerm v(new Variable(KINDS[k], "v" + std::to_string(nd_choice("name", 0, 2)))); (k == 0 ? v->_vars_independent : k == 1 ? v->_vars_dependent : v->_vars_query)->add(any("index"), {}); return v; }
static pTerm comp() { auto atom = [] { pTerm t(new Term()); t->hash_value = 7 + nd_u64("rank"); return t; }; switch (nd_choice("component", 0, 5)) { case 0: return real_variable(); case 1: return pTerm(new Compound(CONNECTOR::Product, {atom(), real_variable()}, true)); case 2: return pTerm(new Statement(real_variable(), COPULA::Implication, real_variable(), true)); case 3: return pTerm(new Compound(CONNECTOR::ExtensionalSet, {atom()}, true)); case 4: return pTerm(new Statement(pTerm(new Compound(CONNECTOR::ExtensionalSet, {real_variable(), atom()}, true)), COPULA::Inheritance, atom(), true)); default: return atom(); } }
#endif
static bool cloned(const pTerm &u, const pTerm &t) { return t->has_var ? u.get() != t.get() && clone_of(u, t) : u.get() == t.get(); }
static IndexVar *index(Term &t, int k) { return (k == 0 ? t._vars_independent : k == 1 ? t._vars_dependent : t._vars_query).get(); }
// every attribute but the components
static void attributes(Term &a, Term &b) {
  CHECK(a.type == b.type, "a clone has the same type"); CHECK(a.copula == b.copula && a.connector == b.connector, "a clone has the same copula and connector");
  CHECK((int)(a.is_var == b.is_var) & (int)(a.is_ivar == b.is_ivar) & (int)(a.is_dvar == b.is_dvar) & (int)(a.is_qvar == b.is_qvar), "a clone is a variable of the same kind"); CHECK((int)(a.has_var == b.has_var) & (int)(a.has_ivar == b.has_ivar) & (int)(a.has_dvar == b.has_dvar) & (int)(a.has_qvar == b.has_qvar), "a clone has variables of the same kinds");
  CHECK(a.is_closed == b.is_closed, "a clone is closed iff the original is"); CHECK(a.is_interval == b.is_interval, "a clone is an interval iff the original is"); CHECK(a.is_operation == b.is_operation, "a clone is an operation iff the original is"); CHECK(a.is_higher_order == b.is_higher_order, "a clone is of the same order");
  CHECK(a.complexity == b.complexity, "a clone has the same complexity"); CHECK(a.is_hashed == b.is_hashed && a.hash_value == b.hash_value, "a clone has the same hash");
  for (int k = 0; k < 3; ++k) { CHECK(eq(occ(*index(a, k)), occ(*index(b, k))), "a clone lists the same variable occurrences"); CHECK(index(a, k) != index(b, k), "a clone has an index of its own"); for (auto &p : index(a, k)->indices) for (auto &q : index(b, k)->indices) CHECK(p != q, "a clone has variable indices of its own"); }
}
#ifndef VF_MODEL
static bool agree(Term &a, Term &b) {
  attributes(a, b); if (a.is_var) return ((Variable &)a).name == ((Variable &)b).name && ((Variable &)a).prefix == ((Variable &)b).prefix; if (a.is_statement()) return cloned(a.subject, b.subject) && cloned(a.predicate, b.predicate);
  if (!a.is_compound()) return false; V x = *a.terms, y = *b.terms; bool r = x.size() == y.size(); for (size_t i = 0; r && i < x.size(); ++i) r = cloned(x[i], y[i]); return r;
}
#endif
// arbitrary values of the attributes that cloning has to carry over
static void scramble(Term &t) { if (vf_native && !nd_bool("scramble")) return; t.is_closed = nd_bool("closed"); t.is_operation = nd_bool("operation"); t.is_higher_order = nd_bool("higher order"); t.is_interval = nd_bool("interval"); t.complexity = nd_int("complexity", 1, 1 << 28); t.hash_value = vf_native ? nd_choice("hash", 1, 9) : nd_u64("hash"); t.is_hashed = true; }
// changing the clone's variables leaves the original alone and the other way round
static void independent(Term &a, Term &b, const V &ca, const V &cb) {
  Occ before[3]; for (int k = 0; k < 3; ++k) before[k] = occ(*index(b, k)); int v = any("new"); for (auto &c : ca) if (c->has_var) for (int k = 0; k < 3; ++k) { for (auto &p : index(*c, k)->indices) *p = v; if (index(*c, k)->indices.size() && vf_native) index(*c, k)->add(v, {}); } for (int k = 0; k < 3; ++k) index(a, k)->rebuild();
  for (int k = 0; k < 3; ++k) { CHECK(eq(occ(*index(b, k)), before[k]), "changing a clone leaves the original's occurrences alone"); index(b, k)->rebuild(); CHECK(eq(occ(*index(b, k)), before[k]), "changing a clone leaves the original's components alone"); }
}
static void statement(bool clone_first) {
  pTerm s = comp(), p = comp(); COPULA::Copula k = any_copula(); pTerm t(new Statement(s, k, p, true)); scramble(*t); pTerm c = Term::clone(t);
  if (!t->has_var) { CHECK(c.get() == t.get(), "a variable-free statement is its own clone"); cover("same"); return; }
  CHECK(c.get() != t.get(), "a clone is another object"); attributes(*c, *t); CHECK(((Statement &)*c).is_commutative == ((Statement &)*t).is_commutative, "a clone is commutative iff the original is"); CHECK(cloned(c->subject, s), "the subject is cloned"); CHECK(cloned(c->predicate, p), "the predicate is cloned"); CHECK(t->subject.get() == s.get() && t->predicate.get() == p.get(), "cloning leaves the original's components");
  if (clone_first) independent(*c, *t, {c->subject, c->predicate}, {s, p}); else independent(*t, *c, {s, p}, {c->subject, c->predicate}); cover("end");
}
PROOF(clone_statement) { statement(true); }
PROOF(change_statement) { statement(false); }
static void compound(V v, bool set, bool clone_first) {
  Connector k = set ? CONNECTOR::ExtensionalSet : CONNECTOR::Product; pTerm t; V w = v; if (vf_native) for (auto &x : v) assume(!set || !x->is_compound()); t = pTerm(new Compound(k, w, true));
  if (!vf_native) { Connector any = any_connector(); bool c = (1u << CONNECTOR::Conjunction | 1u << CONNECTOR::Disjunction | 1u << CONNECTOR::ParallelEvents | 1u << CONNECTOR::IntensionalIntersection | 1u << CONNECTOR::ExtensionalIntersection | 1u << CONNECTOR::IntensionalSet | 1u << CONNECTOR::ExtensionalSet) >> any & 1; assume(c == set); t->connector = any; }
  scramble(*t); V e = *t->terms; pTerm c = Term::clone(t);
  if (!t->has_var) { CHECK(c.get() == t.get(), "a variable-free compound is its own clone"); cover("same"); return; }
  CHECK(c.get() != t.get(), "a clone is another object"); attributes(*c, *t); CHECK(((Compound &)*c).is_commutative == ((Compound &)*t).is_commutative, "a clone is commutative iff the original is"); CHECK(c->terms != t->terms && c->terms->_is_commutative == t->terms->_is_commutative, "a clone has a component list of its own, of the same kind");
  V f = *c->terms; CHECK(f.size() == e.size(), "a clone has as many components"); for (size_t i = 0; i < e.size() && i < f.size(); ++i) CHECK(cloned(f[i], e[i]), "the components are cloned in order"); V g = *t->terms; CHECK(g.size() == e.size(), "cloning leaves the original's components"); for (size_t i = 0; i < e.size(); ++i) CHECK(g[i].get() == e[i].get(), "cloning leaves the original's components");
  if (clone_first) independent(*c, *t, f, e); else independent(*t, *c, e, f); cover("end");
}
static void compound(size_t n, bool set, bool clone_first) { V v; for (size_t i = 0; i < n; ++i) v.push_back(comp()); compound(v, set, clone_first); }
PROOF(clone_one) { compound(1, false, nd_bool("first")); }
PROOF(clone_list) { compound(2, false, true); }
PROOF(change_list) { compound(2, false, false); }
PROOF(clone_set) { compound(2, true, true); }
PROOF(change_set) { compound(2, true, false); }
PROOF(clone_variable) {
  int k = nd_choice("kind", 0, 2); pTerm t(new Variable(KINDS[k], nd_str("name"))); t->is_closed = nd_bool("closed"); bool has = nd_bool("indexed"); int i = any("index"); if (has) index(*t, k)->add(i, {}); pTerm c = Term::clone(t);
  CHECK(c.get() != t.get(), "a cloned variable is another object"); attributes(*c, *t); CHECK(((Variable &)*c).prefix == KINDS[k] && ((Variable &)*t).prefix == KINDS[k], "a cloned variable is of the same kind"); CHECK(((Variable &)*c).name == ((Variable &)*t).name, "a cloned variable has the same name");
  CHECK(c->subject == nullptr && c->predicate == nullptr && c->terms == nullptr, "a variable has no components"); int v = any("new"); pTerm a = c, b = t; if (nd_bool("swap")) { a = t; b = c; } Occ o = occ(*index(*b, k)); if (has) *index(*a, k)->indices[0] = v; CHECK(eq(occ(*index(*b, k)), o), "changing a variable leaves its clone alone"); index(*a, k)->add(v, {}); CHECK(eq(occ(*index(*b, k)), o), "adding to a variable leaves its clone alone"); cover("end");
}
PROOF(clone_atom) { pTerm t(new Term()); scramble(*t); pTerm c = Term::clone(t); CHECK(c.get() == t.get(), "an atom is its own clone"); pTerm o(new OPERATION::Operation()); CHECK(Term::clone(o).get() == o.get(), "an operator is its own clone"); cover("end"); }
PROOF(clone_twice) { pTerm s = comp(), p = comp(); assume(s->has_var); pTerm t(new Statement(s, any_copula(), p, true)); pTerm c = Term::clone(t), d = Term::clone(c); attributes(*d, *t); CHECK(d.get() != c.get() && d.get() != t.get(), "a clone of a clone is another object"); CHECK(cloned(d->subject, c->subject) && cloned(d->predicate, c->predicate), "a clone of a clone has cloned components"); cover("end"); }
// more components, by example: some with variables of several kinds and occurrences, some without
#ifdef VF_MODEL
static pTerm comp_at(uint64_t r, int flags, Some &s) { pTerm t = part_at(r, r, flags); t->complexity = 1 + r; __vf_mark(t.get(), "component", 1); for (int k = 0; k < 3; ++k) if (flags >> k & 1) for (uint64_t i = 0; i <= r % 3; ++i) { index(*t, k)->indices.push_back(pInt(new int((int)s.below(5)))); I p; for (uint64_t j = s.below(3); j > 0; --j) p.push_back((int)s.below(4)); index(*t, k)->positions.push_back(p); } return t; }
#else
static pTerm comp_at(uint64_t r, int flags, Some &s) { pTerm a(new Term()); a->hash_value = 7000 + r; if (!flags) return a; V c{a}; for (int k = 0; k < 3; ++k) if (flags >> k & 1) { pTerm v(new Variable(KINDS[k], "v")); index(*v, k)->add((int)s.below(5), {}); c.push_back(v); } return pTerm(new Compound(CONNECTOR::Product, c, true)); }
#endif
static void many(bool set, bool clone_first) { Some s(set); V v; int f[] = {0, 1, 5, 0, 2, 7, 0, 4}; for (int i = 0; i < 8; ++i) v.push_back(comp_at(i == 6 ? 1 : 3 + i, f[i], s)); compound(v, set, clone_first); }
PROOF(many_list) { many(false, true); }
PROOF(many_list_change) { many(false, false); }
PROOF(many_set) { if (!vf_native) many(true, true); }
PROOF(many_set_change) { if (!vf_native) many(true, false); }
