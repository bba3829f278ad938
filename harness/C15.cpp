#include "terms.h"
#include "Narsese/include/Narsese.h"
using INTERVAL::Interval; using OPERATION::Operation; using STATEMENT::pStatement; using COMPOUND::pCompound; typedef std::vector<pTerm> V;
// OPT * init=1 search=60000
// OPT hash_compound weight=9
// OVERRIDE ^TERM::Term::operator<\(TERM::Term&\) => vf_less
// OVERRIDE ^TERM::Term::operator==\(TERM::Term&\) => vf_equal
// OVERRIDE ^TERM::Term::clone\(TERM::pTerm\) => vf_clone
// OVERRIDE ^INDEXVAR::IndexVar::build\(bool\) => vf_build
// MERGE ^bool std::any_of
// MERGE ^(void )?TERM::Term::_build_indexvars
// ASSUME building the occurrence index touches nothing but that index (contract proved as C11)
// ASSUME components have complexities up to 2^24 (sums do not overflow)
// ASSUME cloning a component gives the same term or one that agrees with it in every attribute (contract proved as C16)
// ASSUME the order of the components is a strict weak order (proved as C06), given by ranks
// ASSUME composites have at least one component (an empty reducible compound is outside the constructors' precondition)
#ifdef VF_MODEL
extern "C" void vf_build(INDEXVAR::IndexVar *x, bool re) { x->_is_built = true; }
extern "C" pTerm vf_clone(pTerm t) {
  if (!t->has_var) return t;
  pTerm u(new Term()); u->type = t->type; u->has_var = t->has_var; u->has_ivar = t->has_ivar; u->has_dvar = t->has_dvar; u->has_qvar = t->has_qvar; u->is_operation = t->is_operation; u->hash_value = t->hash_value; u->complexity = t->complexity; u->connector = t->connector;
  __vf_mark(u.get(), "rank", __vf_markof(t.get(), "rank")); __vf_mark(u.get(), "cls", __vf_markof(t.get(), "cls")); return u;
}
#endif
// a component of any complexity; natively any kind of term
static pTerm comp() {
#ifdef VF_MODEL
  pTerm t = part(); t->complexity = nd_int("complexity", 1, 1 << 24); return t;
#else
  auto plain = [] { pTerm t(new Term()); t->hash_value = 2 * nd_u64("hash"); return t; };
  switch (nd_choice("component", 0, 4)) { case 0: return any_variable().t; case 1: return pTerm(new Operation()); case 2: return pTerm(new Compound(CONNECTOR::Product, {plain(), any_variable().t}, true)); case 3: return pTerm(new Statement(plain(), COPULA::Implication, any_variable().t, true)); default: return plain(); }
#endif
}
static uint64_t place(Term &t) {
#ifdef VF_MODEL
  return __vf_marked(&t, "rank") ? __vf_markof(&t, "rank") : 0;
#else
  return 0;
#endif
}
static bool like(Term &a, Term &b) { return (int)(a.type == b.type) & (int)(a.has_var == b.has_var) & (int)(a.has_ivar == b.has_ivar) & (int)(a.has_dvar == b.has_dvar) & (int)(a.has_qvar == b.has_qvar) & (int)(a.hash_value == b.hash_value) & (int)(a.complexity == b.complexity) & (int)(place(a) == place(b)); }
// a component as given, or (when built from clones) a clone of it
static bool part_is(const pTerm &a, const pTerm &b, bool input) { int var = b->has_var, s = a.get() == b.get(), l = like(*a, *b), in = input; return (s & (in | !var)) | (!s & !in & var & l); }
static void variables(Term &t, const V &c) {
  int i = 0, d = 0, q = 0, v = 0; for (auto &x : c) { i |= (int)x->has_ivar; d |= (int)x->has_dvar; q |= (int)x->has_qvar; v |= (int)x->has_var; }
  CHECK(t.has_ivar == (bool)i, "contains independent variables iff a component does"); CHECK(t.has_dvar == (bool)d, "contains dependent variables iff a component does"); CHECK(t.has_qvar == (bool)q, "contains query variables iff a component does"); CHECK(t.has_var == (bool)v, "contains variables iff a component does");
  CHECK(!t.is_var && !t.is_ivar && !t.is_dvar && !t.is_qvar && !t.is_interval, "a composite is neither a variable nor an interval");
}
static void flags_of(Term &t, const V &c) { int i = 0, d = 0, q = 0, v = 0; for (auto &x : c) { i |= (int)x->has_ivar; d |= (int)x->has_dvar; q |= (int)x->has_qvar; v |= (int)x->has_var; } t.has_ivar = i; t.has_dvar = d; t.has_qvar = q; t.has_var = v; }
static void own_rank(pTerm t) {
#ifdef VF_MODEL
  __vf_mark(t.get(), "rank", nd_u64("nested rank"));
#endif
}
static Statement &stat(Term &t) { return (Statement &)t; }
static void statement(Term &t, const pTerm &s, COPULA::Copula k, const pTerm &p, bool input, bool operation) {
  CHECK(t.type == TermType::STATEMENT && t.is_statement() && !t.is_atom() && !t.is_compound(), "a statement is of that type"); CHECK(t.copula == k, "a statement has the given copula"); CHECK(part_is(t.subject, s, input), "a statement has the given subject"); CHECK(part_is(t.predicate, p, input), "a statement has the given predicate");
  variables(t, {s, p}); CHECK(t.complexity == 1 + s->complexity + p->complexity, "a statement's complexity is one plus both");
  bool comm = (k == COPULA::Similarity) | (k == COPULA::Equivalence) | (k == COPULA::ConcurrentEquivalence); CHECK(stat(t).is_commutative == comm, "a statement is commutative iff its copula is"); CHECK(t.is_higher_order == (k >= COPULA::Implication), "a statement is higher-order iff its copula is");
  CHECK(t.is_operation == operation, "a statement is an operation iff it is the inheritance of a product to an operator"); CHECK(t.is_hashed && t.__hash__() == t.hash_value, "a statement is hashed");
}
PROOF(statement_plain) { pTerm s = comp(), p = comp(); COPULA::Copula k = any_copula(); bool in = nd_bool("input"); if (vf_native) assume(!p->is_operation); Statement t(s, k, p, in); statement(t, s, k, p, in, false); cover("end"); }
PROOF(statement_same) { pTerm s = comp(); assume(!s->is_operation); COPULA::Copula k = any_copula(); bool in = nd_bool("input"); Statement t(s, k, s, in); statement(t, s, k, s, in, false); cover("end"); }
PROOF(statement_create) { pTerm s = comp(), p = comp(); COPULA::Copula k = any_copula(); if (vf_native) assume(!p->is_operation); pStatement t = Statement::create(s, k, p); statement(*t, s, k, p, false, false); cover("end"); }
// the predicate is an operator, or itself an operation; the subject is of any shape
PROOF(statement_operation) {
  pTerm s = comp(), p; bool product = nd_bool("compound subject"); CONNECTOR::Connector con = any_connector(); if (product) { s = pTerm(new Compound(CONNECTOR::Product, {part(), part()}, true)); s->connector = con; }
  bool op = nd_bool("operator"); if (op) p = pTerm(new Operation(nd_bool("mental"))); else { p = pTerm(new Statement(part(), COPULA::Inheritance, part(), true)); p->is_operation = nd_bool("operation"); }
  COPULA::Copula k = any_copula(); Statement t(s, k, p, true); statement(t, s, k, p, true, op && s->is_compound() && s->connector == CONNECTOR::Product && k == COPULA::Inheritance); cover("end");
}
static Compound &cmpd(Term &t) { return (Compound &)t; }
static bool commutative(CONNECTOR::Connector c) { return (1u << CONNECTOR::Conjunction | 1u << CONNECTOR::Disjunction | 1u << CONNECTOR::ParallelEvents | 1u << CONNECTOR::IntensionalIntersection | 1u << CONNECTOR::ExtensionalIntersection | 1u << CONNECTOR::IntensionalSet | 1u << CONNECTOR::ExtensionalSet) >> c & 1; }
static void compound(Term &t, CONNECTOR::Connector k, const V &c, bool input) {
  CHECK(t.type == TermType::COMPOUND && t.is_compound() && !t.is_atom() && !t.is_statement(), "a compound is of that type"); CHECK(t.connector == k, "a compound has the given connector");
  CHECK(cmpd(t).is_commutative == commutative(k) && t.terms->_is_commutative == commutative(k), "a compound is commutative iff its connector is"); CHECK(!t.is_operation && !t.is_higher_order, "a compound is neither higher-order nor an operation");
  V w = *t.terms; int sum = 0; for (auto &x : w) sum += x->complexity; CHECK(t.complexity == sum, "a compound's complexity is the sum of its components'"); variables(t, w); CHECK(t.is_hashed && t.__hash__() == t.hash_value, "a compound is hashed");
  if (!commutative(k)) { bool s = w.size() == c.size(); for (size_t i = 0; i < w.size() && i < c.size(); ++i) s &= part_is(w[i], c[i], input); CHECK(s, "a compound has the given components in the given order"); }
  else {
    for (auto &x : c) { int in = 0; for (auto &y : w) in |= vf_native ? !(*x < *y) && !(*y < *x) : rank(*x) == rank(*y); CHECK(in, "a commutative compound represents every component"); }
    for (auto &y : w) { int in = 0; for (auto &x : c) in |= (int)part_is(y, x, input); CHECK(in, "a commutative compound has given components only"); }
    for (size_t i = 1; i < w.size(); ++i) CHECK(vf_native ? *w[i - 1] < *w[i] : rank(*w[i - 1]) < rank(*w[i]), "a commutative compound holds every component once");
  }
}
static CONNECTOR::Connector pick() { return any_connector(); }
static V any(size_t max) { V v; size_t n = nd_size("components", 1, max); for (size_t i = 0; i < n; ++i) v.push_back(comp()); if (vf_native) for (auto &x : v) { assume(!x->is_compound()); for (auto &y : v) coherent(*x, *y); } return v; }
PROOF(compound_vector) { CONNECTOR::Connector k = pick(); V v = any(3), c = v; bool in = nd_bool("input"); Compound t(k, v, in); compound(t, k, c, in); cover("end"); }
PROOF(compound_list) { CONNECTOR::Connector k = pick(); V v = any(3); std::list<pTerm> l(v.begin(), v.end()); bool in = nd_bool("input"); Compound t(k, l, in); compound(t, k, v, in); cover("end"); }
PROOF(compound_other) {
  CONNECTOR::Connector k = pick(); V v = any(1); pTerm a = v[0]; V w = any(1); pTerm b = w[0]; bool in = nd_bool("input");
  switch (nd_choice("how", 0, 4)) { case 0: { Compound t(k, {a, b}, in); compound(t, k, {a, b}, in); break; } case 1: { Compound t(k, a, in); compound(t, k, {a}, in); break; } case 2: { V c{a, b}; pTerms s(new Terms(c, commutative(k))); Compound t(k, s, in); compound(t, k, c, in); break; }
    case 3: { V c{a, b}; pCompound t = Compound::create(k, c); compound(*t, k, {a, b}, false); break; } default: { pTerm s = Compound::ExtensionalSet({a, b}); compound(*s, CONNECTOR::ExtensionalSet, {a, b}, false); pTerm q = Compound::IntensionalSet({a}); compound(*q, CONNECTOR::IntensionalSet, {a}, false); } } cover("end");
}
// components that are compounds themselves: whatever Narsese's reduction leaves (C19), the attributes are those of the remaining components
static pTerm nested(CONNECTOR::Connector k, size_t max) { V e{comp()}; if (max > 1) e.push_back(comp()); if (vf_native) for (auto &x : e) assume(!x->is_compound()); V z{e[0]}; pTerm t(new Compound(CONNECTOR::Product, z, true)); t->connector = k; cmpd(*t).is_commutative = commutative(k); t->terms = pTerms(new Terms(e, commutative(k))); t->complexity = nd_int("nested complexity", 1, 1 << 24); t->hash_value = nd_u64("nested hash"); flags_of(*t, e); own_rank(t); return t; }
static void attributes(Term &t) { V w = *t.terms; int sum = 0; for (auto &x : w) sum += x->complexity; CHECK(t.complexity == sum, "a compound's complexity is the sum of its remaining components'"); variables(t, w); CHECK(cmpd(t).is_commutative == commutative(t.connector) && t.terms->_is_commutative == commutative(t.connector), "a compound is commutative iff its connector is"); CHECK(!t.is_operation && !t.is_higher_order && t.is_compound(), "a compound is neither higher-order nor an operation"); CHECK(t.is_hashed && t.__hash__() == t.hash_value, "a compound is hashed"); }
PROOF(compound_nested) { CONNECTOR::Connector k = pick(); V v{nested(any_connector(), 1), comp()}; if (vf_native) assume(!v[1]->is_compound()); Compound t(k, v, true); attributes(t); cover("end"); }
PROOF(compound_sets) { CONNECTOR::Connector k = nd_bool("extensional") ? CONNECTOR::ExtensionalIntersection : CONNECTOR::IntensionalIntersection, s = nd_bool("extset") ? CONNECTOR::ExtensionalSet : CONNECTOR::IntensionalSet; V v{nested(s, 2), nested(s, 1)}; Compound t(k, v, true); attributes(t); cover("end"); }
// the hash is a function of the structure: built again from equal components
static pTerm again(const pTerm &t) {
#ifdef VF_MODEL
  pTerm u = part(); u->hash_value = t->hash_value; u->has_ivar = t->has_ivar; u->has_dvar = t->has_dvar; u->has_qvar = t->has_qvar; u->has_var = t->has_var; u->complexity = t->complexity; assume(cls(*u) == cls(*t) && rank(*u) == rank(*t)); return u;
#else
  return Term::clone(t);
#endif
}
PROOF(hash_statement) { pTerm s = comp(), p = comp(); COPULA::Copula k = any_copula(); Statement a(s, k, p, nd_bool("input")); pTerm s2 = again(s), p2 = again(p); Statement b(s2, k, p2, nd_bool("input")); CHECK(a.hash_value == b.hash_value, "building a statement again gives the same hash"); CHECK(a.complexity == b.complexity, "building a statement again gives the same complexity"); cover("end"); }
PROOF(hash_compound) { CONNECTOR::Connector k = pick(); V v = any(3), w; for (auto &x : v) w.push_back(again(x)); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) { coherent(*v[i], *v[j]); assume(rank(*v[i]) != rank(*v[j]) || v[i]->hash_value == v[j]->hash_value); } bool in = v.size() > 2 || nd_bool("input"); Compound a(k, v, in), b(k, w, true); CHECK(a.hash_value == b.hash_value, "building a compound again gives the same hash"); cover("end"); }
PROOF(hash_set_order) { pTerm a = comp(), b = comp(); assume(rank(*a) != rank(*b)); if (vf_native) assume(!a->is_compound() && !b->is_compound()); CONNECTOR::Connector k = pick(); Compound x(k, {a, b}, true), y(k, {b, a}, true); if (commutative(k)) CHECK(x.hash_value == y.hash_value, "the order of writing does not matter for a commutative compound"); cover("end"); }
// terms without components
static void leaf(Term &t) { CHECK(t.type == TermType::ATOM && t.is_atom() && !t.is_statement() && !t.is_compound(), "an atom is of that type"); CHECK(t.complexity == 1, "an atom's complexity is one"); CHECK(!t.is_higher_order, "an atom is not higher-order"); CHECK(t.is_hashed && t.__hash__() == t.hash_value, "an atom is hashed"); CHECK(t._vars_independent != nullptr && t._vars_dependent != nullptr && t._vars_query != nullptr && t._vars_independent != t._vars_dependent && t._vars_dependent != t._vars_query && t._vars_independent != t._vars_query, "every term has an index per kind of variable"); }
PROOF(atoms) { Term t, u; pTerm w = Term::create(); leaf(t); leaf(*w); CHECK(!t.has_var && !t.has_ivar && !t.has_dvar && !t.has_qvar && !t.is_var && !t.is_operation && !t.is_interval, "a plain atom has no variables"); CHECK(!w->has_var && !w->is_operation, "a created atom is plain"); CHECK(t._vars_independent != u._vars_independent, "atoms share no index"); cover("end"); }
PROOF(operators) { Operation o(nd_bool("mental")); leaf(o); CHECK(o.is_operation && !o.has_var && !o.is_var && !o.is_interval, "an operator is one"); Operation p(true), q; CHECK(p.is_mental_operation && !q.is_mental_operation, "an operator is mental iff made so"); cover("end"); }
PROOF(intervals) { int n = nd_small("interval", INT32_MIN, INT32_MAX, -3, 3), m = nd_small("interval", INT32_MIN, INT32_MAX, -3, 3); Interval a(n), b(n), c(m); leaf(a); CHECK(a.is_interval && !a.is_operation && !a.has_var && !a.is_var, "an interval is one"); CHECK((int)a == n, "an interval has the given length"); CHECK(a.hash_value == b.hash_value, "intervals of equal length have equal hashes"); long s = (long)n + m; assume(s >= INT32_MIN && s <= INT32_MAX); Interval d = a + c; CHECK((int)d == n + m && d.is_interval && (int)a == n && (int)c == m, "intervals add up"); CHECK(d.hash_value == Interval(n + m).hash_value, "a sum is hashed like any interval of its length"); a += c; CHECK((int)a == n + m, "an interval is extended in place"); CHECK(a.__hash__() == d.hash_value, "an extended interval is hashed like any interval of its length"); cover("end"); }
PROOF(variables) {
  int k = nd_choice("kind", 0, 2); std::string s = nd_str("name"); Variable v(KINDS[k], s), w(KINDS[k], "other"); leaf(v); CHECK(v.prefix == KINDS[k] && v.name == s, "a variable has the given kind and name"); CHECK(v.is_var && v.has_var && !v.is_operation && !v.is_interval, "a variable is one");
  CHECK(v.is_ivar == (k == 0) && v.has_ivar == (k == 0) && v.is_dvar == (k == 1) && v.has_dvar == (k == 1) && v.is_qvar == (k == 2) && v.has_qvar == (k == 2), "a variable is of exactly its kind"); CHECK(v.hash_value == w.hash_value, "variables of one kind have equal hashes"); size_t h = v.hash_value; CHECK(v.do_hashing() == h, "hashing again gives the same"); cover("end");
}
PROOF(rehash) { pTerm s = comp(), p = comp(); COPULA::Copula k = any_copula(); Statement t(s, k, p, true); if (!t.has_var) { size_t h = t.hash_value; CHECK(t.do_hashing() == h, "hashing a statement again gives the same"); } if (!vf_native || (!s->is_compound() && !p->is_compound())) { Compound c(CONNECTOR::Product, {s, p}, true); if (!c.has_var) { size_t g = c.hash_value; CHECK(c.do_hashing() == g, "hashing a compound again gives the same"); } } cover("end"); }
// more components, by example
static pTerm comp_at(uint64_t r) { pTerm t = part_at(r, r, vf_native ? 0 : r % 8); t->complexity = 1 + r * r; return t; }
static void many(bool input) {
  for (int e = 0; e < 2; ++e) for (CONNECTOR::Connector k : {CONNECTOR::Conjunction, CONNECTOR::Product, CONNECTOR::ExtensionalSet}) { CONNECTOR::Connector con = k; Some s(k); V v; int n = 5 + 2 * e; for (int i = 0; i < n; ++i) v.push_back(comp_at(e ? s.below(2 * n) : n + (i % 2 ? i : -i))); if (e) v.push_back(v[2]); V c = v, d(v.rbegin(), v.rend()); Compound t(con, v, input); compound(t, con, c, input); if (commutative(con)) { V b = d; Compound u(con, b, true); CHECK(u.hash_value == t.hash_value && u.complexity == t.complexity, "the order of writing does not matter for a commutative compound"); } } cover("end");
}
PROOF(many_input) { many(true); }
PROOF(many_cloned) { many(false); }
