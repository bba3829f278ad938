#include "terms.h"
#include "Narsese/include/Narsese.h"
using CONNECTOR::Connector; typedef std::vector<pTerm> V;
// OPT * init=1 search=60000
// OVERRIDE ^TERM::Term::operator<\(TERM::Term&\) => vf_place_less
// OVERRIDE ^INDEXVAR::IndexVar::build\(bool\) => vf_build
// OVERRIDE ^TERM::Term::clone\(TERM::pTerm\) => vf_clone
// ASSUME cloning a component gives the same term or one that agrees with it in every attribute (contract proved as C16)
// MERGE ^bool std::any_of
// MERGE ^(void )?TERM::Term::_build_indexvars
// ASSUME building the occurrence index touches nothing but that index (contract proved as C11)
// ASSUME the order of the components is a strict weak order (proved as C06) given by ranks, in which composites differ from atoms and composites of different structure differ
// ASSUME composites have at least one component (an empty reducible compound is outside the constructors' precondition)
#ifdef VF_MODEL
extern "C" void vf_build(INDEXVAR::IndexVar *x, bool re) { x->_is_built = true; }
static uint64_t place(Term &t) {   // composites created on the way get an arbitrary place of their own
  if (!__vf_marked(&t, "rank")) { uint64_t n = __vf_gget("composites"), r = nd_u64("place"); assume((r >> 40) != 1); for (uint64_t i = 0; i < n; ++i) assume(r != __vf_gget(("place" + std::to_string(i)).c_str())); __vf_gset(("place" + std::to_string(n)).c_str(), r); __vf_gset("composites", n + 1); __vf_mark(&t, "rank", r); }
  return __vf_markof(&t, "rank");
}
extern "C" bool vf_place_less(Term *a, Term *b) { return place(*a) < place(*b); }
static bool same_term(Term &a, Term &b) { return place(a) == place(b); }
static bool variables = false;
static pTerm atom() { pTerm t = part(); assume((rank(*t) >> 40) == 1); if (!variables) t->has_var = t->has_ivar = t->has_dvar = t->has_qvar = false; else assume(t->has_var); return t; }
extern "C" pTerm vf_clone(pTerm t) {
  if (t->type != TermType::ATOM || !t->has_var) return t;
  pTerm u(new Term()); u->has_var = t->has_var; u->has_ivar = t->has_ivar; u->has_dvar = t->has_dvar; u->has_qvar = t->has_qvar; u->hash_value = t->hash_value; __vf_mark(u.get(), "rank", place(*t)); return u;
}
#else
static bool variables = false;
static bool same_term(Term &a, Term &b) { return !(a < b) && !(b < a); }
static pTerm atom() { pTerm t(new Term()); t->hash_value = nd_u64("rank"); return t; }
#endif
static bool commutative(Connector c) { return (1u << CONNECTOR::Conjunction | 1u << CONNECTOR::Disjunction | 1u << CONNECTOR::ParallelEvents | 1u << CONNECTOR::IntensionalIntersection | 1u << CONNECTOR::ExtensionalIntersection | 1u << CONNECTOR::IntensionalSet | 1u << CONNECTOR::ExtensionalSet) >> c & 1; }
static bool reducible(Connector c) { return (int)commutative(c) | (int)(c == CONNECTOR::SequentialEvents); }
// a compound of atoms, with the given connector
static pTerm nested(Connector k, size_t max) { size_t n = nd_size("elements", 1, max); V e; for (size_t i = 0; i < n; ++i) e.push_back(atom()); pTerm t(new Compound(CONNECTOR::Product, e, true)); t->connector = k; ((Compound &)*t).is_commutative = commutative(k); t->terms = pTerms(new Terms(e, commutative(k)));
  if (vf_native) { V w = *t->terms; return pTerm(new Compound(k, w, true)); } return t; }
static bool in(const pTerm &t, const V &v) { int r = 0; for (auto &x : v) r |= (int)same_term(*t, *x); return r; }
static bool all_in(const V &a, const V &b) { int r = 1; for (auto &x : a) r &= (int)in(x, b); return r; }
static bool same_set(const V &a, const V &b) { return (int)all_in(a, b) & (int)all_in(b, a); }
static V elems(const pTerm &t) { return *t->terms; }
static bool is(const pTerm &t, Connector k) { return t->type == TermType::COMPOUND && t->connector == k; }
// what Narsese prescribes
struct R { Connector k; V c; std::vector<std::pair<Connector, V>> sets; };   // components, and merged sets among them
static void merge(R &r, Connector con, bool intersect) {
  V m; bool any = false; V keep, old; for (auto &t : r.c) if (is(t, con)) { V e = elems(t); old.push_back(t); if (!any) m = e; else if (intersect) { V w; for (auto &x : m) if (in(x, e)) w.push_back(x); m = w; } else for (auto &x : e) if (!in(x, m)) m.push_back(x); any = true; } else keep.push_back(t);
  if (!any || m.empty()) return; r.c = keep; r.sets.push_back({con, m});
}
static R oracle(Connector k, const V &c) {
  R r; r.k = k; for (auto &t : c) if (reducible(k) && is(t, k)) for (auto &x : elems(t)) r.c.push_back(x); else r.c.push_back(t);
  if (k == CONNECTOR::ExtensionalIntersection || k == CONNECTOR::IntensionalIntersection) { merge(r, CONNECTOR::ExtensionalSet, k == CONNECTOR::ExtensionalIntersection); merge(r, CONNECTOR::IntensionalSet, k == CONNECTOR::IntensionalIntersection); }
  if (r.c.empty() && r.sets.size() == 1) { r.k = r.sets[0].first; r.c = r.sets[0].second; r.sets.clear(); }
  return r;
}
static void check(Term &t, const R &r) {
  CHECK(t.type == TermType::COMPOUND && t.connector == r.k, "a compound has the connector Narsese prescribes"); V w = *t.terms; CHECK(t.terms->_is_commutative == commutative(r.k) && ((Compound &)t).is_commutative == commutative(r.k), "a compound is commutative iff its connector is");
  int sum = 0; for (auto &x : w) sum += x->complexity; CHECK(t.complexity == sum, "the complexity is that of the remaining components");
  if (!commutative(r.k)) { int s = w.size() == r.c.size(); for (size_t i = 0; i < w.size() && i < r.c.size(); ++i) s &= (int)(w[i].get() == r.c[i].get()); CHECK(s, "a non-commutative compound has the given components in order, repetitions included"); return; }
  V plain; std::vector<bool> got(r.sets.size(), false);
  for (auto &x : w) { bool merged = false; for (size_t i = 0; i < r.sets.size(); ++i) if (!got[i] && is(x, r.sets[i].first) && !in(x, r.c)) { CHECK(same_set(elems(x), r.sets[i].second), "sets under an intersection become one set of their common or united elements"); got[i] = merged = true; break; } if (!merged) plain.push_back(x); }
  for (size_t i = 0; i < r.sets.size(); ++i) CHECK(got[i], "a merged set is among the components"); CHECK(all_in(r.c, plain), "no component is dropped"); CHECK(all_in(plain, r.c), "no component is added or unwrapped");
}
struct Before { V c; std::vector<Connector> k; std::vector<V> e; };
static Before before(const V &c) { Before b; b.c = c; for (auto &t : c) { b.k.push_back(t->connector); b.e.push_back(t->type == TermType::COMPOUND ? elems(t) : V{}); } return b; }
static void unchanged(const Before &b) { for (size_t i = 0; i < b.c.size(); ++i) { CHECK(b.c[i]->connector == b.k[i], "operands keep their connector"); if (b.c[i]->type == TermType::COMPOUND) { V e = elems(b.c[i]); int s = e.size() == b.e[i].size(); for (size_t j = 0; j < e.size() && j < b.e[i].size(); ++j) s &= (int)(e[j].get() == b.e[i][j].get()); CHECK(s, "operands keep their components"); } } }
static void build(Connector k, V c) { Before b = before(c); R r = oracle(k, c); V d = c; Compound t(k, d, true); check(t, r); unchanged(b); cover("end"); }
static Connector intersection() { return nd_bool("extensional") ? CONNECTOR::ExtensionalIntersection : CONNECTOR::IntensionalIntersection; }
static pTerm set_of(size_t n) { return nested(nd_bool("extset") ? CONNECTOR::ExtensionalSet : CONNECTOR::IntensionalSet, n); }
static const Connector EI = CONNECTOR::ExtensionalIntersection, II = CONNECTOR::IntensionalIntersection, ES = CONNECTOR::ExtensionalSet, IS = CONNECTOR::IntensionalSet;
PROOF(ei_extsets) { build(EI, {nested(ES, 2), nested(ES, 2)}); }
PROOF(ei_intsets) { build(EI, {nested(IS, 2), nested(IS, 2)}); }
PROOF(ii_extsets) { build(II, {nested(ES, 2), nested(ES, 2)}); }
PROOF(ii_intsets) { build(II, {nested(IS, 2), nested(IS, 2)}); }
PROOF(mixed_sets) { Connector k = intersection(); build(k, {nested(ES, 1), nested(IS, 2)}); }
PROOF(ei_three) { Connector k = nd_bool("ext") ? ES : IS; build(EI, {nested(k, 1), nested(k, 1), nested(k, 1)}); }
PROOF(ii_three) { Connector k = nd_bool("ext") ? ES : IS; build(II, {nested(k, 1), nested(k, 1), nested(k, 1)}); }
PROOF(three_mixed) { Connector k = intersection(); build(k, {nested(ES, 1), nested(IS, 1), nested(ES, 1)}); }
PROOF(ei_and_atom) { Connector k = nd_bool("ext") ? ES : IS; build(EI, {nested(k, 1), atom(), nested(k, 1)}); }
PROOF(ii_and_atom) { Connector k = nd_bool("ext") ? ES : IS; build(II, {nested(k, 1), atom(), nested(k, 1)}); }
PROOF(set_and_atom) { Connector k = intersection(); build(k, {set_of(2), atom()}); }
PROOF(intersection_nested) { Connector k = intersection(); build(k, {nested(any_connector(), 2), set_of(1)}); }
PROOF(one_nested) { build(any_connector(), {nested(any_connector(), 2)}); }
PROOF(one_atom) { build(any_connector(), {atom()}); }
PROOF(atoms) { build(any_connector(), {atom(), atom(), atom()}); }
PROOF(nested_and_atom) { build(any_connector(), {nested(any_connector(), 2), atom()}); }
PROOF(atom_and_nested) { build(any_connector(), {atom(), nested(any_connector(), 2)}); }
PROOF(two_nested) { build(any_connector(), {nested(any_connector(), 1), nested(any_connector(), 1)}); }
PROOF(same_twice) { pTerm a = nested(any_connector(), 2); build(any_connector(), {a, a}); }
PROOF(sets_variables) { variables = true; Connector k = intersection(); build(k, {set_of(1), set_of(2)}); }
PROOF(nested_variables) { variables = true; build(any_connector(), {nested(any_connector(), 1), atom()}); }
// more and larger components, by example
#ifdef VF_MODEL
static uint64_t next_place;
static pTerm atom_at(uint64_t r) { pTerm t = part_at((1ull << 40) + r, r, 0); t->complexity = 1 + r; return t; }
static pTerm nested_at(Connector k, std::vector<uint64_t> r) { V e; for (auto i : r) e.push_back(atom_at(i)); pTerm t(new Compound(CONNECTOR::Product, e, true)); t->connector = k; ((Compound &)*t).is_commutative = commutative(k); t->terms = pTerms(new Terms(e, commutative(k))); uint64_t n = __vf_gget("composites"), p = 1000 + 17 * n; __vf_gset(("place" + std::to_string(n)).c_str(), p); __vf_gset("composites", n + 1); __vf_mark(t.get(), "rank", p); return t; }
#else
static pTerm atom_at(uint64_t r) { pTerm t(new Term()); t->hash_value = 100 + r; return t; }
static pTerm nested_at(Connector k, std::vector<uint64_t> r) { V e; for (auto i : r) e.push_back(atom_at(i)); return pTerm(new Compound(k, e, true)); }
#endif
static void nested_many(Connector k) { V c{atom_at(9), nested_at(k, {3, 1, 2, 7, 5}), atom_at(4), atom_at(9), nested_at(CONNECTOR::Product, {3, 3, 8}), nested_at(k, {8, 2, 6, 5}), nested_at(k, {2}), atom_at(3)}; build(k, c); }
PROOF(many_nested_conjunction) { nested_many(CONNECTOR::Conjunction); }
PROOF(many_nested_disjunction) { nested_many(CONNECTOR::Disjunction); }
PROOF(many_nested_parallel) { nested_many(CONNECTOR::ParallelEvents); }
PROOF(many_nested_sequence) { nested_many(CONNECTOR::SequentialEvents); }
PROOF(many_nested_product) { nested_many(CONNECTOR::Product); }
PROOF(many_nested_extset) { nested_many(ES); }
PROOF(many_nested_ei) { nested_many(EI); }
PROOF(many_atoms) { V c; for (int i = 0; i < 12; ++i) c.push_back(atom_at(i * 5 % 8)); build(CONNECTOR::Conjunction, c); build(CONNECTOR::Product, c); build(IS, c); }
static V one_kind(Connector k) { return {nested_at(k, {1, 2, 3, 4, 5, 6}), nested_at(k, {6, 4, 2, 5, 9}), nested_at(k, {2, 5, 6, 8}), nested_at(k, {5, 6})}; }
PROOF(many_ei_extsets) { build(EI, one_kind(ES)); }
PROOF(many_ei_intsets) { build(EI, one_kind(IS)); }
PROOF(many_ii_extsets) { build(II, one_kind(ES)); }
PROOF(many_ii_intsets) { build(II, one_kind(IS)); }
static V two_kinds(int atom) { V c{nested_at(ES, {1, 2, 3, 4}), nested_at(IS, {3, 4, 7}), nested_at(ES, {2, 4, 6}), nested_at(IS, {4, 8, 3})}; if (atom) c.insert(c.begin() + 2, atom_at(9)); return c; }
PROOF(many_ei_two_kinds) { build(EI, two_kinds(0)); }
PROOF(many_ii_two_kinds) { build(II, two_kinds(0)); }
PROOF(many_ei_two_kinds_atom) { build(EI, two_kinds(1)); }
PROOF(many_ii_two_kinds_atom) { build(II, two_kinds(1)); }
