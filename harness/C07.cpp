#include "terms.h"
// OPT * init=1 search=60000
// OVERRIDE ^TERM::Term::operator<\(TERM::Term&\) => vf_less
// OVERRIDE ^TERM::Term::operator==\(TERM::Term&\) => vf_equal
// MERGE ^TERM::Term::operator(<|==)\(TERM::Term&\)
// ASSUME a variable has exactly one index; no plain atom has the hash value of a variable kind; atoms are told apart by their hash values
// ASSUME the equality of components is an equivalence refining hash values (induction hypothesis on the nesting depth), given by classes
static bool eq(T &a, T &b) { return *a.t == *b.t; }
static void two(T &a, T &b) {
  for (auto &x : a.c) for (auto &y : b.c) coherent(*x, *y);
  bool e = eq(a, b); CHECK(e == eq(b, a), "equality is symmetric"); if (e) CHECK(a.t->__hash__() == b.t->__hash__(), "equal terms have equal hash values"); if (e) CHECK(a.t->type == b.t->type, "equal terms are of the same type"); cover("end");
}
static void three(T &a, T &b, T &c) { bool ab = eq(a, b), bc = eq(b, c), ac = eq(a, c); if (ab && bc) CHECK(ac, "equality is transitive"); cover("end"); }
PROOF(reflexive) { T a = any_kind(3); CHECK(eq(a, a), "equality is reflexive"); T b = a; CHECK(eq(a, b), "equality depends on the terms only"); cover("end"); }
PROOF(reflexive_set) { T a = any_compound(3, true); CHECK(eq(a, a), "equality of sets is reflexive"); cover("end"); }
PROOF(pair_mixed) { T a = any_kind(1), b = any_kind(1); two(a, b); }
PROOF(pair_statements) {
  T a = any_statement(), b = any_statement(); two(a, b); bool parts = cls(*a.c[0]) == cls(*b.c[0]) && cls(*a.c[1]) == cls(*b.c[1]) && a.t->copula == b.t->copula;
  if (eq(a, b)) CHECK(parts, "statements are equal only if copula, subject and predicate are"); if (parts && a.t->hash_value == b.t->hash_value) CHECK(eq(a, b), "statements with equal parts and hash are equal"); cover("end");
}
static void compounds(T &a, T &b) {
  two(a, b); std::vector<pTerm> x = *a.t->terms, y = *b.t->terms; bool parts = x.size() == y.size() && a.t->connector == b.t->connector; for (size_t i = 0; i < x.size() && i < y.size(); ++i) parts &= cls(*x[i]) == cls(*y[i]);
  if (eq(a, b)) CHECK(parts, "compounds are equal only if connector, component count and components are"); if (parts && a.t->hash_value == b.t->hash_value) CHECK(eq(a, b), "compounds with equal parts and hash are equal"); cover("end");
}
PROOF(pair_compounds) { T a = any_compound(3), b = any_compound(3); compounds(a, b); }
PROOF(pair_sets) { T a = any_compound(2, true), b = any_compound(2, true); compounds(a, b); }
struct VI { int kind; int index; };
static VI of(Term &t) { VI r; r.kind = ((Variable &)t).prefix; auto &v = t.is_ivar ? t._vars_independent : t.is_dvar ? t._vars_dependent : t._vars_query; r.index = *v->indices[0]; return r; }
PROOF(pair_variables) {
  T a = any_variable(), b = any_variable(); two(a, b); VI x = of(*a.t), y = of(*b.t); bool e = eq(a, b);
  if (e) CHECK(x.kind == y.kind && x.index == y.index, "variables are equal only if kind and index are"); if (x.kind == y.kind && x.index == y.index) CHECK(e, "variables of the same kind and index are equal"); cover("end");
}
PROOF(pair_variable_atom) { T a = any_variable(), b = any_atom(); CHECK(!eq(a, b) && !eq(b, a), "a variable is not a plain atom"); cover("end"); }
PROOF(pair_atoms) { T a = any_atom(), b = any_atom(); CHECK(eq(a, b) == (a.t->hash_value == b.t->hash_value), "atoms are told apart by their hash values"); Term x, y; CHECK(!(x == y), "two new atoms are different"); CHECK(x == x, "an atom equals itself"); cover("end"); }
PROOF(triple_mixed) { T a = any_kind(1), b = any_kind(1), c = any_kind(1); three(a, b, c); }
PROOF(triple_statements) { T a = any_statement(), b = any_statement(), c = any_statement(); three(a, b, c); }
PROOF(triple_compounds) { T a = any_compound(2), b = any_compound(2), c = any_compound(2); three(a, b, c); }
PROOF(triple_variables) { T a = any_variable(), b = any_variable(), c = any_variable(); three(a, b, c); }
// larger terms, by example: equal exactly when their parts are
static void examples(std::vector<pTerm> x, std::vector<int> name) {
  int n = x.size(), exact = 1, hash = 1, some = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int e = *x[i] == *x[j]; exact &= e == (int)(name[i] == name[j]); if (e) { hash &= x[i]->__hash__() == x[j]->__hash__(); if (i != j) some = 1; } }
  CHECK(exact, "terms are equal exactly when all their parts are"); CHECK(hash, "equal terms have equal hash values"); CHECK(some, "some examples are equal"); cover("end");
}
// n components, one of which differs; the hash values agree
static void one_of(int n, bool set) { std::vector<pTerm> x; std::vector<int> name; for (int d = -1; d <= n; ++d) { std::vector<uint64_t> r; for (int i = 0; i < n; ++i) r.push_back(10 * i + (i == d ? 1 : 0)); x.push_back(example_compound(r, set, CONNECTOR::Product, 5).t); name.push_back(d == n ? -1 : d); } examples(x, name); }
PROOF(many_components) { one_of(9, false); }
PROOF(many_components_set) { one_of(9, true); }
PROOF(many_sizes) { std::vector<pTerm> x; std::vector<int> name; for (int n = 0; n < 10; ++n) { std::vector<uint64_t> r; for (int i = 0; i < n % 8; ++i) r.push_back(3); x.push_back(example_compound(r, false, CONNECTOR::Product, 5).t); name.push_back(n % 8); } examples(x, name); }
static pTerm nest(int levels, int kind, pTerm in) { for (int i = 0; i < levels; ++i) { pTerm o = part_at(3, 3, 0); if ((kind + i) % 2) { T t = example_statement(1, 2, COPULA::Similarity, 9); t.t->subject = i % 3 ? in : o; t.t->predicate = i % 3 ? o : in; in = t.t; } else { T t = example_compound({1, 2}, false, CONNECTOR::Product, 9); std::vector<pTerm> c; if (i % 3) c = {o, in}; else c = {in, o}; t.t->terms = pTerms(new Terms(c, false)); in = t.t; } } return in; }
PROOF(many_levels) { std::vector<pTerm> x; std::vector<int> name; for (int i = 0; i < 4; ++i) { int l = i == 3 ? 5 : 7, k = i == 2, c = i % 2; x.push_back(nest(l, k, part_at(c, c, 0))); name.push_back(l * 100 + k * 10 + c); } x.push_back(nest(7, 0, part_at(1, 1, 0))); name.push_back(701); examples(x, name); }
