// Terms of any shape whose components are opaque: only the contract of their order, equality and flags is known.
#ifndef TERMS_H
#define TERMS_H
#include "verif.h"
#include "Interpreter/include/Interpreter.hpp"
using TERM::pTerm; using TERM::Term; using TERM::Terms; using TERM::pTerms; using TERM::TermType; using STATEMENT::Statement; using COMPOUND::Compound; using VARIABLE::Variable; using VARIABLE::VarPrefix;
static const VarPrefix KINDS[] = {VarPrefix::Independent, VarPrefix::Dependent, VarPrefix::Qeury};
// an arbitrary component.  rank: its place in the order (any strict weak order on finitely many terms is given by ranks);
// cls: its equality class.  Natively it is an atom whose hash is the rank.
static pTerm part() {
  pTerm t(new Term()); size_t r = nd_u64("rank");
#ifdef VF_MODEL
  t->has_ivar = nd_bool("has $"); t->has_dvar = nd_bool("has #"); t->has_qvar = nd_bool("has ?"); t->has_var = (int)t->has_ivar | (int)t->has_dvar | (int)t->has_qvar;
  t->hash_value = nd_u64("hash"); __vf_mark(t.get(), "rank", r); __vf_mark(t.get(), "cls", nd_u64("class"));
#else
  t->hash_value = r; t->has_ivar = t->has_var = r & 1;
#endif
  return t;
}
static uint64_t rank(Term &t) {
#ifdef VF_MODEL
  return __vf_markof(&t, "rank");
#else
  return t.hash_value;
#endif
}
static uint64_t cls(Term &t) {
#ifdef VF_MODEL
  return __vf_markof(&t, "cls");
#else
  return t.hash_value;
#endif
}
// contract of the equality of two components: an equivalence; equal components have the same rank, hash and flags
static void coherent(Term &a, Term &b) { assume(cls(a) != cls(b) || (rank(a) == rank(b) && a.hash_value == b.hash_value && a.has_ivar == b.has_ivar && a.has_dvar == b.has_dvar && a.has_qvar == b.has_qvar)); }
#ifdef VF_MODEL
extern "C" bool vf_less(Term *a, Term *b) { if (__vf_marked(a, "rank") && __vf_marked(b, "rank")) return __vf_markof(a, "rank") < __vf_markof(b, "rank"); return *a < *b; }
extern "C" bool vf_equal(Term *a, Term *b) { if (__vf_marked(a, "cls") && __vf_marked(b, "cls")) return __vf_markof(a, "cls") == __vf_markof(b, "cls"); return *a == *b; }
#endif
// variable flags as of the components, arbitrary hash value
static void flags(Term &t, const std::vector<pTerm> &c) {
  int i = 0, d = 0, q = 0; for (auto &x : c) { i |= (int)x->has_ivar; d |= (int)x->has_dvar; q |= (int)x->has_qvar; }
  t.has_ivar = i; t.has_dvar = d; t.has_qvar = q; t.has_var = i | d | q; t.is_hashed = true; t.hash_value = vf_native ? nd_choice("hash", 1, 2) : nd_u64("hash");
}
static COPULA::Copula any_copula() { return (COPULA::Copula)nd_int("copula", 0, COPULA::ConcurrentEquivalence); }
static CONNECTOR::Connector any_connector() { return (CONNECTOR::Connector)nd_int("connector", 0, CONNECTOR::List); }
// a term of arbitrary shape over arbitrary components
struct T { pTerm t; std::vector<pTerm> c; };
static pTerm shared_stat(const pTerm &a, const pTerm &b) { pTerm d(new Term()); pTerm t(new Statement(d, COPULA::Inheritance, d, true)); t->subject = a; t->predicate = b; t->copula = any_copula(); flags(*t, {a, b}); return t; }
static T any_statement() { T x; x.c = {part(), part()}; x.t = shared_stat(x.c[0], x.c[1]); return x; }
static T any_compound(size_t max, bool set = false) {
  T x; size_t n = nd_size("components", 0, max); for (size_t i = 0; i < n; ++i) x.c.push_back(part());
  std::vector<pTerm> e; x.t = pTerm(new Compound(CONNECTOR::Product, e, true)); x.t->terms = pTerms(new Terms(x.c, set)); x.t->connector = any_connector(); flags(*x.t, *x.t->terms); return x;
}
static T any_variable() { T x; int k = nd_choice("kind", 0, 2); x.t = pTerm(new Variable(KINDS[k], "v")); auto &v = k == 0 ? x.t->_vars_independent : k == 1 ? x.t->_vars_dependent : x.t->_vars_query; v->add((int)nd_small("index", INT32_MIN, INT32_MAX, 0, 2), {}); return x; }
static size_t var_hash(int k) { static size_t h[3] = {Variable(KINDS[0], "v").hash_value, Variable(KINDS[1], "v").hash_value, Variable(KINDS[2], "v").hash_value}; return h[k]; }
static T any_atom() { T x; x.t = pTerm(new Term()); x.t->hash_value = nd_u64("hash"); for (int k = 0; k < 3; ++k) assume(x.t->hash_value != var_hash(k)); return x; }
static T any_kind(size_t max) { switch (nd_choice("type", 0, 3)) { case 0: return any_atom(); case 1: return any_variable(); case 2: return any_statement(); default: return any_compound(max); } }
// examples: a component with a given place in the order, variable flags and hash value; terms of larger size
static pTerm part_at(uint64_t r, uint64_t c, int flags) {
  pTerm t(new Term()); t->hash_value = 1000 + r;
#ifdef VF_MODEL
  __vf_mark(t.get(), "rank", r); __vf_mark(t.get(), "cls", c);
#endif
  t->has_ivar = flags & 1; t->has_dvar = flags >> 1 & 1; t->has_qvar = flags >> 2 & 1; t->has_var = (flags & 7) != 0; return t;
}
static pTerm part_at(uint64_t r) { return part_at(r, r, r % 8); }
// like flags(), with a given hash value
static void flags_at(Term &t, const std::vector<pTerm> &c, uint64_t hash) { int i = 0, d = 0, q = 0; for (auto &x : c) { i |= (int)x->has_ivar; d |= (int)x->has_dvar; q |= (int)x->has_qvar; } t.has_ivar = i; t.has_dvar = d; t.has_qvar = q; t.has_var = i | d | q; t.is_hashed = true; t.hash_value = hash; }
static T example_compound(const std::vector<uint64_t> &r, bool set, int connector, uint64_t hash) {
  T x; for (auto i : r) x.c.push_back(part_at(i)); std::vector<pTerm> e; x.t = pTerm(new Compound(CONNECTOR::Product, e, true)); x.t->terms = pTerms(new Terms(x.c, set)); x.t->connector = (CONNECTOR::Connector)connector; flags_at(*x.t, *x.t->terms, hash); return x;
}
static T example_statement(uint64_t a, uint64_t b, int copula, uint64_t hash) { T x; x.c = {part_at(a), part_at(b)}; pTerm d(new Term()); x.t = pTerm(new Statement(d, COPULA::Inheritance, d, true)); x.t->subject = x.c[0]; x.t->predicate = x.c[1]; x.t->copula = (COPULA::Copula)copula; flags_at(*x.t, x.c, hash); return x; }
#endif
