#include "terms.h"
// OPT * init=1 search=60000
// OVERRIDE ^TERM::Term::operator<\(TERM::Term&\) => vf_less
// OVERRIDE ^TERM::Term::operator==\(TERM::Term&\) => vf_equal
// MERGE ^TERM::Term::operator(<|==)\(TERM::Term&\)
// ASSUME a variable has exactly one index; a composite's variable flags are those of its components (C15)
// ASSUME no plain atom has the hash value of a variable kind
// ASSUME the order of the components is a strict weak order (induction hypothesis on the nesting depth), given by ranks
static bool lt(T &a, T &b) { return *a.t < *b.t; }
static void order2(T &a, T &b) {
  bool ab = lt(a, b), ba = lt(b, a); CHECK(!(ab && ba), "the order is asymmetric"); CHECK(ab == lt(a, b), "the order depends on the terms only");
  for (auto &x : a.c) for (auto &y : b.c) coherent(*x, *y);
  if (*a.t == *b.t) CHECK(!ab && !ba, "equal terms are not ordered"); cover("end");
}
static void order3(T &a, T &b, T &c) {
  bool ab = lt(a, b), ba = lt(b, a), bc = lt(b, c), cb = lt(c, b), ac = lt(a, c), ca = lt(c, a);
  if (ab && bc) CHECK(ac, "the order is transitive"); if (!ab && !ba && !bc && !cb) CHECK(!ac && !ca, "incomparability is transitive"); cover("end");
}
PROOF(irreflexive) { T a = any_kind(3); CHECK(!lt(a, a), "the order is irreflexive"); T b = a; CHECK(!lt(a, b), "a term is not before itself"); cover("end"); }
PROOF(pair_mixed) { T a = any_kind(1), b = any_kind(1); order2(a, b); }
PROOF(pair_statements) { T a = any_statement(), b = any_statement(); order2(a, b); }
PROOF(pair_compounds) { T a = any_compound(3), b = any_compound(3); order2(a, b); }
PROOF(pair_sets) { T a = any_compound(2, true), b = any_compound(2, true); order2(a, b); }
PROOF(triple_mixed) { T a = any_kind(1), b = any_kind(1), c = any_kind(1); order3(a, b, c); }
PROOF(triple_statements) { T a = any_statement(), b = any_statement(), c = any_statement(); order3(a, b, c); }
PROOF(triple_compounds) { T a = any_compound(2), b = any_compound(2), c = any_compound(2); order3(a, b, c); }
PROOF(triple_variables) { T a = any_variable(), b = any_variable(), c = any_variable(); order3(a, b, c); }
// larger terms, by example: every pair and every triple of them
static void examples(std::vector<pTerm> x) {
  int n = x.size(), asym = 1, trans = 1, inc = 1, irr = 1, eq = 1, nd = 0; std::vector<int> l(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { l[i * n + j] = *x[i] < *x[j]; nd += l[i * n + j]; }
  for (int i = 0; i < n; ++i) { irr &= !l[i * n + i]; for (int j = 0; j < n; ++j) { asym &= !(l[i * n + j] & l[j * n + i]); if (*x[i] == *x[j]) eq &= !(l[i * n + j] | l[j * n + i]); } }
  CHECK(irr, "the order is irreflexive"); CHECK(asym, "the order is asymmetric"); CHECK(eq, "equal terms are not ordered"); CHECK(nd > n, "the examples are told apart");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int ij = l[i * n + j], ji = l[j * n + i]; for (int k = 0; k < n; ++k) { int jk = l[j * n + k], kj = l[k * n + j], ik = l[i * n + k], ki = l[k * n + i]; if (ij & jk) trans &= ik; if (!(ij | ji | jk | kj)) inc &= !(ik | ki); } }
  CHECK(trans, "the order is transitive"); CHECK(inc, "incomparability is transitive"); cover("end");
}
static std::vector<uint64_t> places(Some &s, size_t n, uint64_t of) { std::vector<uint64_t> r; for (size_t i = 0; i < n; ++i) r.push_back(s.below(of)); return r; }
static void components(int seed, bool set) { Some s(seed); std::vector<pTerm> x; for (int i = 0; i < 10; ++i) { auto r = places(s, 5 + i % 2, 4 + 6 * set); if (i % 3) for (int j = 0; j < 4; ++j) r[j] = 1 + j; x.push_back(example_compound(r, set, CONNECTOR::Product, 5 + s.below(2)).t); } examples(x); }
PROOF(many_components) { components(1, false); }
PROOF(many_components_long) { Some s(2); std::vector<pTerm> x; for (int i = 0; i < 6; ++i) { auto r = std::vector<uint64_t>(12, 3); r[i < 3 ? 11 : 6 + i] = 1 + s.below(5); x.push_back(example_compound(r, false, CONNECTOR::Product, 5).t); } examples(x); }
PROOF(many_components_set) { components(3, true); }
// nested statements and compounds around one component
static pTerm nest(int levels, int kind, pTerm in) { for (int i = 0; i < levels; ++i) { pTerm o = part_at(3, 3, 0); if ((kind + i) % 2) { T t = example_statement(1, 2, COPULA::Similarity, 9); t.t->subject = i % 3 ? in : o; t.t->predicate = i % 3 ? o : in; in = t.t; } else { T t = example_compound({1, 2}, false, CONNECTOR::Product, 9); std::vector<pTerm> c; if (i % 3) c = {o, in}; else c = {in, o}; t.t->terms = pTerms(new Terms(c, false)); in = t.t; } } return in; }
PROOF(many_levels) { std::vector<pTerm> x; for (int i = 0; i < 5; ++i) x.push_back(nest(i == 3 ? 4 : 6, i == 4, part_at(i % 3, i % 3, 0))); examples(x); }
