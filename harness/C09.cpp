#include "terms.h"
typedef std::vector<pTerm> V;
// OPT * init=1 search=60000
// OVERRIDE ^TERM::Term::operator<\(TERM::Term&\) => vf_less
// OVERRIDE ^TERM::Term::operator==\(TERM::Term&\) => vf_equal
// ASSUME the order of the components is a strict weak order (proved as C06), given by ranks
static V any(const char *n, size_t max) { V v; size_t k = nd_size(n, 0, max); for (size_t i = 0; i < k; ++i) v.push_back(part()); return v; }
static bool is(const V &a, const V &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].get() != b[i].get()) return false; return true; }
static bool has(const V &v, const pTerm &x) { bool in = false; for (auto &y : v) in |= rank(*x) == rank(*y); return in; }
enum { Inter, Union, Diff };
static pTerms run(int op, const std::vector<pTerms> &a) { return op == Inter ? Terms::intersection(a) : op == Union ? Terms::union_(a) : Terms::difference(a); }
static void exact(int op, const std::vector<V> &in) {
  std::vector<pTerms> a; std::vector<V> before; for (auto v : in) { a.push_back(pTerms(new Terms(v, true))); before.push_back(*a.back()); }
  pTerms r = run(op, a); CHECK(r != nullptr && r->_is_commutative, "the result is a commutative collection"); V w = *r;
  for (size_t i = 0; i < a.size(); ++i) { V now = *a[i]; CHECK(is(now, before[i]) && a[i]->_is_commutative, "the operands are left unchanged"); CHECK(a[i].get() != r.get(), "the result is a collection of its own"); }
  for (size_t i = 1; i < w.size(); ++i) CHECK(rank(*w[i - 1]) < rank(*w[i]), "the result is sorted without repetitions");
  auto want = [&](const pTerm &x) { bool ok = has(in[0], x); for (size_t i = 1; i < in.size(); ++i) { bool h = has(in[i], x); if (op == Inter) ok &= h; else if (op == Union) ok |= h; else ok &= !h; } return ok; };
  const char *l = op == Inter ? "the intersection holds exactly the common components" : op == Union ? "the union holds exactly the components of any operand" : "the difference holds exactly the first operand's components that are in no later one";
  for (auto &x : w) CHECK(want(x), l); for (auto &v : in) for (auto &x : v) { bool h = has(w, x); CHECK(want(x) == h, l); }
  cover("end");
}
static void one(int op) { exact(op, {any("first", 3)}); }
static void two(int op) { V a = any("first", 2); exact(op, {a, any("second", 2)}); }
static void three(int op) { V a = any("first", 2), b = any("second", 1); exact(op, {a, b, any("third", 1)}); }
PROOF(intersection_one) { one(Inter); }
PROOF(union_one) { one(Union); }
PROOF(difference_one) { one(Diff); }
PROOF(intersection_two) { two(Inter); }
PROOF(union_two) { two(Union); }
PROOF(difference_two) { two(Diff); }
PROOF(intersection_three) { three(Inter); }
PROOF(union_three) { three(Union); }
PROOF(difference_three) { three(Diff); }
PROOF(alias) { V v = any("components", 2); pTerms a(new Terms(v, true)); V before = *a; int op = nd_choice("operation", 0, 2); pTerms r = run(op, {a, a}); V w = *r, now = *a; CHECK(is(now, before), "operating on a collection twice leaves it unchanged"); CHECK(op == Diff ? w.size() == 0 : is(w, before), "a collection combined with itself"); cover("end"); }
PROOF(four) {   // every operand counts
  int op = nd_choice("operation", 0, 2); pTerm a = part(), b = part(); assume(rank(*a) < rank(*b)); std::vector<V> in; for (int i = 0; i < 4; ++i) { V v; if (nd_bool("a")) v.push_back(a); if (nd_bool("b")) v.push_back(b); in.push_back(v); } exact(op, in);
}
PROOF(no_operand) { int op = nd_choice("operation", 0, 2); bool thrown = false; try { run(op, {}); } catch (std::exception &) { thrown = true; } CHECK(thrown, "having no operand is reported"); cover("end"); }
PROOF(not_commutative) {   // wherever it is among the later operands
  int op = nd_choice("operation", 0, 2); V v = any("first", 1), u = any("second", 1), w = any("third", 1); bool third = nd_bool("third"); std::vector<pTerms> a{pTerms(new Terms(v, true)), pTerms(new Terms(u, third)), pTerms(new Terms(w, !third))};
  bool thrown = false; try { run(op, a); } catch (std::exception &) { thrown = true; } CHECK(thrown, "a non-commutative later operand is reported"); cover("end");
}
// more and larger operands, by example
PROOF(many) { for (int op = 0; op < 3; ++op) for (int e = 0; e < 2; ++e) { Some s(3 * op + e); std::vector<V> in; for (int i = 0; i < 3 + 3 * e; ++i) { V v; int n = op == Inter ? 6 : 3 + s.below(4); for (int j = 0; j < n; ++j) v.push_back(part_at(op == Inter && j < 3 ? 2 + 3 * j : s.below(12 + 10 * (op == Diff && i == 0)))); if (op == Diff && i == 0) for (int j = 0; j < 4; ++j) v.push_back(part_at(20 + j)); in.push_back(v); } exact(op, in); } }
