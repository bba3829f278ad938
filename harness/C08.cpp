#include "terms.h"
using TERM::Iterator; typedef std::vector<pTerm> V;
// OPT * init=1 search=60000
// NATIVE -fsanitize=address
// OVERRIDE ^TERM::Term::operator<\(TERM::Term&\) => vf_less
// OVERRIDE ^TERM::Term::operator==\(TERM::Term&\) => vf_equal
// ASSUME the order of the components is a strict weak order (proved as C06), given by ranks
static V any(size_t max, const char *n = "components") { V v; size_t k = nd_size(n, 0, max); for (size_t i = 0; i < k; ++i) v.push_back(part()); if (k > 1 && nd_bool("repeat")) v.push_back(v[nd_choice("which", 0, k - 1)]); return v; }
static bool is(const V &a, const V &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].get() != b[i].get()) return false; return true; }
// the content as every view reports it
static V views(Terms &t) {
  V w = t; V f; for (auto it = t.begin(); it != t.end(); ++it) f.push_back(*it); CHECK(is(f, w), "iterating agrees with the vector");
  CHECK(t.size() == w.size(), "the size agrees with the vector"); V r; for (const pTerm &x : t) r.push_back(x); CHECK(is(r, w), "ranging agrees with the vector");
  int n = w.size(); for (int k = 0; k < n; ++k) { CHECK((*(t.begin() + k)).get() == w[k].get(), "an offset iterator is at that component"); CHECK((*(t.end() - (n - k))).get() == w[k].get(), "a negative offset counts from the end"); CHECK(!(t.begin() + k == t.end()), "an offset iterator inside is not the end"); }
  CHECK(t.begin() + n == t.end() && !(t.begin() + n != t.end()) && t.end() - n == t.begin(), "offsetting by the size reaches the end"); return w;
}
// what a collection made from s must hold
static void holds(Terms &t, const V &s, const char *l) {
  V w = views(t); if (!t._is_commutative) { CHECK(is(w, s), l); return; }
  for (size_t i = 1; i < w.size(); ++i) CHECK(rank(*w[i - 1]) < rank(*w[i]), "a commutative collection is sorted without repetitions");
  for (auto &x : s) { bool in = false; for (auto &y : w) in |= rank(*x) == rank(*y); CHECK(in, "every component is represented in a commutative collection"); }
  for (auto &y : w) { bool in = false; for (auto &x : s) in |= x.get() == y.get(); CHECK(in, "a commutative collection holds given components only"); }
}
PROOF(from_vector) { bool c = nd_bool("commutative"); V s = any(3), s0 = s; Terms t(s, c); CHECK(t._is_commutative == c, "the collection is commutative as asked"); holds(t, s0, "a vector's components are held in order"); CHECK(is(s, s0), "the source is left alone"); cover("end"); }
PROOF(from_list) { bool c = nd_bool("commutative"); V s = any(3); std::list<pTerm> l; for (auto &x : s) l.push_back(x); Terms t(l, c); CHECK(t._is_commutative == c, "the collection is commutative as asked"); holds(t, s, "a list's components are held in order"); cover("end"); }
PROOF(from_initializer) { bool c = nd_bool("commutative"); pTerm a = part(), b = part(), d = part(); if (nd_bool("repeat")) { Terms t({a, b, a}, c); holds(t, {a, b, a}, "listed components are held in order"); } else { Terms t({a, b, d}, c); holds(t, {a, b, d}, "listed components are held in order"); } Terms e(c); CHECK(e.size() == 0 && e._is_commutative == c, "an empty collection is empty"); views(e); cover("end"); }
PROOF(from_set) { bool c = nd_bool("commutative"); std::set<pTerm, Terms::compare> s; V v = any(3); for (auto &x : v) s.insert(x); V o(s.begin(), s.end()); Terms t(s, c); CHECK(t._is_commutative == c, "the collection is commutative as asked"); holds(t, o, "a set's components are held in order"); cover("end"); }
PROOF(from_collection) { bool c = nd_bool("commutative"), d = nd_bool("commutative source"); V v = any(2); Terms s(v, d); V o = s; Terms t(s, c); CHECK(t._is_commutative == c, "the collection is commutative as asked"); holds(t, o, "a collection's components are held in order"); V o2 = s; CHECK(is(o, o2) && s._is_commutative == d, "the source collection is left alone"); cover("end"); }
PROOF(create) {
  bool c = nd_bool("commutative"); V v = any(2); switch (nd_choice("from", 0, 3)) { case 0: { pTerms t = Terms::create(v, c); holds(*t, v, "create holds the components in order"); break; } case 1: { std::list<pTerm> l; for (auto &x : v) l.push_back(x); pTerms t = Terms::create(l, c); holds(*t, v, "create holds the components in order"); break; }
    case 2: { pTerms t = Terms::create(c); CHECK(t->size() == 0 && t->_is_commutative == c, "create without components is empty"); break; } default: { Terms s(v, false); pTerms t = Terms::create(s, c); holds(*t, v, "create holds the components in order"); } } cover("end");
}
PROOF(add) {
  bool c = nd_bool("commutative"); V v = any(2); Terms t(v, c); V o = t; pTerm x = nd_bool("known") && v.size() ? v[0] : part(); t.push_back(x);
  if (!c) { o.push_back(x); holds(t, o, "adding appends"); }
  else { holds(t, [&] { V u = o; u.push_back(x); return u; }(), ""); bool had = false; for (auto &y : o) had |= rank(*y) == rank(*x); V w = t; CHECK(w.size() == o.size() + (had ? 0 : 1), "adding to a commutative collection adds a new component only"); for (auto &y : o) { bool in = false; for (auto &z : w) in |= y.get() == z.get(); CHECK(in, "adding keeps the components"); } } cover("end");
}
PROOF(copy) { bool c = nd_bool("commutative"); V v = any(2); Terms t(v, c); V o = t; Terms u(t); u.push_back(part()); V w = t; CHECK(is(w, o), "changing a copy leaves the collection alone"); Terms x(c); x = t; V y = x; CHECK(is(y, o) && x._is_commutative == c, "assignment copies the components"); cover("end"); }
// iterators: an arbitrary short program of copies, assignments and moves
PROOF(iterators) {
  bool c = nd_bool("commutative"); pTerm a = part(), b = part(), d = part(); assume(rank(*a) < rank(*b) && rank(*b) < rank(*d)); Terms t({a, b, d}, c); V w = t; CHECK(w.size() == 3, "three components"); int at[2] = {0, (int)nd_choice("start", 0, 3)}; Iterator p = t.begin(), q = t.begin() + at[1];
  for (int s = 0; s < 3; ++s) {
    switch (nd_choice("step", 0, 7)) {
    case 0: { Iterator r(p); ++r; break; } case 1: q = p; at[1] = at[0]; break; case 2: p = q; at[0] = at[1]; break; case 3: if (at[0] < 3) { ++p; ++at[0]; } break;
    case 4: if (at[1] < 3) { Iterator r = q++; CHECK(r == t.begin() + at[1], "postfix increment returns the old position"); ++at[1]; } break;
    case 5: p = p; break; case 6: { Iterator r = p + (3 - at[0]); CHECK(r == t.end(), "an offset iterator"); r = p; CHECK(r == p, "an assigned iterator is at the same component"); break; }
    default: { Iterator r = q - at[1]; CHECK(r == t.begin(), "a negative offset"); q = t.begin(); at[1] = 0; } }
    for (int i = 0; i < 2; ++i) { Iterator &x = i ? q : p; CHECK((x == t.end()) == (at[i] == 3), "an iterator moves only when it is moved itself"); if (at[i] < 3) CHECK((*x).get() == w[at[i]].get(), "an iterator moves only when it is moved itself"); }
    CHECK((p == q) == (at[0] == at[1]) && (p != q) == (at[0] != at[1]), "iterators are equal when at the same component"); }
  V o = t; CHECK(is(w, o), "iterators leave the collection alone"); cover("end");
}
// larger collections, by example
PROOF(many) {
  for (int e = 0; e < 4; ++e) {
    Some s(e); bool c = e % 2; V v; int n = 7 + 2 * e; for (int i = 0; i < n; ++i) v.push_back(part_at(s.below(e < 2 ? 6 : 40))); v.push_back(v[3]); Terms t(v, c); holds(t, v, "a vector's components are held in order"); std::list<pTerm> l(v.begin(), v.end()); Terms u(l, c); holds(u, v, "a list's components are held in order"); Terms w(t, !c); V o = t; holds(w, o, "a collection's components are held in order");
    V after = t; for (int i = 0; i < 4; ++i) { pTerm x = part_at(s.below(40)); bool had = false; for (auto &y : after) had |= rank(*y) == rank(*x); t.push_back(x); V now = t; if (!c) { after.push_back(x); CHECK(is(now, after), "adding appends"); } else { CHECK(now.size() == after.size() + (had ? 0 : 1), "adding to a commutative collection adds a new component only"); after.push_back(x); holds(t, after, ""); after = now; } }
  } cover("end");
}
