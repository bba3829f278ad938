#include "verif.h"
#include "Narsese/include/Evidence.h"
using EVIDENCE::Base; using EVIDENCE::pBase; typedef std::set<size_t> Set;
// OPT * init=1 search=60000
// an evidential base with up to n arbitrary 64-bit identifiers (in the verifier: all contents, in increasing order of insertion)
static Set ids(const char *size, const char *id, size_t max) {
  Set s; size_t n = nd_size(size, 0, max), last = 0;
  for (size_t i = 0; i < n; ++i) { size_t x = nd_u64(id); if (!vf_native && i) assume(x > last); last = x; s.insert(x); }
  return s;
}
static unsigned any_max(unsigned hi) { CONFIG::maximum_evidential_base_length = (unsigned)nd_size("maximum", 0, hi); return CONFIG::maximum_evidential_base_length; }
static Set unite(const Set &a, const Set &b) { Set u = a; for (size_t x : b) u.insert(x); return u; }
static void pooled(const Set &r, const Set &a, const Set &b, unsigned max, const char *lsub, const char *lmax, const char *lall) {
  for (size_t x : r) CHECK(a.count(x) == 1 || b.count(x) == 1, lsub);
  CHECK(r.size() <= max, lmax);
  Set u = unite(a, b); CHECK(u.size() > max || r == u, lall);
  if (u.size() > max) CHECK(r.size() == max, "a full base uses the whole maximum");
}
PROOF(interleave_new) {
  Set a = ids("size1", "id1", 2), b = ids("size2", "id2", 2); unsigned max = any_max(5);
  Base x(a), y(b); pBase r = Base::interleave(x, y);
  CHECK(r != nullptr && r->_set != nullptr, "pooling gives a base");
  pooled(*r->_set, a, b, max, "pooling adds no identifier of its own", "pooling respects the maximum", "pooling keeps every identifier that fits");
  CHECK(*x._set == a && *y._set == b, "pooling leaves the operands alone"); CHECK(r->_set != x._set && r->_set != y._set, "the pooled base is separate"); cover("end");
}
PROOF(interleave_out) {
  Set a = ids("size1", "id1", 2), b = ids("size2", "id2", 2); unsigned max = any_max(5);
  Base x(a), y(b); Set none; Base r(none); Base::interleave(r, x, y);
  pooled(*r._set, a, b, max, "pooling into a base adds no identifier of its own", "pooling into a base respects the maximum", "pooling into a base keeps every identifier that fits");
  CHECK(*x._set == a && *y._set == b, "pooling into a base leaves the operands alone"); cover("end");
}
PROOF(extend) {
  Set a = ids("size1", "id1", 2), b = ids("size2", "id2", 2); unsigned max = any_max(5);
  Base x(a), y(b); x.extend(y);
  pooled(*x._set, a, b, max, "extending adds no foreign identifier", "extending respects the maximum", "extending keeps every identifier that fits");
  CHECK(*y._set == b, "extending leaves the other base alone"); CHECK(x._set != y._set, "extending does not share the other base"); cover("end");
}
PROOF(extend_self) {
  Set a = ids("size1", "id1", 3); unsigned max = any_max(5); Base x(a); x.extend(x);
  pooled(*x._set, a, a, max, "extending by itself adds nothing", "extending by itself respects the maximum", "extending by itself loses nothing that fits"); cover("end");
}
PROOF(extend_twice) {
  Set a = ids("size1", "id1", 1), b = ids("size2", "id2", 2), c = ids("size3", "id3", 1); unsigned max = any_max(5);
  Base x(a), y(b), z(c); x.extend(y); x.extend(z); Set u = unite(unite(a, b), c);
  CHECK(x.size() <= max, "repeated extending respects the maximum"); if (u.size() <= max) CHECK(*x._set == u, "repeated extending keeps everything that fits");
  for (size_t i : *x._set) CHECK(u.count(i) == 1, "repeated extending adds nothing"); CHECK(*y._set == b && *z._set == c, "repeated extending leaves the others alone"); cover("end");
}
PROOF(overlap) {
  Set a = ids("size1", "id1", 2), b = ids("size2", "id2", 2); Base x(a), y(b); bool shared = false;
  for (size_t i : a) if (b.count(i)) shared = true;
  CHECK(x.is_overlaped(y) == shared, "bases overlap exactly when they share an identifier"); CHECK(y.is_overlaped(x) == shared, "overlap is symmetric");
  CHECK(*x._set == a && *y._set == b, "asking for overlap changes nothing"); cover("end");
}
PROOF(add_size) {
  Set a = ids("size1", "id1", 3); size_t n = nd_u64("new"); Base x(a); auto r = x.add(n);
  CHECK(*x._set == unite(a, Set({n})), "add adds exactly the identifier"); CHECK(r == &x, "add returns the base"); CHECK(x.size() == x._set->size() && x.size() == a.size() + (a.count(n) ? 0 : 1), "size counts the identifiers"); cover("end");
}
static size_t fresh_hash(const Set &s) { Base b(s); return b.do_hashing(); }
// representation invariant "a cached hash is the hash of the current content": one arbitrary operation from any state satisfying it preserves it
PROOF(hash_current) {
  Set a = ids("size1", "id1", 2), b = ids("size2", "id2", 2); CONFIG::maximum_evidential_base_length = 100; Base x(a), y(b);
  if (nd_bool("hashed")) x.__hash__(); if (nd_bool("other hashed")) y.__hash__();
  switch (nd_choice("step", 0, 4)) { case 0: x.add(nd_u64("new")); break; case 1: x.extend(y); break; case 2: x.__hash__(); break; case 3: Base::interleave(x, Base(a), y); break; default: x.do_hashing(); }
  CHECK(x.__hash__() == fresh_hash(*x._set), "the hash reflects the current content"); CHECK(x.__hash__() == x.do_hashing(), "hashing again gives the same");
  CHECK(y.__hash__() == fresh_hash(b), "the other base's hash is unchanged"); cover("end");
}
PROOF(construct) {
  Set a = ids("size1", "id1", 3); Base x(a); CHECK(*x._set == a, "a base holds exactly the given identifiers"); CHECK(x.size() == a.size(), "size of a new base");
  auto p = std::make_shared<Set>(a); Base y(p); CHECK(y._set == p && *y._set == a, "a base on a shared set holds that set");
  Base z; CHECK(z._set != nullptr && z.size() == 1, "a base without evidence gets one identifier"); Base z2; CHECK(*z._set != *z2._set, "bases without evidence get different identifiers"); cover("end");
}
// larger bases, by example
static Set some(Some &s, int n, uint64_t of) { Set r; for (int i = 0; i < n; ++i) r.insert(s.below(of)); return r; }
PROOF(many) {
  for (int e = 0; e < 6; ++e) {
    Some s(e); Set a = some(s, 4 + 3 * (e % 3), 30), b = some(s, 5 + e, 30); unsigned max = e == 0 ? 4 : e == 1 ? 7 : e == 2 ? 9 : e == 3 ? 100 : 6 + e; CONFIG::maximum_evidential_base_length = max; Base x(a), y(b);
    pBase r = Base::interleave(x, y); pooled(*r->_set, a, b, max, "pooling adds no identifier of its own", "pooling respects the maximum", "pooling keeps every identifier that fits"); Set none; Base q(none); Base::interleave(q, x, y); pooled(*q._set, a, b, max, "pooling into a base adds no identifier of its own", "pooling into a base respects the maximum", "pooling into a base keeps every identifier that fits");
    CHECK(*x._set == a && *y._set == b, "pooling leaves the operands alone"); bool shared = false; for (size_t i : a) if (b.count(i)) shared = true; CHECK(x.is_overlaped(y) == shared && y.is_overlaped(x) == shared, "bases overlap exactly when they share an identifier");
    Set lone; for (size_t i : b) lone.insert(100 + i); Base z(lone); CHECK(!x.is_overlaped(z) && !z.is_overlaped(x), "bases without a common identifier do not overlap"); z.add(*a.rbegin()); CHECK(x.is_overlaped(z) && z.is_overlaped(x), "bases overlap exactly when they share an identifier");
    x.__hash__(); x.extend(y); pooled(*x._set, a, b, max, "extending adds no foreign identifier", "extending respects the maximum", "extending keeps every identifier that fits"); CHECK(*y._set == b, "extending leaves the other base alone"); CHECK(x.__hash__() == fresh_hash(*x._set), "the hash reflects the current content");
  } cover("end");
}
