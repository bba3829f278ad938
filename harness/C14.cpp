#include "verif.h"
#include "Interpreter/include/Interpreter.hpp"
using INTERPRETER::Interpreter; using TERM::pTerm; using TERM::Term; typedef std::string S;
// OPT * init=1 search=40000
// CFLAG -DVF_REFCOUNT
// An arbitrary dictionary satisfying the representation invariant.  In the verifier its content is unbounded: every lookup of a key or
// name not looked up before decides it freely, subject to the invariant at that key and name.
#ifdef VF_MODEL
static Interpreter *cur;
extern "C" void *__vf_any_ptr() { pTerm *p = new pTerm(new Term(), cur); long n = nd_int("references", 1, 1000000); *(long*)p->_c = n; return p; }
#endif
static size_t id(const char *n) { return nd_u64(n); }
// invariant at one key / at one name: assumed before an operation, proved after it (through the public views)
static void assume_name(Interpreter &I, const S &n);
static void assume_key(Interpreter &I, size_t k) {
  bool d = I.dictionary.count(k), o = I.objects.count(k), c = I.count.count(k); assume(d == o && d == c);
  if (!d) return;
  S n = I.dictionary.find(k)->second; assume(I.dictionary_inv.count(n) == 1); assume(I.dictionary_inv.find(n)->second == k); int r = I.count.find(k)->second; assume(r >= 1 && r < 1000000000);
  pTerm *p = I.objects.find(k)->second; (*p)->hash_value = k;
}
static void assume_name(Interpreter &I, const S &n) {
  if (I.dictionary_inv.count(n) == 0) return;
  size_t k = I.dictionary_inv.find(n)->second; assume(I.dictionary.count(k) == 1); assume(I.dictionary.find(k)->second == n); assume_key(I, k);
}
struct View { bool reg; S name; pTerm *obj; int cnt; };
static View view(Interpreter &I, size_t k) { View v; v.reg = I.check(k); v.obj = nullptr; v.cnt = I.check_count(k); if (v.reg) { v.name = I.get(k); v.obj = I.get_object(k); } return v; }
static bool same_view(const View &a, const View &b) { return a.reg == b.reg && a.cnt == b.cnt && a.obj == b.obj && a.name == b.name; }
static void arbitrary(Interpreter &I, size_t k, const S &n, size_t k2, const S &n2) {
#ifdef VF_MODEL
  cur = &I; I.dictionary.__lazy(); I.objects.__lazy(); I.dictionary_inv.__lazy(); I.count.__lazy();
#else
  (void)k; size_t m = nd_size("entries", 0, 4);
  for (size_t i = 0; i < m; ++i) { size_t e = id("key"); S s = nd_str("name"); if (I.dictionary.count(e) || I.dictionary_inv.count(s)) continue;
    I.dictionary[e] = s; I.dictionary_inv[s] = e; I.count[e] = nd_int("count", 1, 3); pTerm *p = new pTerm(new Term(), &I); (*p)->hash_value = e; I.objects[e] = p; }
#endif
  assume_key(I, k); assume_name(I, n); assume_key(I, k2); assume_name(I, n2);
}
static void consistent_key(Interpreter &I, size_t k, const char *l) {
  View v = view(I, k); CHECK(v.reg == (v.cnt > 0), l); if (v.reg) { S n = v.name; CHECK(I.check_by_name(n), l); CHECK(I.get_by_name(n) == k, l); CHECK(v.obj != nullptr, l); }
}
static void consistent_name(Interpreter &I, S n, const char *l) { if (I.check_by_name(n)) { size_t k = I.get_by_name(n); CHECK(I.check(k), l); CHECK(I.get(k) == n, l); } }
struct Obs { size_t k2; S n2; View v2; bool has; size_t of; };
static Obs observe(Interpreter &I, size_t k2, S n2) { Obs o; o.k2 = k2; o.n2 = n2; o.v2 = view(I, k2); o.has = I.check_by_name(n2); o.of = o.has ? I.get_by_name(n2) : 0; return o; }
// k, n: the entry operated on; every other entry is untouched, and all views agree
static void after(Interpreter &I, bool entry, size_t k, const S &n, Obs &o, const char *lother, const char *lviews) {
  if (!entry) { CHECK(same_view(view(I, o.k2), o.v2), lother); CHECK(I.check_by_name(o.n2) == o.has, lother); if (o.has) CHECK(I.get_by_name(o.n2) == o.of, lother); consistent_key(I, o.k2, lviews); consistent_name(I, o.n2, lviews); return; }
  if (o.k2 != k) CHECK(same_view(view(I, o.k2), o.v2), lother);
  if (o.n2 != n) { CHECK(I.check_by_name(o.n2) == o.has, lother); if (o.has) CHECK(I.get_by_name(o.n2) == o.of, lother); }
  consistent_key(I, k, lviews); consistent_key(I, o.k2, lviews); consistent_name(I, n, lviews); consistent_name(I, o.n2, lviews);
}
PROOF(put) {   // registration; the name is not in use for another key, nor the key under another name
  Interpreter &I = *new Interpreter(); size_t k = id("key"), k2 = id("other key"); S n = nd_str("name"), n2 = nd_str("other name"); arbitrary(I, k, n, k2, n2);
  if (I.check_by_name(n)) assume(I.get_by_name(n) == k); if (I.check(k)) assume(I.get(k) == n);
  Obs o = observe(I, k2, n2); View old = view(I, k); pTerm *obj = old.reg ? old.obj : new pTerm(new Term(), &I); (*obj)->hash_value = k;
  I.put(k, n, obj);
  CHECK(I.check(k), "a registered key is known"); CHECK(I.get(k) == n, "a registered key yields its name"); CHECK(I.check_by_name(n) && I.get_by_name(n) == k, "a registered name yields its key");
  CHECK(I.get_object(k) == obj, "a registered key yields its object"); CHECK(I.check_count(k) == old.cnt + 1, "registering counts one more reference");
  after(I, true, k, n, o, "registering leaves other entries alone", "registering keeps all views consistent"); cover("end");
}
PROOF(erase) {
  Interpreter &I = *new Interpreter(); size_t k = id("key"), k2 = id("other key"); S n2 = nd_str("other name"); arbitrary(I, k, n2, k2, n2);
  Obs o = observe(I, k2, n2); View old = view(I, k);
  bool r = I.erase(k);
  CHECK(r == old.reg, "releasing succeeds exactly for a registered key"); View v = view(I, k); S n = old.reg ? old.name : n2;
  if (old.reg && old.cnt > 1) { CHECK(v.reg && v.cnt == old.cnt - 1 && v.obj == old.obj && v.name == old.name, "releasing one of several references only decrements the count"); }
  else CHECK(!v.reg && v.cnt == 0, "releasing the last reference removes the entry");
  if (!old.reg) { CHECK(I.check_by_name(n2) == o.has, "releasing something unknown changes nothing"); }
  else if (old.cnt <= 1) { S m = old.name; CHECK(!I.check_by_name(m), "releasing the last reference removes the name"); }
  after(I, old.reg, k, n, o, "releasing leaves other entries alone", "releasing keeps all views consistent"); cover("end");
}
PROOF(remove) {
  Interpreter &I = *new Interpreter(); size_t k = id("key"), k2 = id("other key"); S n2 = nd_str("other name"); arbitrary(I, k, n2, k2, n2);
  Obs o = observe(I, k2, n2); View old = view(I, k);
  bool r = I.remove(k);
  CHECK(r == old.reg, "removing succeeds exactly for a registered key"); CHECK(!I.check(k) && I.check_count(k) == 0, "a removed key is unknown");
  if (old.reg) { S m = old.name; CHECK(!I.check_by_name(m), "removing a key removes its name"); }
  after(I, old.reg, k, old.name, o, "removing leaves other entries alone", "removing keeps all views consistent"); cover("end");
}
PROOF(remove_by_name) {
  Interpreter &I = *new Interpreter(); size_t k2 = id("other key"); S n = nd_str("name"), n2 = nd_str("other name"); arbitrary(I, k2, n, k2, n2);
  Obs o = observe(I, k2, n2); bool had = I.check_by_name(n); size_t k = had ? I.get_by_name(n) : 0;
  bool r = I.remove_by_name(n);
  CHECK(r == had, "removing by name succeeds exactly for a registered name"); CHECK(!I.check_by_name(n), "a removed name is unknown");
  if (had) CHECK(!I.check(k) && I.check_count(k) == 0, "removing a name removes its key"); 
  else CHECK(same_view(view(I, k2), o.v2), "removing an unknown name changes nothing");
  after(I, had, k, n, o, "removing by name leaves other entries alone", "removing by name keeps all views consistent"); cover("end");
}
PROOF(lookups) {   // the views of one entry agree, and looking things up changes nothing
  Interpreter &I = *new Interpreter(); size_t k = id("key"), k2 = id("other key"); S n = nd_str("name"), n2 = nd_str("other name"); arbitrary(I, k, n, k2, n2);
  size_t dk = I.dictionary.count(k), dn = I.dictionary_inv.count(n); View v = view(I, k);
  CHECK(v.reg == (dk == 1), "check tells whether a key is registered"); CHECK(I.check_by_name(n) == (dn == 1), "check_by_name tells whether a name is registered");
  if (v.reg) { CHECK(v.name == I.dictionary.find(k)->second && v.obj == I.objects.find(k)->second && v.cnt == I.count.find(k)->second, "lookups yield the entry"); } else CHECK(v.cnt == 0, "an unknown key has no references");
  if (dn) CHECK(I.get_by_name(n) == I.dictionary_inv.find(n)->second, "name lookup yields the key");
  CHECK(I.dictionary.count(k) == dk && I.objects.count(k) == dk && I.count.count(k) == dk && I.dictionary_inv.count(n) == dn, "looking up changes nothing"); cover("end");
}
PROOF(empty_and_reset) {   // bounded: reset of a dictionary with at most two entries
  Interpreter I; size_t a = id("key a"), b = id("key b"); S m = nd_str("name a"), n = nd_str("name b"); bool two = nd_bool("two"); assume(a != b && m != n);
  CHECK(!I.check(a) && !I.check_by_name(m) && I.check_count(a) == 0, "a new dictionary is empty");
  I.put(a, m, new pTerm(new Term(), &I)); if (two) I.put(b, n, new pTerm(new Term(), &I));
  I.reset();
  CHECK(!I.check(a) && !I.check_by_name(m) && I.check_count(a) == 0 && !I.check(b) && !I.check_by_name(n), "reset forgets every entry");
  CHECK(I.dictionary.size() == 0 && I.objects.size() == 0 && I.dictionary_inv.size() == 0 && I.count.size() == 0, "reset empties every view"); CHECK(!I.remove(a) && !I.erase(a) && !I.remove_by_name(m), "nothing can be removed after reset"); cover("end");
}
