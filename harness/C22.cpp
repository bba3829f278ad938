#include "dict.h"
#include "Narsese/Parser/NarseseParser.h"
namespace P = NARSESEPARSER; using PARSER::Args;
// OPT * init=1 search=40000
// CFLAG -DVF_REFCOUNT
// OVERRIDE ^TERM::Term::Term\(\)$ => vf_term
// ASSUME the hash of a new term's address is not the key of a registered term (addresses of live objects differ; no hash collision)
// ASSUME words of the notation do not begin with ^ (the grammar's words exclude it)
static bool op_name(const S &n) { return n.substr(0, 1) == "^"; }
// representation invariant at a name / at a key: the views agree (C14); names with ^ denote operators and other names plain atoms
static void assume_key(Interpreter &I, size_t k) {
  bool d = I.dictionary.count(k), o = I.objects.count(k), c = I.count.count(k); assume(d == o && d == c);
  if (!d) return;
  S n = I.dictionary.find(k)->second; assume(I.dictionary_inv.count(n) == 1); assume(I.dictionary_inv.find(n)->second == k); int r = I.count.find(k)->second; assume(r >= 1 && r < 1000000000);
  pTerm *p = I.objects.find(k)->second; (*p)->hash_value = k; (*p)->is_operation = op_name(n);
}
static void assume_name(Interpreter &I, const S &n) {
  if (I.dictionary_inv.count(n) == 0) return;
  size_t k = I.dictionary_inv.find(n)->second; assume(I.dictionary.count(k) == 1); assume(I.dictionary.find(k)->second == n); assume_key(I, k);
}
static void fresh(Interpreter &I, size_t k) { assume(!I.dictionary.count(k)); assume(!I.objects.count(k)); assume(!I.count.count(k)); }
struct View { bool reg; pTerm *obj; Term *t; size_t key; };
static View view(Interpreter &I, S n) { View v; v.reg = I.check_by_name(n); v.obj = nullptr; v.t = nullptr; v.key = 0; if (v.reg) { v.key = I.get_by_name(n); v.obj = I.get_object(v.key); v.t = v.obj->get(); } return v; }
static void arbitrary(Interpreter &I) {
#ifdef VF_MODEL
  cur = &I; I.dictionary.__lazy(); I.objects.__lazy(); I.dictionary_inv.__lazy(); I.count.__lazy();
#else
  I.reset(); size_t m = nd_size("entries", 0, 4);
  for (size_t i = 0; i < m; ++i) { S s = nd_str("name"); bool op = nd_bool("op"); if (op) s = "^" + s; if (I.dictionary_inv.count(s)) continue; pTerm *p = new pTerm(op ? new OPERATION::Operation() : new Term(), &I); I.put((*p)->hash_value, s, p); new pTerm(*p); if (nd_bool("counted twice")) I.put((*p)->hash_value, s, p); }
#endif
}
static S word(const char *l) { S n = nd_str(l); assume(!op_name(n)); return n; }
enum How { ATOM, OP, API };
static S full(int how, const S &n) { return how == OP ? "^" + n : n; }
static bool making = false;
#ifdef VF_MODEL
extern "C" void vf_term(void *t) { new (t) Term(); if (making) { making = false; fresh(INTERPRETER::interpreter, ((Term *)t)->hash_value); making = true; } }
#endif
static pTerm *read_(int how, const S &n) {
  switch (how) { case ATOM: return (pTerm *)P::atom_term(nullptr, Args{new S(n)}); case OP: return (pTerm *)P::operation(nullptr, Args{new S(n)}); default: return new pTerm(Term::create(n.c_str())); }
}
static pTerm *read(int how, const S &n) { making = true; pTerm *r = read_(how, n); making = false; return r; }
// reading a name: any way, any dictionary
static void read_one(int how) {
  Interpreter &I = INTERPRETER::interpreter; S n = word("name"), other = nd_str("other name"); S f = full(how, n); arbitrary(I); assume_name(I, f); assume_name(I, other);
  View v = view(I, f), o = view(I, other);
  pTerm *r = read(how, n); CHECK(r != nullptr && *r != nullptr, "reading a name yields a term"); Term &t = **r;
  if (v.reg) CHECK(&t == v.t, "a registered name denotes its registered term");
  CHECK(t.is_operation == (how == OP), "exactly an operator's name denotes an operator"); CHECK(t.is_atom() && !t.is_var && !t.is_interval, "a name denotes an atom");
  CHECK(I.check_by_name(f), "a name that was read is registered"); CHECK(I.get_by_name(f) == t.hash_value, "the name read is registered for the term"); CHECK(I.check(t.hash_value), "the term read is registered"); CHECK(I.get(t.hash_value) == f, "the term is registered under exactly the name read");
  CHECK(I.get_object(t.hash_value) != nullptr && I.get_object(t.hash_value)->get() == &t, "the name read leads back to the term");
  CHECK(r->_interpreter == &I, "the term read knows its dictionary");
  if (other != f) { View w = view(I, other); CHECK(w.reg == o.reg && w.key == o.key && w.obj == o.obj && w.t == o.t, "reading a name leaves other names alone"); if (o.reg) CHECK(o.t != &t, "different names denote different terms"); }
  pTerm *r2 = read(how, n); CHECK(r2->get() == &t, "reading a name again yields the same term"); cover("end");
}
PROOF(read_atom) { read_one(ATOM); }
PROOF(read_operator) { read_one(OP); }
PROOF(create_atom) { read_one(API); }
PROOF(two_names) {   // any two reads, in either order, over any dictionary
  Interpreter &I = INTERPRETER::interpreter; int h = nd_choice("first", 0, 2), g = nd_choice("second", 0, 2); S m = word("name"), n = word("second name"); S fm = full(h, m), fn = full(g, n); arbitrary(I); assume_name(I, fm); assume_name(I, fn);
  pTerm *a = read(h, m), *b = read(g, n);
  CHECK((a->get() == b->get()) == (fm == fn), "two names denote the same term exactly when they are the same name"); CHECK((*a)->is_operation == (h == OP) && (*b)->is_operation == (g == OP), "an operator never collides with the atom of the same spelling");
  CHECK((*a)->hash_value == (*b)->hash_value ? fm == fn : fm != fn, "different names have different keys"); pTerm *c = read(h, m); CHECK(c->get() == a->get(), "reading a name again yields the same term"); cover("end");
}
PROOF(lifetime) {   // a name stays with its term as long as a reader holds it, whatever else is released
  Interpreter &I = INTERPRETER::interpreter; I.reset(); int h = nd_choice("first", 0, 2), g = nd_choice("second", 0, 2); S m = word("name"), n = word("second name"); S fm = full(h, m), fn = full(g, n);
  pTerm *a = read(h, m), *b = read(g, n), *c = read(h, m); Term *t = a->get(), *u = b->get();
  delete c; CHECK(I.check_by_name(fm) && I.get_object(I.get_by_name(fm))->get() == t, "releasing one of several references keeps the name"); delete b;
  CHECK(I.check_by_name(fm) && I.get(t->hash_value) == fm, "a held term keeps its name"); if (fm != fn) CHECK(!I.check_by_name(fn), "the last release frees the name");
  pTerm *d = read(h, m); CHECK(d->get() == t, "a held term keeps being denoted by its name"); delete d; delete a; CHECK(!I.check_by_name(fm), "the last release frees the name");
  pTerm *e = read(g, m); CHECK((*e)->is_operation == (g == OP) && I.dictionary_inv.count(full(g, m)) == 1, "a freed name can be used again"); cover("end");
}
