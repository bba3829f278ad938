#include "terms.h"
#include <map>
#include "Narsese/include/Narsese.h"
#include "Narsese/Parser/NarseseParser.h"
namespace P = NARSESEPARSER; using PARSER::Args; using INTERVAL::Interval; using OPERATION::Operation; typedef std::vector<pTerm> V; typedef std::string S; typedef void *(*Act)(P::Parser *, const Args &);
// OPT * init=1 search=40000
// OPT prefix_compound time=350 weight=9
// OPT registration loop_limit=100000 time=300
// OPT transform loop_limit=100000 time=300
// OPT fresh_names loop_limit=100000 time=300
// OPT productions loop_limit=100000 time=300
// OVERRIDE ^TERM::Term::operator<\(TERM::Term&\) => vf_less
// OVERRIDE ^TERM::Term::operator==\(TERM::Term&\) => vf_equal
// OVERRIDE ^INDEXVAR::IndexVar::build\(bool\) => vf_build
// OVERRIDE ^COMPOUND::Compound::Compound\(CONNECTOR::Connector, std::shared_ptr<TERM::Terms>, bool\) => vf_compound
// OVERRIDE ^STATEMENT::Statement::Statement\(TERM::pTerm, COPULA::Copula, TERM::pTerm, bool\) => vf_statement
// OVERRIDE ^PARSER::Parser::transform\(_AST\*\) => vf_transform
// OVERRIDE ^PARSER::Parser::parse_string\( => vf_parse_string
// OVERRIDE ^NARSESEPARSER::operation\( => vf_operation
// MERGE ^bool std::any_of
// MERGE ^(void )?TERM::Term::_build_indexvars
// ASSUME building the occurrence index touches nothing but that index (contract proved as C11)
// ASSUME the constructor of a compound takes over connector and components and normalises them, that of a statement takes over its parts (contracts proved as C15 and C19); its clones equal their originals (C16)
// ASSUME transforming the children of a node obeys the contract proved here (induction over the depth of the syntax tree)
// ASSUME an operator word denotes the operator of that name (contract proved as C22)
#ifdef VF_MODEL
extern "C" void vf_build(INDEXVAR::IndexVar *x, bool re) { x->_is_built = true; }
extern "C" void vf_compound(Compound *self, CONNECTOR::Connector k, TERM::pTerms terms, bool is_input) { Term *t = new ((void *)self) Term(TermType::COMPOUND); t->connector = k; t->terms = terms; t->hash_value = nd_u64("hash"); t->is_hashed = true; t->complexity = nd_int("complexity", 1, 1 << 20); t->has_ivar = nd_bool("$"); t->has_dvar = nd_bool("#"); t->has_qvar = nd_bool("?"); t->has_var = (int)t->has_ivar | (int)t->has_dvar | (int)t->has_qvar; }
extern "C" void vf_statement(Statement *self, pTerm s, COPULA::Copula k, pTerm p, bool is_input) { Term *t = new ((void *)self) Term(TermType::STATEMENT); t->copula = k; t->subject = s; t->predicate = p; t->hash_value = nd_u64("hash"); t->is_hashed = true; t->complexity = nd_int("complexity", 1, 1 << 20); t->has_ivar = nd_bool("$"); t->has_dvar = nd_bool("#"); t->has_qvar = nd_bool("?"); t->has_var = (int)t->has_ivar | (int)t->has_dvar | (int)t->has_qvar; }
static S op_word; static Term *op_term;
extern "C" void *vf_operation(P::Parser *self, const Args &a) { op_word = *(S *)a[0]; pTerm t(new Operation()); op_term = t.get(); return new pTerm(t); }
static bool is_op(const pTerm &t, const S &w) { return (int)(t.get() == op_term) & (int)(op_word == w); }
static bool same(Term &a, Term &b) { return &a == &b; }
#else
static bool is_op(const pTerm &t, const S &w) { return t->is_operation && t->is_atom() && INTERPRETER::interpreter.check(t->hash_value) && INTERPRETER::interpreter.get(t->hash_value) == "^" + w; }
static bool same(Term &a, Term &b) {   // up to cloning
  if (&a == &b) return true; if (a.type != b.type || a.hash_value != b.hash_value || a.is_var != b.is_var || a.has_var != b.has_var || a.is_operation != b.is_operation || a.complexity != b.complexity) return false;
  if (a.is_statement()) return a.copula == b.copula && same(*a.subject, *b.subject) && same(*a.predicate, *b.predicate);
  if (a.is_compound()) { if (a.connector != b.connector || a.terms->size() != b.terms->size()) return false; auto i = a.terms->begin(); auto j = b.terms->begin(); for (; i != a.terms->end(); ++i, ++j) if (!same(**i, **j)) return false; return true; }
  return a.is_var && ((Variable &)a).name == ((Variable &)b).name;
}
#endif
static pTerm atom() { pTerm t(new Term()); 
#ifdef VF_MODEL
  __vf_mark(t.get(), "rank", nd_u64("rank")); __vf_mark(t.get(), "cls", (uint64_t)t.get());
#endif
  return t; }
static pTerm own(pTerm t) {
#ifdef VF_MODEL
  __vf_mark(t.get(), "rank", nd_u64("rank")); __vf_mark(t.get(), "cls", (uint64_t)t.get());
#endif
  return t; }
// an operand of any kind
static pTerm operand() {
  switch (nd_choice("operand", 0, 7)) {
    case 0: return atom();
    case 1: return own(pTerm(new Operation()));
    case 2: { pTerm v(new Variable(VarPrefix::Independent, "x")); v->_vars_independent->add(0, {}); return own(v); }
    case 3: return own(pTerm(new Statement(atom(), COPULA::Inheritance, atom(), true)));
    case 4: return own(pTerm(new Compound(CONNECTOR::PRODUCT, {atom(), atom()}, true)));
    case 5: return own(pTerm(new Compound(CONNECTOR::EXTENSIONAL_SET, {atom(), atom()}, true)));
    case 6: return own(pTerm(new Compound(CONNECTOR::INTENSIONAL_SET, {atom(), atom()}, true)));
    default: return own(pTerm(new Statement(pTerm(new Compound(CONNECTOR::PRODUCT, {atom()}, true)), COPULA::Inheritance, pTerm(new Operation()), true)));
  }
}
static void *boxed(const pTerm &t) { return new pTerm(t); }
static pTerm result(void *r) { CHECK(r != nullptr, "an action yields a term"); pTerm t = *(pTerm *)r; CHECK(t != nullptr, "an action yields a term"); return t; }
static bool same_parts(TERM::Terms &a, TERM::Terms &b) { if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); int ok = 1; for (; i != a.end(); ++i, ++j) ok &= (int)same(**i, **j); return ok; }
// t is the compound of the given components under the connector, in textual order
static void compound_of(const pTerm &t, CONNECTOR::Connector k, const V &c) {
  V l = c; CHECK(t->type == TermType::COMPOUND, "a compound is built");
#ifdef VF_MODEL
  TERM::Terms ref(l, CONNECTOR::is_commutative(k)); CHECK(t->connector == k, "the compound has the connector written"); CHECK(same_parts(*t->terms, ref), "the compound has the components written, in their order");
#else
  pTerm ref(new Compound(k, l, true)); CHECK(t->connector == ref->connector, "the compound has the connector written"); CHECK(same_parts(*t->terms, *ref->terms), "the compound has the components written, in their order"); CHECK(t->complexity == ref->complexity && t->hash_value == ref->hash_value && t->has_var == ref->has_var, "the compound is the one of its components");
#endif
}
static void product_of(const pTerm &t, const V &c) { CHECK(t->type == TermType::COMPOUND && t->connector == CONNECTOR::Product, "the compound has the connector written"); CHECK(t->terms->size() == c.size(), "the product has the components written"); size_t i = 0; for (auto &x : *t->terms) { CHECK(x.get() == c[i].get(), "the components are in textual order"); ++i; } }
static const Act copulas[] = {P::inheritance, P::similarity, P::instance, P::property, P::instance_property, P::implication, P::predictive_implication, P::concurrent_implication, P::retrospective_implication, P::equivalence, P::predictive_equivalence, P::concurrent_equivalence};
PROOF(statement) {
  int k = nd_choice("copula", 0, 11); void *cop = copulas[k](nullptr, Args()); CHECK(cop != nullptr && *(COPULA::Copula *)cop == (COPULA::Copula)k, "a copula's notation denotes that copula");
  pTerm a = operand(), b = nd_bool("same operand") ? a : operand(); pTerm t = result(P::statement(nullptr, Args{boxed(a), cop, boxed(b)})); CHECK(t->type == TermType::STATEMENT, "a statement is built");
  bool si = k == COPULA::Instance || k == COPULA::InstanceProperty, sp = k == COPULA::Property || k == COPULA::InstanceProperty;
  CHECK(t->copula == (si || sp ? COPULA::Inheritance : (COPULA::Copula)k), "the statement has the copula written, instance and property becoming inheritance");
  if (si) compound_of(t->subject, CONNECTOR::ExtensionalSet, {a}); else CHECK(t->subject.get() == a.get(), "the subject is the term written first");
  if (sp) compound_of(t->predicate, CONNECTOR::IntensionalSet, {b}); else CHECK(t->predicate.get() == b.get(), "the predicate is the term written last");
  cover("end");
}
static V operands(size_t lo, size_t hi) { size_t n = nd_size("components", lo, hi); V c; for (size_t i = 0; i < n; ++i) c.push_back(n > 2 ? atom() : operand()); if (n >= 2) { int k = nd_choice("repeated operand", 0, n - 1); if (k) c[k] = c[k == 2 ? 0 : k - 1]; } return c; }
static void args(Args &a, const V &c) { for (auto &x : c) a.push_back(boxed(x)); }
PROOF(operation_statement) {
  bool named = nd_bool("written as call"); V c = operands(0, 4); Args a; pTerm op; S w;
  if (named) { w = nd_str("word"); a.push_back(new S(w)); } else { op = pTerm(new Operation()); a.push_back(boxed(op)); }
  args(a, c); pTerm t = result(named ? P::statement_operation2(nullptr, a) : P::statement_operation1(nullptr, a));
  CHECK(t->type == TermType::STATEMENT && t->copula == COPULA::Inheritance, "an operation is an inheritance statement"); product_of(t->subject, c);
  if (named) { CHECK(is_op(t->predicate, w), "the predicate is the operator named"); }
  else CHECK(t->predicate.get() == op.get(), "the predicate is the operator written");
  if (vf_native) CHECK(t->is_operation, "an operation statement is an operation"); cover("end");
}
struct Con { Act name; CONNECTOR::Connector k; };
static const Con multis[] = {{P::con_conjunction, CONNECTOR::Conjunction}, {P::con_disjunction, CONNECTOR::Disjunction}, {P::con_parallel_events, CONNECTOR::ParallelEvents}, {P::con_sequential_events, CONNECTOR::SequentialEvents}, {P::con_intensional_intersection, CONNECTOR::IntensionalIntersection}, {P::con_extensional_intersection, CONNECTOR::ExtensionalIntersection}, {P::con_product, CONNECTOR::Product},
  {P::con_extensional_difference, CONNECTOR::ExtensionalDifference}, {P::con_intensional_difference, CONNECTOR::IntensionalDifference}, {P::con_negation, CONNECTOR::Negation}, {P::con_int_set, CONNECTOR::IntensionalSet}, {P::con_ext_set, CONNECTOR::ExtensionalSet}, {P::con_int_image, CONNECTOR::IntensionalImage}, {P::con_ext_image, CONNECTOR::ExtensionalImage}};
static void *con(int i) { void *p = multis[i].name(nullptr, Args()); CHECK(p != nullptr && *(CONNECTOR::Connector *)p == multis[i].k, "a connector's notation denotes that connector"); return p; }
PROOF(prefix_compound) {   // (&&, a, b), {a, b}, (/, a, b), (--, a), (-, a, b), ...
  int i = nd_choice("connector", 0, 13); Args a; a.push_back(con(i)); CONNECTOR::Connector k = multis[i].k; bool single = k == CONNECTOR::Negation, pair = k == CONNECTOR::ExtensionalDifference || k == CONNECTOR::IntensionalDifference;
  V c = operands(single ? 1 : pair ? 2 : 1, single ? 1 : pair ? 2 : 3); args(a, c); 
  void *r = single ? P::negation(nullptr, a) : pair ? P::single_prefix(nullptr, a) : k == CONNECTOR::IntensionalSet || k == CONNECTOR::ExtensionalSet ? P::set(nullptr, a) : k == CONNECTOR::IntensionalImage ? P::int_image(nullptr, a) : k == CONNECTOR::ExtensionalImage ? P::ext_image(nullptr, a) : P::multi_prefix(nullptr, a);
  compound_of(result(r), k, c); cover("end");
}
static const Con infixes[] = {{P::multi_prod_expr, CONNECTOR::Product}, {P::multi_disj_expr, CONNECTOR::Disjunction}, {P::multi_conj_expr, CONNECTOR::Conjunction}, {P::multi_sequential_expr, CONNECTOR::SequentialEvents}, {P::multi_parallel_expr, CONNECTOR::ParallelEvents}, {P::multi_intint_expr, CONNECTOR::IntensionalIntersection}, {P::multi_extint_expr, CONNECTOR::ExtensionalIntersection}, {P::multi_prefix_product, CONNECTOR::Product}};
PROOF(infix_compound) {   // a && b && c, (a, b, c)
  int i = nd_choice("connector", 0, 7); V c = operands(2, 4); Args a; args(a, c); pTerm t = result(infixes[i].name(nullptr, a)); compound_of(t, infixes[i].k, c);
  if (infixes[i].k == CONNECTOR::Product) product_of(t, c); cover("end");
}
PROOF(infix_difference) { int i = nd_choice("connector", 7, 8); V c = operands(2, 2); Args a{boxed(c[0]), con(i), boxed(c[1])}; pTerm t = result(P::single_infix(nullptr, a)); compound_of(t, multis[i].k, c); CHECK(t->terms->size() == 2 && (*t->terms->begin()).get() == c[0].get() && (*++t->terms->begin()).get() == c[1].get(), "the components are in textual order"); cover("end"); }
PROOF(wrappers) { pTerm a = operand(); void *b = boxed(a); Act w[] = {P::variable_term, P::compound_term, P::statement_term, P::multi_infix}; void *r = w[nd_choice("wrapper", 0, 3)](nullptr, Args{b}); CHECK(result(r).get() == a.get(), "a term used as a term denotes itself"); cover("end"); }
PROOF(interval) { int n = nd_int("interval", 0, 1 << 30); pTerm t = result(P::interval(nullptr, Args{new double(n)})); CHECK(t->is_interval && t->is_atom() && ((Interval &)*t).interval == n, "an interval denotes the number written"); cover("end"); }
// variables of one text
struct Var { int kind; S name; pTerm t; };
static Var variable(P::Parser *self) {
  static const Act act[] = {P::independent_var, P::dependent_var, P::query_var}; Var v; v.kind = nd_choice("kind", 0, 2); v.name = nd_str("name"); v.t = result(act[v.kind](self, Args{new S(v.name)})); Term &t = *v.t;
  CHECK(t.is_var && t.is_atom() && t.has_var, "a variable is built"); CHECK(t.is_ivar == (v.kind == 0) && t.is_dvar == (v.kind == 1) && t.is_qvar == (v.kind == 2) && t.has_ivar == (v.kind == 0) && t.has_dvar == (v.kind == 1) && t.has_qvar == (v.kind == 2), "the variable is of the kind written");
  CHECK(((Variable &)t).prefix == KINDS[v.kind], "the variable is of the kind written"); CHECK(t._vars_independent->indices.size() == (v.kind == 0) && t._vars_dependent->indices.size() == (v.kind == 1) && t._vars_query->indices.size() == (v.kind == 2), "a variable occurs once in itself"); return v;
}
static int index(Var &v) { auto &x = v.kind == 0 ? v.t->_vars_independent : v.kind == 1 ? v.t->_vars_dependent : v.t->_vars_query; return *x->indices[0]; }
#ifndef VF_MODEL
struct Blank : P::NarseseParser { P::Parser *base() { return this; } };
static P::Parser *blank() { return (new Blank)->base(); }
#else
static P::Parser *blank() { P::Parser *p = (P::Parser *)::operator new(sizeof(P::Parser)); new (&p->names_ivar) std::unordered_map<S, long>(); new (&p->names_dvar) std::unordered_map<S, long>(); new (&p->names_qvar) std::unordered_map<S, long>(); return p; }
#endif
PROOF(variables) {
  P::Parser *self = blank(); Var v[4]; int n = nd_choice("occurrences", 1, 4); for (int i = 0; i < n; ++i) v[i] = variable(self);
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (v[i].kind == v[j].kind) CHECK((index(v[i]) == index(v[j])) == (v[i].name == v[j].name), "variables of a kind share their index exactly when they have the same name");
  int first = index(v[0]); CHECK(first == 0, "the first variable of a text has index 0"); cover("end");
}
// one step over the names of a text, however many there are: invariant at any two names - a known name's index is below the number of
// names, and different names have different indices
PROOF(variables_step) {
#ifdef VF_MODEL
  P::Parser *self = blank(); int kind = nd_choice("kind", 0, 2); auto &m = kind == 0 ? self->names_ivar : kind == 1 ? self->names_dvar : self->names_qvar; long n = nd_int("names", 0, 1l << 30); m.__lazy(n);
  static const Act act[] = {P::independent_var, P::dependent_var, P::query_var}; S a = nd_str("name"), b = nd_str("other name"); assume(a != b);
  P::Parser *probe = blank(); act[kind](probe, Args{new S("x")}); auto &pm = kind == 0 ? probe->names_ivar : kind == 1 ? probe->names_dvar : probe->names_qvar; CHECK(pm.size() == 1, "a name is counted once"); S ka = a, kb = b; if (pm.begin()->first != "x") { ka = VARIABLE::Repr[(int)KINDS[kind]] + a; kb = VARIABLE::Repr[(int)KINDS[kind]] + b; }   // the key a name is kept under
  bool ha = m.count(ka) != 0, hb = m.count(kb) != 0; long ia = 0, ib = 0; if (ha) { ia = m.find(ka)->second; assume((ia >= 0) & (ia < n)); } if (hb) { ib = m.find(kb)->second; assume((ib >= 0) & (ib < n)); } if (ha) if (hb) assume(ia != ib);
  Var v; v.kind = kind; v.name = a; v.t = result(act[kind](self, Args{new S(a)})); long i = index(v);
  if (ha) CHECK(i == ia, "a name written before keeps its index"); else CHECK((i >= 0) & (i < m.size()), "a new name's index is below the number of names"); CHECK(m.size() == (ha ? n : n + 1), "a name is counted once");
  CHECK(m.count(ka) == 1, "the name is known now"); CHECK(m.find(ka)->second == i, "the name is known under its index"); CHECK((m.count(kb) != 0) == hb, "other names are left alone"); if (hb) { CHECK(m.find(kb)->second == ib, "other names keep their index"); CHECK(i != ib, "different names have different indices"); }
#else
  P::Parser *self = blank(); int kind = nd_choice("kind", 0, 2), n = nd_choice("names", 0, 400); static const Act act[] = {P::independent_var, P::dependent_var, P::query_var}; S a = nd_str("name"), b = nd_str("other name"), x[] = {b, "0" + a, a + "0", a + a, "$" + a}; b = x[nd_choice("relation", 0, 4)];
  std::map<S, int> seen; auto use = [&](S s) { Var v; v.kind = kind; v.name = s; v.t = result(act[kind](self, Args{new S(s)})); int i = index(v); CHECK(i >= 0 && i < (long)seen.size() + 1, "a new name's index is below the number of names"); for (auto &e : seen) if (e.first == s) CHECK(e.second == i, "a name written before keeps its index"); else CHECK(e.second != i, "different names have different indices"); seen[s] = i; };
  for (int i = 0; i < n; ++i) use("n" + std::to_string(i)); use(a); use(b); use(a); use(b);
#endif
  cover("end");
}
// the notations: what is built where the grammar has a production or a token
struct Notation { const char *production, *emit; };
static const Notation notations[] = {
  {"task : &embedded_0? sentence", "task"},
  {"sentence : &embedded_1 .' &embedded_2? &embedded_3?", "judgement"},
  {"sentence : &embedded_4 ?' &embedded_5?", "question"},
  {"sentence : &embedded_6 !' &embedded_7? &embedded_8?", "goal"},
  {"sentence : &embedded_9 @' &embedded_10?", "quest"},
  {"statement : &embedded_11", "statement"},
  {"statement : (' op &embedded_12* )'", "statement_operation1"},
  {"statement : word (' term &embedded_13* )'", "statement_operation2"},
  {"copula : -->'", "inheritance"},
  {"copula : <->'", "similarity"},
  {"copula : {--'", "instance"},
  {"copula : --]'", "property"},
  {"copula : {-]'", "instance_property"},
  {"copula : ==>'", "implication"},
  {"copula : =/>'", "predictive_implication"},
  {"copula : =|>'", "concurrent_implication"},
  {"copula : =\\\\>'", "retrospective_implication"},
  {"copula : <=>'", "equivalence"},
  {"copula : </>'", "predictive_equivalence"},
  {"copula : <|>'", "concurrent_equivalence"},
  {"term : variable", "variable_term"},
  {"term_nonvar : word", "atom_term"},
  {"term_nonvar : compound_term", "compound_term"},
  {"term_nonvar : statement", "statement_term"},
  {"op : ^' word", "operation"},
  {"interval : +' integer'", "interval"},
  {"set : &embedded_14", "set"},
  {"negation : &embedded_17", "negation"},
  {"int_image : (' con_int_image ,' term &embedded_18* )'", "int_image"},
  {"ext_image : (' con_ext_image ,' term &embedded_19* )'", "ext_image"},
  {"multi : (' multi_infix_expr )'", "multi_infix"},
  {"multi : (' term &embedded_20+ )'", "multi_prefix_product"},
  {"multi : &embedded_23", "multi_prefix"},
  {"single : (' con_single ,' &embedded_24 ,' &embedded_25 )'", "single_prefix"},
  {"single : (' &embedded_26 con_single &embedded_27 )'", "single_infix"},
  {"multi_prod_expr : term &embedded_28+", "multi_prod_expr"},
  {"multi_disj_expr : term &embedded_29+", "multi_disj_expr"},
  {"multi_conj_expr : term &embedded_30+", "multi_conj_expr"},
  {"multi_sequential_expr : term &embedded_31+", "multi_sequential_expr"},
  {"multi_parallel_expr : term &embedded_32+", "multi_parallel_expr"},
  {"multi_intint_expr : term &embedded_33+", "multi_intint_expr"},
  {"multi_extint_expr : term &embedded_34+", "multi_extint_expr"},
  {"con_multi : &&'", "con_conjunction"},
  {"con_multi : ||'", "con_disjunction"},
  {"con_multi : &|'", "con_parallel_events"},
  {"con_multi : &/'", "con_sequential_events"},
  {"con_multi : |'", "con_intensional_intersection"},
  {"con_multi : &'", "con_extensional_intersection"},
  {"con_product : *'", "con_product"},
  {"con_single : -'", "con_extensional_difference"},
  {"con_single : ~'", "con_intensional_difference"},
  {"con_int_set : ['", "con_int_set"},
  {"con_ext_set : {'", "con_ext_set"},
  {"con_negation : --'", "con_negation"},
  {"con_int_image : \\\\'", "con_int_image"},
  {"con_ext_image : /'", "con_ext_image"},
  {"variable : $' word", "independent_var"},
  {"variable : #' word", "dependent_var"},
  {"variable : ?' word", "query_var"},
  {"tense : :!' integer' :'", "tense_time"},
  {"tense : :/:'", "tense_future"},
  {"tense : :|:'", "tense_present"},
  {"tense : :\\\\:'", "tense_past"},
  {"truth : %' frequency' &embedded_36? %'", "truth"},
  {"budget : $' priority' &embedded_38? $'", "budget"}};
struct Action { const char *emit; Act act; };
static const Action actions[] = {{"task", P::task}, {"judgement", P::judgement}, {"question", P::question}, {"goal", P::goal}, {"quest", P::quest}, {"statement", P::statement}, {"statement_operation1", P::statement_operation1}, {"statement_operation2", P::statement_operation2}, {"inheritance", P::inheritance}, {"similarity", P::similarity}, {"instance", P::instance}, {"property", P::property}, {"instance_property", P::instance_property}, {"implication", P::implication}, {"predictive_implication", P::predictive_implication}, {"concurrent_implication", P::concurrent_implication}, {"retrospective_implication", P::retrospective_implication}, {"equivalence", P::equivalence}, {"predictive_equivalence", P::predictive_equivalence}, {"concurrent_equivalence", P::concurrent_equivalence}, {"variable_term", P::variable_term}, {"atom_term", P::atom_term}, {"compound_term", P::compound_term}, {"statement_term", P::statement_term}, {"operation", P::operation}, {"interval", P::interval}, {"set", P::set}, {"negation", P::negation}, {"int_image", P::int_image}, {"ext_image", P::ext_image}, {"multi_infix", P::multi_infix}, {"multi_prefix_product", P::multi_prefix_product}, {"multi_prefix", P::multi_prefix}, {"single_prefix", P::single_prefix}, {"single_infix", P::single_infix}, {"multi_prod_expr", P::multi_prod_expr}, {"multi_disj_expr", P::multi_disj_expr}, {"multi_conj_expr", P::multi_conj_expr}, {"multi_sequential_expr", P::multi_sequential_expr}, {"multi_parallel_expr", P::multi_parallel_expr}, {"multi_intint_expr", P::multi_intint_expr}, {"multi_extint_expr", P::multi_extint_expr}, {"con_conjunction", P::con_conjunction}, {"con_disjunction", P::con_disjunction}, {"con_parallel_events", P::con_parallel_events}, {"con_sequential_events", P::con_sequential_events}, {"con_intensional_intersection", P::con_intensional_intersection}, {"con_extensional_intersection", P::con_extensional_intersection}, {"con_product", P::con_product}, {"con_extensional_difference", P::con_extensional_difference}, {"con_intensional_difference", P::con_intensional_difference}, {"con_int_set", P::con_int_set}, {"con_ext_set", P::con_ext_set}, {"con_negation", P::con_negation}, {"con_int_image", P::con_int_image}, {"con_ext_image", P::con_ext_image}, {"independent_var", P::independent_var}, {"dependent_var", P::dependent_var}, {"query_var", P::query_var}, {"tense_time", P::tense_time}, {"tense_future", P::tense_future}, {"tense_present", P::tense_present}, {"tense_past", P::tense_past}, {"truth", P::truth}, {"budget", P::budget}, {"string_raw", P::string_raw}, {"string", P::string}, {"quality", P::quality}, {"durability", P::durability}, {"priority", P::priority}, {"k_evidence", P::k_evidence}, {"confidence", P::confidence}, {"frequency", P::frequency}, {"integer", P::integer}};
static int same_text(const char *a, const char *b) { while (*a != 0) { if (*a != *b) return 0; ++a; ++b; } return *b == 0; }
struct Open : P::NarseseParser { P::Parser *base() { return this; } };
static P::Parser *parser() { static Open *p = new Open; return p->base(); }
PROOF(registration) {
  P::Parser *p = parser(); int n = sizeof(p->productions) / sizeof(p->productions[0]), m = sizeof(p->symbols) / sizeof(p->symbols[0]), k = 0;
  for (int i = 0; i < n + m; ++i) {
    const char *e = i < n ? p->productions[i].emit : p->symbols[i - n].emit; if (*e == 0) continue;
    int found = 0; for (auto &a : actions) if (same_text(a.emit, e)) { found = 1; CHECK(p->get_function(e) == (long)a.act, "what a production emits runs the action of that name"); } CHECK(found, "every emitted name has an action"); ++k;
    if (i >= n) CHECK(same_text(p->symbols[i - n].name, e), "a token runs the action of its name");
  }
  CHECK(k == sizeof(actions) / sizeof(actions[0]), "every action has a production or token"); cover("end");
}
PROOF(productions) {
  P::Parser *p = parser(); int n = sizeof(p->productions) / sizeof(p->productions[0]), k = 0, N = sizeof(notations) / sizeof(notations[0]);
  for (int i = 0; i < n; ++i) {
    const char *e = p->productions[i].emit, *d = p->productions[i].definition; int found = 0; for (auto &x : notations) if (same_text(x.production, d)) { found = 1; CHECK(same_text(x.emit, e), "a production emits the meaning of its notation"); }
    if (found) ++k; else CHECK(*e == 0, "other productions emit nothing");
  }
  CHECK(k == N, "every notation has its production"); cover("end");
}
// the syntax tree is evaluated bottom-up, siblings in order
static P::Parser *evaluator; static std::vector<Args> calls; static std::vector<P::Parser *> selfs;
static void *act(P::Parser *self, const Args &a) { calls.push_back(a); selfs.push_back(self); return new int((int)calls.size()); }
static void *other(P::Parser *self, const Args &a) { return nullptr; }
static _ast *node(const char *emit, char *token, _ast *child) { _ast *n = new _ast(); n->emit = emit; n->token = token; n->child = child; n->next = n->prev = n->parent = nullptr; return n; }
#ifdef VF_MODEL
static Args subresults[4]; static int asked[4];
extern "C" Args *vf_transform(P::Parser *self, _ast *n) { if (n && __vf_marked(n, "subtree")) { int i = (int)__vf_markof(n, "subtree"); CHECK(self == evaluator, "the children are evaluated by the same parser"); ++asked[i]; return new Args(subresults[i]); } return self->transform(n); }
#endif
PROOF(transform) {
  P::Parser *p = parser(); evaluator = p; static const char registered[] = "vf action"; static const char unknown[] = "vf no action"; p->regist("vf other", other); p->regist(registered, act); calls.clear(); selfs.clear();
  int n = nd_choice("siblings", 1, 3); _ast *first = nullptr, *last = nullptr; bool reg[3], leaf[3]; char *token[3]; std::vector<Args> sub;
  for (int i = 0; i < n; ++i) {
    reg[i] = nd_bool("registered"); leaf[i] = nd_bool("leaf"); token[i] = leaf[i] ? new char[3]{(char)nd_int("char", -128, 127), (char)nd_int("char", -128, 127), 0} : nullptr; _ast *child = nullptr; Args r;
    if (!leaf[i]) {
      int m = nd_choice("children", vf_native ? 1 : 0, 2); if (m) child = node(registered, (char *)"leaf", nullptr);
#ifdef VF_MODEL
      if (m) __vf_mark(child, "subtree", i); for (int j = 0; j < m; ++j) r.push_back(new int(j)); subresults[i] = r; asked[i] = 0;
#else
      if (m == 2) child->next = node(registered, (char *)"leaf", nullptr);
      r.resize(m);
#endif
    }
    sub.push_back(r); _ast *x = node(reg[i] ? registered : unknown, token[i], child); if (last) { last->next = x; x->prev = last; } else first = x; last = x;
  }
  Args *out = p->transform(first); CHECK(out != nullptr && out->size() == n, "one result per sibling");
#ifdef VF_MODEL
  int k = 0;
  for (int i = 0; i < n; ++i) {
    if (!leaf[i] & (sub[i].size() > 0)) CHECK(asked[i] == 1, "the children are evaluated once");
    if (!reg[i]) { CHECK((*out)[i] == nullptr, "a node without an action has no value"); continue; }
    CHECK(k < calls.size() && selfs[k] == p, "the action of each node runs, in order"); if (leaf[i]) CHECK(calls[k].size() == 1 && calls[k][0] == token[i], "the action of a token gets its text");
    else { CHECK(calls[k].size() == sub[i].size(), "the action of a node gets the values of its children"); for (size_t j = 0; j < sub[i].size(); ++j) CHECK(calls[k][j] == sub[i][j], "the action of a node gets the values of its children, in order"); }
    ++k; CHECK((*out)[i] != nullptr && *(int *)(*out)[i] == k, "the value of a node is that of its action, in order");
  }
  CHECK(calls.size() == k, "every action runs once");
#else
  int k = 0; for (int i = 0; i < n; ++i) { for (size_t j = 0; j < sub[i].size(); ++j) ++k; if (!reg[i]) { CHECK((*out)[i] == nullptr, "a node without an action has no value"); continue; } ++k; CHECK((*out)[i] != nullptr && *(int *)(*out)[i] == k, "the value of a node is that of its action, in order"); const Args &a = calls[k - 1]; if (leaf[i]) CHECK(a.size() == 1 && a[0] == token[i], "the action of a token gets its text"); else { CHECK(a.size() == sub[i].size(), "the action of a node gets the values of its children"); for (size_t j = 0; j < a.size(); ++j) CHECK(*(int *)a[j] == k - (int)a.size() + (int)j, "the action of a node gets the values of its children, in order"); } }
  CHECK(calls.size() == k, "every action runs once");
#endif
  CHECK(p->transform(nullptr) == nullptr, "an empty tree has no value"); cover("end");
}
// variable names are those of one text only
#ifdef VF_MODEL
static void *parsed; static bool cleared;
extern "C" void *vf_parse_string(P::Parser *p, S &text) { cleared = (int)p->names_ivar.empty() & (int)p->names_dvar.empty() & (int)p->names_qvar.empty(); return parsed; }
#endif
PROOF(fresh_names) {
  static Open *o = new Open; P::Parser *p = o->base(); int n = nd_choice("names", 0, 3); for (int i = 0; i < n; ++i) { S s = nd_str("name"); (*(i == 0 ? &p->names_ivar : i == 1 ? &p->names_dvar : &p->names_qvar))[s] = i; } 
#ifdef VF_MODEL
  parsed = nullptr; S text = "t"; o->parse_task(text); CHECK(cleared, "a text starts without variable names");
#else
  S text = "<<$vfa --> #vfb> ==> <#vfb --> $vfc>>."; auto t = o->parse_task(text); Term &s = *t->sentence->term; CHECK(*s.subject->subject->_vars_independent->indices[0] == 0 && *s.predicate->predicate->_vars_independent->indices[0] == 1 && *s.subject->predicate->_vars_dependent->indices[0] == 0, "a text starts without variable names");
#endif
  cover("end");
}
// more components, by example
static pTerm atom_at(uint64_t r) { pTerm t(new Term());
#ifdef VF_MODEL
  __vf_mark(t.get(), "rank", r); __vf_mark(t.get(), "cls", r);
#else
  t->hash_value = 100000 + r;
#endif
  return t; }
PROOF(many_components) {
  for (int e = 6; e < 12; e += 5) { V c; for (int i = 0; i < e; ++i) c.push_back(atom_at(i * 5 % (e + 1))); c.push_back(c[1]);
    for (int i = 0; i < 8; ++i) { Args a; args(a, c); pTerm t = result(infixes[i].name(nullptr, a)); compound_of(t, infixes[i].k, c); if (infixes[i].k == CONNECTOR::Product) product_of(t, c); }
    for (int i = 0; i < 14; ++i) { CONNECTOR::Connector k = multis[i].k; if (k == CONNECTOR::Negation || k == CONNECTOR::ExtensionalDifference || k == CONNECTOR::IntensionalDifference) continue; Args a; a.push_back(con(i)); args(a, c); void *r = k == CONNECTOR::IntensionalSet || k == CONNECTOR::ExtensionalSet ? P::set(nullptr, a) : k == CONNECTOR::IntensionalImage ? P::int_image(nullptr, a) : k == CONNECTOR::ExtensionalImage ? P::ext_image(nullptr, a) : P::multi_prefix(nullptr, a); compound_of(result(r), k, c); }
    for (int named = 0; named < 2; ++named) { Args a; pTerm op; if (named) a.push_back(new S("op")); else { op = pTerm(new Operation()); a.push_back(boxed(op)); } args(a, c); pTerm t = result(named ? P::statement_operation2(nullptr, a) : P::statement_operation1(nullptr, a)); product_of(t->subject, c); if (named) CHECK(is_op(t->predicate, "op"), "the predicate is the operator named"); else CHECK(t->predicate.get() == op.get(), "the predicate is the operator written"); }
  } cover("end");
}
