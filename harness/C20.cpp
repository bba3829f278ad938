#include "terms.h"
#include "Narsese/include/Narsese.h"
#include "Interpreter/include/Interpreter.hpp"
using INTERPRETER::Interpreter; using INTERVAL::Interval; using OPERATION::Operation; using TASK::Task; using namespace SENTENCE; using TRUTH::Truth; using TRUTH::pTruth; typedef std::string S; typedef std::vector<pTerm> V;
// OPT * init=1 search=40000
// OVERRIDE ^INTERPRETER::Interpreter::interpret\(TERM::Term&, bool\)$ => vf_term
// OVERRIDE ^INTERPRETER::Interpreter::interpret\(SENTENCE::Sentence&, bool\)$ => vf_sentence
// OVERRIDE ^INDEXVAR::IndexVar::build\(bool\) => vf_build
// ASSUME a component renders as some text of its own for each colouring mode (induction over the nesting depth); any text
// ASSUME styling a text only surrounds it with terminal escapes (the colours themselves are not specified)
// ASSUME the hash of a composite term is not registered as a name
// What is shown of a coloured text: natively without the terminal escapes, which the verifier's contract of styling does not produce.
static S shown(const S &s) {
#ifdef VF_MODEL
  return s;
#else
  S r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') ++i; } else r += s[i]; } return r;
#endif
}
static S *(*text)[2], **sentence_text; static int texts; static Sentence *the_sentence;
#ifdef VF_MODEL
extern "C" void vf_build(INDEXVAR::IndexVar *x, bool re) { x->_is_built = true; }
extern "C" S vf_term(Interpreter *I, Term *t, bool colored) { if (__vf_marked(t, "text")) return *text[__vf_markof(t, "text")][colored]; return I->interpret(*t, colored); }
extern "C" S vf_sentence(Interpreter *I, Sentence *s, bool colored) { if (s == the_sentence) return *sentence_text[colored]; return I->interpret(*s, colored); }
#endif
static Interpreter &fresh() { Interpreter &I = *new Interpreter(); 
#ifdef VF_MODEL
  I.dictionary.__lazy();
#endif
  return I; }
static S any_name() { 
#ifndef VF_MODEL
  static const char *odd[] = {"a{b", "{}", "}", "{{x}}", "\"a b\"", "{0}"}; int k = nd_choice("odd", 0, 11); if (k < 6) return odd[k];
#endif
  return nd_str("name"); }
static pTerm component(Interpreter &I) { pTerm t(new Term()); 
#ifdef VF_MODEL
  int i = texts++; text[i][0] = new S(nd_str("text")); text[i][1] = new S(nd_str("coloured text")); __vf_mark(t.get(), "text", i);
#else
  t->hash_value = 1000 + texts++; I.put(t->hash_value, any_name(), new pTerm(t));
#endif
  return t; }
static S shows(Interpreter &I, const pTerm &t, bool colored) {
#ifdef VF_MODEL
  return *text[__vf_markof(t.get(), "text")][colored];
#else
  return I.get(t->hash_value);
#endif
}
static V components(Interpreter &I, size_t lo, size_t hi) { size_t n = nd_size("components", lo, hi); V v; for (size_t i = 0; i < n; ++i) v.push_back(component(I)); if (n >= 2) { int k = nd_choice("repeated component", 0, n - 1); if (k) v[k] = v[k == 2 ? 0 : k - 1]; int l = nd_choice("last component repeats", 0, n - 1); v[n - 1] = v[n - 1 - l]; } return v; }
static void begin() { texts = 0; text = new S *[8][2]; sentence_text = new S *[2]; }
static void composite(Interpreter &I, const pTerm &t) { t->is_hashed = true; t->hash_value = vf_native ? 7 : nd_u64("hash"); if (!vf_native) assume(!I.check(t->hash_value)); }
static const char *COPULAS[] = {"-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"};
static const char *CONNECTORS[] = {"&&", "||", "*", "&|", "&/", "|", "&", "-", "~", "--", "[", "{", "\\", "/", "#"};
PROOF(atom) {
  begin(); Interpreter &I = fresh(); bool c = nd_bool("coloured"); pTerm t; S want;
  switch (nd_choice("atom", 0, 4)) {
    case 0: { t = pTerm(new Term()); S n = any_name(); I.put(t->hash_value, n, new pTerm(t)); want = n; break; }
    case 1: { t = pTerm(new Operation()); S n = any_name(); I.put(t->hash_value, n, new pTerm(t)); want = n; break; }
    case 2: { int n = (int)nd_int("interval", INT32_MIN, INT32_MAX); t = pTerm(new Interval(n)); want = fmt::format("{:+d}", n); break; }
    default: { int k = nd_choice("kind", 0, 2); int x = (int)nd_int("index", INT32_MIN, INT32_MAX); t = pTerm(new Variable(KINDS[k], "x")); auto &v = k == 0 ? t->_vars_independent : k == 1 ? t->_vars_dependent : t->_vars_query; v->add(x, {}); want = S(k == 0 ? "$" : k == 1 ? "#" : "?") + std::to_string(x); }
  }
  CHECK(shown(I.interpret(*t, c)) == want, "an atom renders as its name, a variable as its kind and index, an interval as its signed length"); cover("end");
}
PROOF(unnamed) {   // a term without a name
  begin(); Interpreter &I = *new Interpreter(); bool op = nd_bool("operator"); pTerm t = op ? pTerm(new Operation()) : pTerm(new Term()); S a = I.interpret(*t, false), b = shown(I.interpret(*t, true));
  CHECK(a == b, "colouring shows the same text"); CHECK(a.substr(0, op ? 3 : 2) == (op ? "^0x" : "0x"), "a term without a name renders as its address"); cover("end");
}
PROOF(statement) {
  begin(); Interpreter &I = fresh(); bool c = nd_bool("coloured"); pTerm a = component(I), b = nd_bool("same component") ? a : component(I); int k = nd_choice("copula", 0, 11);
  pTerm d(new Term()); pTerm t(new Statement(d, COPULA::Inheritance, d, true)); t->subject = a; t->predicate = b; t->copula = (COPULA::Copula)k; composite(I, t);
  CHECK(shown(I.interpret(*t, c)) == S("<") + shows(I, a, c) + " " + COPULAS[k] + " " + shows(I, b, c) + ">", "a statement renders as subject, copula and predicate"); cover("end");
}
static S joined(Interpreter &I, const V &v, bool c) { S r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ", "; r += shows(I, v[i], c); } return r; }
static pTerm bare_compound(CONNECTOR::Connector k, V v) { V e; pTerm t(new Compound(CONNECTOR::Product, e, true)); t->terms = TERM::pTerms(new TERM::Terms(v, false)); t->connector = k; return t; }
PROOF(operation) {
  begin(); Interpreter &I = fresh(); bool c = nd_bool("coloured"); V v = components(I, 0, 5); size_t n = v.size(); pTerm op(new Operation()); S name = "^" + any_name(); I.put(op->hash_value, name, new pTerm(op));
  pTerm d(new Term()); pTerm p = bare_compound(CONNECTOR::Product, v), t(new Statement(d, COPULA::Inheritance, d, true)); t->subject = p; t->predicate = op; t->is_operation = true; composite(I, t); composite(I, p);
  S want = S("(") + name; if (n) want += ", "; want += joined(I, v, c); want += ")"; CHECK(shown(I.interpret(*t, c)) == want, "an operation renders as operator and arguments in their order"); cover("end");
}
PROOF(compound) {
  begin(); Interpreter &I = fresh(); bool c = nd_bool("coloured"); V v = components(I, 1, 5); size_t n = v.size(); int k = nd_choice("connector", 0, 14); pTerm t = bare_compound((CONNECTOR::Connector)k, v); composite(I, t);
  S want = k == CONNECTOR::ExtensionalSet ? S("{") : k == CONNECTOR::IntensionalSet ? S("[") : S("(") + CONNECTORS[k] + ", "; want += joined(I, v, c); want += k == CONNECTOR::ExtensionalSet ? "}" : k == CONNECTOR::IntensionalSet ? "]" : ")";
  CHECK(shown(I.interpret(*t, c)) == want, "a compound renders as connector and components in their order"); cover("end");
}
PROOF(sentence) {
  begin(); Interpreter &I = fresh(); bool c = nd_bool("coloured"); pTerm t = component(I); double f = nd_real("frequency", 0, 1), cc = nd_real("confidence", 0, 1); bool eternal = nd_bool("eternal"); GLOBAL::time = nd_timestamp("now", -(1 << 29), 1 << 29); pStamp st(new Stamp((int)nd_timestamp("time", -(1 << 29), 1 << 29), 0, -1, nullptr, eternal));
  int k = nd_choice("punctuation", 0, 3); Sentence *s = k == 0 ? (Sentence *)new Judgement(t, pTruth(new Truth(f, cc, 1)), st) : k == 1 ? (Sentence *)new Question(t, st) : k == 2 ? (Sentence *)new Goal(t, pTruth(new Truth(f, cc, 1)), st) : (Sentence *)new Quest(t, st);
  static const char *P[] = {".", "?", "!", "@"}, *T[] = {":\\:", ":|:", ":/:"}; S want = shows(I, t, c) + P[k] + " "; if (!eternal) { int x = st->tense(); CHECK((x >= 0) & (x <= 2), "a sentence with a time has a tense"); want += T[x]; want += " "; } if (k == 0 || k == 2) want += fmt::format("%{:.3f};{:.3f}%", s->truth->f, s->truth->c);
  S got = shown(I.interpret(*s, c)); CHECK(got == want, "a sentence renders as term, punctuation, tense and truth"); cover("end");
}
static float part2(double x) { float p = x; return std::round((p >= 0 ? (p <= 1 ? p : 1) : 0) * 1000) / 1000; }
PROOF(task) {
  begin(); Interpreter &I = fresh(); bool c = nd_bool("coloured"); double p = nd_real("priority", -2, 2), d = nd_real("durability", -2, 2), q = nd_real("quality", -2, 2); pTerm t = component(I);
  pSentence s(new Question(t, pStamp(new Stamp(true)))); the_sentence = s.get(); sentence_text[0] = new S(nd_str("text")); sentence_text[1] = new S(nd_str("coloured text")); Task k(BUDGET::pBudget(new BUDGET::Budget(p, d, q)), s);
  S sent = vf_native ? shown(I.interpret(*s, c)) : *sentence_text[c], got = shown(I.interpret(k, c)); float x = part2(p), y = part2(d), z = part2(q);
  if (c) CHECK(got == fmt::format(" {:.2f}  {:.2f}  {:.2f}  {}", x, y, z, sent), "a task renders as budget and sentence"); else CHECK(got == fmt::format("${:.2f};{:.2f};{:.2f}$ {}", x, y, z, sent), "a task renders as budget and sentence"); 
#ifndef VF_MODEL
  if (c) CHECK(I.interpret(k, true).find(I.interpret(*s, true)) != S::npos, "a coloured task shows its sentence coloured");
#endif
  cover("end");
}
// more components, by example
static pTerm component_at(Interpreter &I, int n) { pTerm t(new Term()); S a = "t" + std::to_string(n);
#ifdef VF_MODEL
  int i = texts++; text[i][0] = new S(a); text[i][1] = new S("<" + a + ">"); __vf_mark(t.get(), "text", i);
#else
  t->hash_value = 1000 + texts++; I.put(t->hash_value, a, new pTerm(t));
#endif
  return t; }
PROOF(many) {
  for (int k = 0; k <= 15; ++k) { int c = k / 2 % 2;
    begin(); text = new S *[32][2]; Interpreter &I = *new Interpreter(); V v; int n = 5 + k % 3 * 2; for (int i = 0; i < n; ++i) v.push_back(component_at(I, (i * 7 + k) % n)); v.push_back(v[1]); S want; pTerm t;
    if (k == 15) { pTerm op(new Operation()); I.put(op->hash_value, S("^op"), new pTerm(op)); pTerm d(new Term()); pTerm p = bare_compound(CONNECTOR::Product, v); t = pTerm(new Statement(d, COPULA::Inheritance, d, true)); t->subject = p; t->predicate = op; t->is_operation = true; t->is_hashed = p->is_hashed = true; t->hash_value = 7; p->hash_value = 8; want = "(^op, " + joined(I, v, c) + ")"; }
    else { t = bare_compound((CONNECTOR::Connector)k, v); t->is_hashed = true; t->hash_value = 7; want = k == CONNECTOR::ExtensionalSet ? S("{") : k == CONNECTOR::IntensionalSet ? S("[") : S("(") + CONNECTORS[k] + ", "; want += joined(I, v, c); want += k == CONNECTOR::ExtensionalSet ? "}" : k == CONNECTOR::IntensionalSet ? "]" : ")"; }
    CHECK(shown(I.interpret(*t, c)) == want, "a compound of many components renders as connector and components in their order");
  } cover("end");
}
