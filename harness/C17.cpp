#include "verif.h"
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "Config.h"
#include <tuple>
namespace P = NARSESEPARSER; using PARSER::Args; using TERM::pTerm; using TERM::Term; using SENTENCE::Sentence; using TASK::Task; using BUDGET::Budget; using TRUTH::Truth;
namespace PU = SENTENCE::PUNCTUATION;
// OPT * init=1 search=40000
// OPT * f32=1
static void config() {
  CONFIG::f = nd_float("CONFIG.f", 0, 1); CONFIG::c = nd_float("CONFIG.c", 0, 0.99); CONFIG::k = nd_float("CONFIG.k", 0.5, 8); CONFIG::c_judgement = nd_float("c_judgement", 0, 0.99); CONFIG::c_goal = nd_float("c_goal", 0, 0.99);
  CONFIG::p_judgement = nd_float("p_judgement", 0, 1); CONFIG::d_judgement = nd_float("d_judgement", 0, 1); CONFIG::p_goal = nd_float("p_goal", 0, 1); CONFIG::d_goal = nd_float("d_goal", 0, 1);
  CONFIG::p_question = nd_float("p_question", 0, 1); CONFIG::d_question = nd_float("d_question", 0, 1); CONFIG::p_quest = nd_float("p_quest", 0, 1); CONFIG::d_quest = nd_float("d_quest", 0, 1);
  CONFIG::priority = nd_float("priority", 0, 1); CONFIG::durability = nd_float("durability", 0, 1); CONFIG::quality = nd_float("quality", 0, 1);
  CONFIG::temporal_duration = (unsigned)nd_int("duration", 1, 1 << 29); GLOBAL::time = (unsigned long)nd_int("now", 0, 1 << 29);
}
static double num(const char *n, double hi) { return (double)nd_float(n, 0, hi); }
static void *boxed(double x) { return new double(x); }
// the optional parts of a sentence as the text states them
struct Parts { int nt; double f, c, k; int tense; int occ; };
static Parts parts(Args &a, bool withtruth) {
  Parts p; p.nt = -1; p.tense = nd_choice("tense", 0, 4); p.occ = 0; p.f = p.c = p.k = 0;
  void *tense = nullptr, *truth = nullptr;
  switch (p.tense) {
    case 1: tense = P::tense_past(nullptr, Args()); p.occ = (int)GLOBAL::time - (int)CONFIG::temporal_duration; break;
    case 2: tense = P::tense_present(nullptr, Args()); p.occ = (int)GLOBAL::time; break;
    case 3: tense = P::tense_future(nullptr, Args()); p.occ = (int)GLOBAL::time + (int)CONFIG::temporal_duration; break;
    case 4: p.occ = nd_int("stated time", -(1 << 29), 1 << 29); tense = P::tense_time(nullptr, Args{boxed(p.occ)}); break;
    default: ;
  }
  if (withtruth) {
    p.nt = nd_choice("truth components", -1, 3);
    if (p.nt >= 0) { Args t; if (p.nt >= 1) { p.f = num("f", 1); t.push_back(boxed(p.f)); } if (p.nt >= 2) { p.c = num("c", 0.999); t.push_back(boxed(p.c)); } if (p.nt >= 3) { p.k = num("k", 100); t.push_back(boxed(p.k)); } truth = P::truth(nullptr, t); }
  }
  bool swap = nd_bool("truth first");
  if (swap && truth) a.push_back(truth); if (tense) a.push_back(tense); if (!swap && truth) a.push_back(truth);
  return p;
}
static void stamp_as_stated(Sentence &s, const Parts &p) {
  CHECK(s.stamp != nullptr, "a parsed sentence carries a stamp"); auto &t = *s.stamp;
  CHECK(t.is_eternal == (p.tense == 0), "a sentence is eternal exactly when no tense is stated");
  if (p.tense) { CHECK(t.t_occurrence == p.occ, "the stated tense gives the occurrence time"); CHECK(t.t_creation == (int)GLOBAL::time, "a sentence is created now"); }
  if (p.tense == 1) CHECK(t.tense() == TENSE::Past, "a past tense is past"); if (p.tense == 2) CHECK(t.tense() == TENSE::Present, "a present tense is present"); if (p.tense == 3) CHECK(t.tense() == TENSE::Future, "a future tense is future");
  if (p.tense == 0) CHECK(t.tense() == TENSE::Eternal, "no tense is eternal");
  CHECK(t.evidential_base != nullptr && t.evidential_base->size() >= 1, "a parsed sentence carries evidence");
}
static void truth_as_stated(Sentence &s, const Parts &p, float cdefault) {
  CHECK(s.truth != nullptr, "a judgement or goal carries a truth value or desire"); Truth &t = *s.truth;
  CHECK(t.f == (p.nt >= 1 ? (float)p.f : CONFIG::f), "frequency as stated or default"); CHECK(t.c == (p.nt >= 2 ? (float)p.c : cdefault), "confidence as stated or default for the sentence kind"); CHECK(t.k == (p.nt >= 3 ? (float)p.k : CONFIG::k), "horizon as stated or default");
}
struct Made { pTerm term; Sentence *s; Parts p; int kind; };
static Made make(int kind) {
  Made m; m.kind = kind; m.term = pTerm(new Term()); Args a{new pTerm(m.term)}; m.p = parts(a, kind == 0 || kind == 2);
  m.s = (Sentence *)(kind == 0 ? P::judgement(nullptr, a) : kind == 1 ? P::question(nullptr, a) : kind == 2 ? P::goal(nullptr, a) : P::quest(nullptr, a)); return m;
}
static void sentence_ok(Made &m) {
  CHECK(m.s != nullptr && m.s->punct == (PU::Punctuation)m.kind, "the punctuation is that of the sentence kind"); CHECK(m.s->term == m.term, "the sentence is about the stated term");
  CHECK(m.s->is_judgement() == (m.kind == PU::Judgement) && m.s->is_question() == (m.kind == PU::Question) && m.s->is_goal() == (m.kind == PU::Goal) && m.s->is_quest() == (m.kind == PU::Quest), "exactly the sentence's kind is reported");
  stamp_as_stated(*m.s, m.p);
}
PROOF(judgement) { config(); Made m = make(0); sentence_ok(m); truth_as_stated(*m.s, m.p, CONFIG::c_judgement); cover("end"); }
PROOF(question) { config(); Made m = make(1); sentence_ok(m); CHECK(m.s->truth == nullptr, "a question carries no truth value"); cover("end"); }
PROOF(goal) { config(); Made m = make(2); sentence_ok(m); truth_as_stated(*m.s, m.p, CONFIG::c_goal); CHECK(((SENTENCE::Goal *)m.s)->desire == m.s->truth, "the desire of a goal is its truth value"); cover("end"); }
PROOF(quest) { config(); Made m = make(3); sentence_ok(m); CHECK(m.s->truth == nullptr, "a quest carries no truth value"); cover("end"); }
static Sentence *plain(int kind, pTerm t, float f, float c, float k) {
  auto tr = TRUTH::pTruth(new Truth(f, c, k)); auto st = SENTENCE::pStamp(new SENTENCE::Stamp(true));
  return kind == 0 ? (Sentence *)new SENTENCE::Judgement(t, tr, st) : kind == 1 ? (Sentence *)new SENTENCE::Question(t, st) : kind == 2 ? (Sentence *)new SENTENCE::Goal(t, tr, st) : (Sentence *)new SENTENCE::Quest(t, st);
}
PROOF(task) {
  config(); int kind = nd_choice("kind", 0, 3); pTerm term(new Term()); float f = nd_float("f", 0, 1), c = nd_float("c", 0, 0.999); Sentence *s = plain(kind, term, f, c, 1);
  auto st = s->stamp; auto tr = s->truth; int nb = nd_choice("budget components", -1, 3); double p = 0, d = 0, q = 0; Args a;
  if (nb >= 0) { Args b; if (nb >= 1) { p = num("p", 1); b.push_back(boxed(p)); } if (nb >= 2) { d = num("d", 1); b.push_back(boxed(d)); } if (nb >= 3) { q = num("q", 1); b.push_back(boxed(q)); } a.push_back(P::budget(nullptr, b)); }
  a.push_back(s); Task *t = (Task *)P::task(nullptr, a);
  CHECK(t != nullptr && t->sentence.get() == s, "the task carries the sentence"); CHECK(s->punct == (PU::Punctuation)kind && s->term == term && s->stamp == st && s->truth == tr, "making a task leaves the sentence alone");
  if (tr) CHECK(tr->f == f && tr->c == c, "making a task leaves the truth value alone");
  float dp = kind == 0 ? CONFIG::p_judgement : kind == 1 ? CONFIG::p_question : kind == 2 ? CONFIG::p_goal : CONFIG::p_quest, dd = kind == 0 ? CONFIG::d_judgement : kind == 1 ? CONFIG::d_question : kind == 2 ? CONFIG::d_goal : CONFIG::d_quest;
  Budget &b = *t->budget;
  if (nb < 0) { CHECK(b.priority == CONFIG::priority && b.durability == CONFIG::durability && b.quality == CONFIG::quality, "a sentence without budget gets the configured budget"); return; }
  CHECK((float)b.priority == (nb >= 1 ? (float)p : dp), "priority as stated or default for the sentence kind"); CHECK((float)b.durability == (nb >= 2 ? (float)d : dd), "durability as stated or default for the sentence kind");
  if (nb >= 3) CHECK(b.quality == (float)q, "quality as stated");
  else if (kind == 1 || kind == 3) CHECK(b.quality == 1.0f, "questions and quests default to full quality");
  else CHECK(b.quality == (float)Budget::quality_from_truth(*tr), "omitted quality is derived from the truth value");
  cover("end");
}
PROOF(quality) {   // the larger of expectation and three quarters of its complement, up to rounding of the double arithmetic
  fp_round(false); float f = nd_float("f", 0, 1), c = nd_float("c", 0, 0.999), k = nd_float("k", 0.01, 100); Truth t(f, c, k); double e = (double)c * ((double)f - 0.5) + 0.5, x = (1 - e) * 0.75;
  double q = Budget::quality_from_truth(t); CHECK(same(q, e > x ? e : x), "quality is the larger of expectation and three quarters of its complement"); CHECK(t.f == f && t.c == c && t.k == k, "deriving quality leaves the truth value alone"); cover("end");
}
PROOF(constructors) {
  config(); pTerm term(new Term()); int kind = nd_choice("kind", 0, 3); bool havest = nd_bool("stamp"), havetr = nd_bool("truth"); auto st = havest ? SENTENCE::pStamp(new SENTENCE::Stamp(5, 3, 7, nullptr, false)) : nullptr; auto tr = havetr ? TRUTH::pTruth(new Truth(nd_float("f", 0, 1), nd_float("c", 0, 0.99), 1)) : nullptr;
  Sentence *s = kind == 0 ? (Sentence *)new SENTENCE::Judgement(term, tr, st) : kind == 1 ? (Sentence *)new SENTENCE::Question(term, st) : kind == 2 ? (Sentence *)new SENTENCE::Goal(term, tr, st) : (Sentence *)new SENTENCE::Quest(term, st);
  CHECK(s->term == term && s->punct == (PU::Punctuation)kind, "a sentence stores term and punctuation"); if (havest) CHECK(s->stamp == st, "a given stamp is stored"); else CHECK(s->stamp != nullptr && s->stamp->is_eternal, "a sentence without stamp is eternal");
  if (kind == 1 || kind == 3) CHECK(s->truth == nullptr, "questions and quests carry no truth value");
  else if (havetr) CHECK(s->truth == tr, "a given truth value is stored");
  else { CHECK(s->truth != nullptr, "a judgement or goal always has a truth value"); CHECK(s->truth->f == CONFIG::f && s->truth->c == (kind == 0 ? CONFIG::c_judgement : CONFIG::c_goal) && s->truth->k == CONFIG::k, "default truth value of the sentence kind"); }
  cover("end");
}
PROOF(numbers) {   // every number leaf of the notation denotes the number written
  std::string w = nd_str("text"); if (vf_native) w = "0.25"; std::string t = w; Args a{(void *)t.c_str()}; double x = std::stod(w);
  void *(*act[])(P::Parser *, const Args &) = {P::frequency, P::confidence, P::k_evidence, P::priority, P::durability, P::quality, P::integer};
  void *r = act[nd_choice("number", 0, 6)](nullptr, a); CHECK(*(double *)r == x, "a number leaf denotes the number written"); CHECK(t == w, "reading a number leaves the text alone"); cover("end");
}
