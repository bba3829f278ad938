#include "verif.h"
#include <map>
#include "Narsese/Parser/NarseseParser.h"
#include <utility>
#include "grammar.h"
using PARSER::Args; typedef std::string S;
// OPT * init=1 loop_limit=100000 time=400 search=2000
// OVERRIDE ^_CharFetcher::get_char\(\)$ => vf_get_char
// NATIVE -fsanitize=address,undefined
// ASSUME characters of a text arrive one by one; a byte above 127 is no wide character, so it belongs to no token (contract of the character conversion of the C library)
// ASSUME memory allocation succeeds
// ASSUME the states are numbered as when harness/grammar.h was generated from the grammar (tools/mkgrammar.py); a numbering that differs is an alarm, and says so
// ASSUME a parser that shifts, reduces and goes to as the LR(0) automaton of a grammar does accepts the sentences of the grammar (Knuth); "trees" shows that the loop of the parser does so for the samples
static const int N = 400;   // longest text
// what was parsed: the syntax tree as the actions see it
struct Node { int emit; char *token; int children; Node *child[8]; };
static PARSER::Parser *maker; static const char *names[128]; static bool leaf[128]; static int count;
static bool same_text(const char *a, const char *b) { while (*a == *b) { if (*a == 0) return true; ++a; ++b; } return false; }
static Node *build(int i, const Args &a) {
  Node *n = new Node(); n->emit = i; n->token = nullptr; n->children = 0;
  if (leaf[i]) { char *t = (char *)a[0]; int k = 0; while (t[k]) ++k; n->token = new char[k + 1]; for (int j = 0; j <= k; ++j) n->token[j] = t[j]; }
  else for (auto x : a) { if (n->children < 8) n->child[n->children] = (Node *)x; ++n->children; }
  return n;
}
template <int I> static void *act(PARSER::Parser *, const Args &a) { return build(I, a); }
template <int... I> static void acts(PARSER::METHOD *m, std::integer_sequence<int, I...>) { PARSER::METHOD t[] = {act<I>...}; for (int i = 0; i < sizeof...(I); ++i) m[i] = t[i]; }
static char shown[1000]; static int wrote;
static void show(const char *s) { while (*s) { if (wrote >= 998) break; shown[wrote++] = *s++; } shown[wrote] = 0; }
static void show(Node *n) {
  show(names[n->emit]); if (n->token) { show("="); show(n->token); show(" "); return; }
  show("("); for (int i = 0; i < n->children; ++i) { if (i >= 8) break; show(n->child[i]); } show(")");
}
static PARSER::Parser *fresh() {
  PARSER::Parser *p = new PARSER::Parser(); PARSER::METHOD m[96]; acts(m, std::make_integer_sequence<int, 96>()); count = 0;
  int n = sizeof(p->productions) / sizeof(p->productions[0]), k = sizeof(p->symbols) / sizeof(p->symbols[0]);
  for (int i = 0; i < n + k; ++i) { const char *e = i < k ? p->symbols[i].emit : p->productions[i - k].emit; if (*e == 0) continue; int known = 0; for (int j = 0; j < count; ++j) if (same_text(names[j], e)) known = 1; if (known) continue; names[count] = e; leaf[count] = i < k; p->regist(e, m[count]); ++count; }
  return p;
}
// texts
static char text[1000]; static int length; static int delivered;
#ifdef VF_MODEL
extern "C" int vf_get_char(_CharFetcher *f) { int i = delivered++; if (i >= length + 2) return EOF; return i < length ? (int)text[i] : '\n'; }
#endif
static Node *parse(PARSER::Parser *p) { delivered = 0; text[length] = 0;
#ifdef VF_MODEL
  S s; 
#else
  S s(text);
#endif
  return (Node *)p->parse_string(s); }
static void put(const char *s) { while (*s) text[length++] = *s++; }
static void put(char c, int n) { for (int i = 0; i < n; ++i) text[length++] = c; }

// the tables: in every state, what is shifted, reduced and gone to is what the phrases that may come next there call for
struct Item { int rule, at; };
static Item closure[200]; static int items; static bool opened[SYMBOLS];
static void add(int rule, int at) { if (items < 200) { closure[items].rule = rule; closure[items].at = at; ++items; } }
static int first_of[SYMBOLS];
static void phrases() { for (int i = 0; i < SYMBOLS; ++i) first_of[i] = RULES; for (int r = RULES - 1; r >= 0; --r) first_of[rules[r].lhs] = r; }
static int next_symbol(int i) { const Rule &r = rules[closure[i].rule]; int at = closure[i].at; return at < r.length ? (int)r.rhs[at] : -1; }
static void open_state(int s) {
  items = 0; for (int i = 0; i < SYMBOLS; ++i) opened[i] = false;
  for (int i = kernel_start[s]; i < kernel_start[s + 1]; ++i) add(kernel[i][0], kernel[i][1]);
  for (int i = 0; i < items; ++i) { int x = next_symbol(i); if (x < TERMINALS) continue; if (opened[x]) continue; opened[x] = true; for (int r = first_of[x]; r < RULES; ++r) if (rules[r].lhs == x) add(r, 0); }
}
// after symbol x: the phrases that go on, or the one that is complete
static bool leads(int x, int act, int idx) {
  if (act == UNICC_SHIFT) {
    if (idx < 0) return false; if (idx >= STATES) return false; int n = 0;
    for (int i = 0; i < items; ++i) if (next_symbol(i) == x) { ++n; bool found = false; for (int k = kernel_start[idx]; k < kernel_start[idx + 1]; ++k) if (kernel[k][0] == closure[i].rule) if (kernel[k][1] == closure[i].at + 1) found = true; if (!found) return false; }
    return n == kernel_start[idx + 1] - kernel_start[idx];
  }
  if (act != (UNICC_SHIFT | UNICC_REDUCE)) return false; int n = 0;
  for (int i = 0; i < items; ++i) if (next_symbol(i) == x) { ++n; if (closure[i].rule != idx) return false; if (closure[i].at + 1 != rules[idx].length) return false; }
  return n == 1;
}
static int to_reduce(int s, int sym) {
  int other = -1; bool several = false; for (int k = 0; k < PICKS; ++k) if (picks[k].state == s) { several = true; if (picks[k].next == sym) return picks[k].rule; if (picks[k].next == -1) other = picks[k].rule; }
  if (several) return other; for (int i = 0; i < items; ++i) if (next_symbol(i) == -1) return closure[i].rule; return -1;
}
static void tables(int lo, int hi) {
  PARSER::Parser *p = new PARSER::Parser(); _tok t; p->tos = &t; phrases();
  for (int s = lo; s < hi; ++s) {
    open_state(s); t.state = s; bool shift[TERMINALS]; for (int x = 0; x < TERMINALS; ++x) shift[x] = false; for (int i = 0; i < items; ++i) { int x = next_symbol(i); if (x >= 0) if (x < TERMINALS) shift[x] = true; }
    int ok = 1, reduced = 1, gone = 1;
    for (int x = -1; x < TERMINALS; ++x) {
      if (x > 0) if (!tells[kind[s]][x]) { if (shift[x]) ok = 0; continue; }
      p->sym = x; p->act = -1; p->idx = -1; bool r = p->get_act();
      if (x >= 0) if (shift[x]) { if (!r) ok = 0; else if (!leads(x, p->act, p->idx)) ok = 0; continue; }
      int rule = to_reduce(s, x); if (rule < 0) { if (r) reduced = 0; continue; }
      if (!r) reduced = 0; else { if (p->act != UNICC_REDUCE) reduced = 0; if (p->idx != rule) reduced = 0; }
    }
    CHECK(ok, "a token that may come next is shifted to where the sentence goes on"); CHECK(reduced, "a phrase is reduced when it is complete, and only then; another token is an error");
    for (int x = TERMINALS; x < SYMBOLS; ++x) { if (!opened[x]) continue; p->lhs = x; p->act = -1; p->idx = -1; if (!p->get_go()) gone = 0; else if (!leads(x, p->act, p->idx)) gone = 0; }
    CHECK(gone, "after a phrase, the sentence goes on with what follows it");
  }
  delete p; cover("end");
}
PROOF(tables_0) { tables(STATES * 0 / 6, STATES * 1 / 6); }
PROOF(tables_1) { tables(STATES * 1 / 6, STATES * 2 / 6); }
PROOF(tables_2) { tables(STATES * 2 / 6, STATES * 3 / 6); }
PROOF(tables_3) { tables(STATES * 3 / 6, STATES * 4 / 6); }
PROOF(tables_4) { tables(STATES * 4 / 6, STATES * 5 / 6); }
PROOF(tables_5) { tables(STATES * 5 / 6, STATES * 6 / 6); }
PROOF(rules) {
  PARSER::Parser *p = new PARSER::Parser(); int n = sizeof(p->productions) / sizeof(p->productions[0]); CHECK(n == RULES, "every rule of the grammar is there, and no other");
  for (int r = 0; r < RULES; ++r) { int ok = 1; ok &= (int)(p->productions[r].lhs == rules[r].lhs); ok &= (int)(p->productions[r].length == rules[r].length); CHECK(ok, "a phrase of the grammar is made of its parts"); }
  delete p; cover("end");
}
// the tokens: in every state, what the text goes on with is the longest text that belongs to a token that may come there
static UNICC_CHAR buffer[64]; static int filled;
static void write(const char *t) { while (*t) buffer[filled++] = (UNICC_CHAR)*t++; }
static bool token(PARSER::Parser *p, int s, int sym, int len) {
  buffer[filled] = 0; p->buf = buffer; p->bufend = buffer + filled; p->is_eof = true; p->tos->state = s; p->len = 0; p->sym = -7;
  bool r = p->get_sym(); if (r != (sym >= 0)) return false; if (p->sym != sym) return false; return sym < 0 ? true : (int)p->len == len;
}
PROOF(tokens) {
  PARSER::Parser *p = new PARSER::Parser(); _tok t; p->tos = &t;
  for (int s = 0; s < STATES; ++s) { int k = kind[s], ok = 1; for (int i = s % 7; i < TEXTS; i += 7) { filled = 0; write(texts[i]); if (!token(p, s, expected_token[k][2 * i] - 41, expected_token[k][2 * i + 1] - '0')) ok = 0; } CHECK(ok, "the next token is the longest one that may come there"); }
  p->buf = nullptr; p->bufend = nullptr; delete p; cover("end");
}
// one state of each kind: from every part of a token, any character, and what tells the texts apart that follow
static void characters(int n) {
  PARSER::Parser *p = new PARSER::Parser(); _tok t; p->tos = &t;
  for (int s = 0, done = 0; s < STATES; ++s) {
    int k = kind[s], earlier = 0; for (int r = 0; r < s; ++r) if (kind[r] == k) earlier = 1; if (earlier) continue;
    for (int i = step_start[k]; i < step_start[k + 1]; ++i) {
      if (i < part[n]) continue; if (i >= part[n + 1]) break; int ok = 1;
      for (int j = steps[i].from; j < steps[i].to; ++j) for (int c = step[j][0]; c <= step[j][1]; ++c) { filled = 0; write(steps[i].before); buffer[filled++] = (UNICC_CHAR)c; write(steps[i].after); if (!token(p, s, step[j][2], step[j][3])) ok = 0; }
      CHECK(ok, "after any part of a token, any character goes on with it or ends it");
    }
  }
  p->buf = nullptr; p->bufend = nullptr; delete p; cover("end");
}
PROOF(characters_0) { characters(0); }
PROOF(characters_1) { characters(1); }
PROOF(characters_2) { characters(2); }
PROOF(characters_3) { characters(3); }
PROOF(characters_4) { characters(4); }
PROOF(characters_5) { characters(5); }
PROOF(characters_6) { characters(6); }
PROOF(characters_7) { characters(7); }
PROOF(characters_8) { characters(8); }
PROOF(characters_9) { characters(9); }
PROOF(characters_10) { characters(10); }
PROOF(characters_11) { characters(11); }
PROOF(characters_12) { characters(12); }
PROOF(characters_13) { characters(13); }
PROOF(characters_14) { characters(14); }
PROOF(characters_15) { characters(15); }
PROOF(characters_16) { characters(16); }
PROOF(characters_17) { characters(17); }
PROOF(characters_18) { characters(18); }
PROOF(characters_19) { characters(19); }
// the trees: what the actions of the parser see of a sentence
static void trees(int lo, int hi) {
  PARSER::Parser *p = fresh();
  for (int i = lo; i < hi; ++i) {
    length = 0; put(samples[i].text); Node *r = parse(p); CHECK((r != nullptr) == (samples[i].tree != nullptr), "a text is parsed if and only if it is a sentence of the grammar");
    if (r) { if (!samples[i].tree) continue; wrote = 0; show(r); CHECK(same_text(shown, samples[i].tree), "the tree of a sentence shows its phrases in order"); }
  }
  delete p; cover("end");
}
PROOF(trees_0) { trees(SAMPLES * 0 / 6, SAMPLES * 1 / 6); }
PROOF(trees_1) { trees(SAMPLES * 1 / 6, SAMPLES * 2 / 6); }
PROOF(trees_2) { trees(SAMPLES * 2 / 6, SAMPLES * 3 / 6); }
PROOF(trees_3) { trees(SAMPLES * 3 / 6, SAMPLES * 4 / 6); }
PROOF(trees_4) { trees(SAMPLES * 4 / 6, SAMPLES * 5 / 6); }
PROOF(trees_5) { trees(SAMPLES * 5 / 6, SAMPLES * 6 / 6); }
