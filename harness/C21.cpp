#include "verif.h"
#include <map>
#include "Narsese/Parser/NarseseParser.h"
#include <utility>
using PARSER::Args; typedef std::string S;
// OPT * init=1 loop_limit=100000 time=400 search=2000
// OPT any_text weight=5
// OPT any_character weight=4
// OPT any_character2 weight=4
// OPT long_token weight=3
// OPT nesting depth=3000 weight=3
// OVERRIDE ^_CharFetcher::get_char\(\)$ => vf_get_char
// NATIVE -fsanitize=address,undefined
// ASSUME characters of a text arrive one by one; a byte above 127 is no wide character, so it belongs to no token (contract of the character conversion of the C library)
// ASSUME memory allocation succeeds; nesting is limited by the stack of the process only beyond the depths considered
static const int N = 400;   // longest text
// what was parsed: the syntax tree as the actions see it
struct Node { int emit; char *token; int children; Node *child[8]; };
static PARSER::Parser *maker; static const char *names[128]; static bool leaf[128]; static int count;
static bool same_text(const char *a, const char *b) { while (*a == *b) { if (*a == 0) return true; ++a; ++b; } return false; }
static Node *build(int i, const Args &a) {
  Node *n = new Node(); n->emit = i; n->token = nullptr; n->children = 0;
  if (leaf[i]) { char *t = (char *)a[0]; int k = 0; while (t[k]) ++k; n->token = new char[k + 1]; for (int j = 0; j <= k; ++j) n->token[j] = t[j]; }
  else for (auto x : a) { if (n->children < 8) n->child[n->children] = (Node *)x; ++n->children; }
  return n;
}
template <int I> static void *act(PARSER::Parser *, const Args &a) { return build(I, a); }
template <int... I> static void acts(PARSER::METHOD *m, std::integer_sequence<int, I...>) { PARSER::METHOD t[] = {act<I>...}; for (int i = 0; i < sizeof...(I); ++i) m[i] = t[i]; }
static bool same_tree(Node *a, Node *b) {
  if (!a) return !b; if (!b) return false; if (a->emit != b->emit) return false; if (a->children != b->children) return false;
  if (a->token) { if (!b->token) return false; if (!same_text(a->token, b->token)) return false; }
  for (int i = 0; i < a->children; ++i) { if (i >= 8) break; if (!same_tree(a->child[i], b->child[i])) return false; } return true;
}
static PARSER::Parser *fresh() {
  PARSER::Parser *p = new PARSER::Parser(); PARSER::METHOD m[96]; acts(m, std::make_integer_sequence<int, 96>()); count = 0;
  int n = sizeof(p->productions) / sizeof(p->productions[0]), k = sizeof(p->symbols) / sizeof(p->symbols[0]);
  for (int i = 0; i < n + k; ++i) { const char *e = i < k ? p->symbols[i].emit : p->productions[i - k].emit; if (*e == 0) continue; int known = 0; for (int j = 0; j < count; ++j) if (same_text(names[j], e)) known = 1; if (known) continue; names[count] = e; leaf[count] = i < k; p->regist(e, m[count]); ++count; }
  return p;
}
// texts
static char text[1000]; static int length; static int delivered;
#ifdef VF_MODEL
extern "C" int vf_get_char(_CharFetcher *f) { int i = delivered++; if (i >= length + 2) return EOF; return i < length ? (int)text[i] : '\n'; }
#endif
static Node *parse(PARSER::Parser *p) { delivered = 0; text[length] = 0;
#ifdef VF_MODEL
  S s; 
#else
  S s(text);
#endif
  return (Node *)p->parse_string(s); }
static void put(const char *s) { while (*s) text[length++] = *s++; }
static void put(char c, int n) { for (int i = 0; i < n; ++i) text[length++] = c; }
static void any(int n) { for (int i = 0; i < n; ++i) { char c = (char)nd_int("character", -128, 127); assume(c != 0); text[length++] = c; } }

static void sample(int i) {
  static const char *const t[] = {"<a --> b>.", "$0.5; 0.5; 0.5$ <(*, {a}, [b]) --> ^op>! :|: %1.0;0.9%", "(&&, <$x --> b>, \"long word\")?", "<a --> b", "(a, ", "\"open", "#", "", "a.\nb!", "a. b."};
  length = 0; put(t[i]);
}
static const int SAMPLES = 10;
// the text read so far is the text given: reading ahead and dropping what was recognised keep their place for any length
static void window(PARSER::Parser *p, int n, int drop, int more) {
  length = 0; any(2); for (int i = 2; i < N; ++i) text[i] = (char)('a' + i % 25); length = N; delivered = 0; p->is_eof = false; p->line = p->column = 1; p->char_fetcher.switch_string_mode();
#ifndef VF_MODEL
  S s(text, N); p->char_fetcher.fill(s);
#endif
  assume(text[0] != '\n'); assume(text[1] != '\n'); int ok = 1;
  for (int i = 0; i < n; ++i) ok &= (int)((int)p->get_input(i) == (int)text[i]);
  if (n > 0) ok &= (int)((int)p->get_input(0) == (int)text[0]);
  CHECK(ok, "the look-ahead shows the text"); p->len = drop; p->clear_input(); int from = n == 0 ? 0 : drop; if (drop == 0) from = n;
  for (int i = 0; i < more; ++i) ok &= (int)((int)p->get_input(i) == (int)text[from + i]);
  CHECK(ok, "after a token is taken, the look-ahead shows the text after it"); delete p;
}
PROOF(window_small) { PARSER::Parser *p = new PARSER::Parser(); int n = nd_size("read ahead", 0, 6), d = nd_choice("taken", 0, n); window(p, n, d, nd_choice("more", 0, 3)); cover("end"); }
PROOF(window_step) { PARSER::Parser *p = new PARSER::Parser(); int n = nd_size("read ahead", 126, 131); static const int taken[] = {1, 2, 64, 126}; window(p, n, taken[nd_choice("taken", 0, 3)], 131); cover("end"); }
PROOF(window_large) { PARSER::Parser *p = new PARSER::Parser(); int n = nd_size("read ahead", 254, 259); static const int taken[] = {1, 127, 128, 129}; window(p, n, taken[nd_choice("taken", 0, 3)], 30); cover("end"); }
// any text at all
PROOF(any_text) { PARSER::Parser *p = fresh(); length = 0; any(nd_size("characters", 0, 2)); parse(p); CHECK(delivered <= length + 1, "parsing ends, and reads no further than the end of the line"); delete p; cover("end"); }
static void any_character(int lo, int hi) {
  static const char *const before[] = {"<a ", "(", "(a,", "<a --> ", "a", "a.", "a. :", "a! %", "$0.", "\"w", "(&", "<#x --> b>"}; static const char *const after[] = {"", " b>."};
  PARSER::Parser *p = fresh(); length = 0; put(before[nd_size("before", lo, hi)]); any(1); put(after[nd_choice("after", 0, 1)]); Node *r = parse(p); CHECK(p->ast == nullptr, "nothing is left over"); delete p; cover("end");
}

PROOF(any_character) { any_character(0, 5); }
PROOF(any_character2) { any_character(6, 11); }
static PARSER::Parser *p, *q; static Node *expected; static int target;
static void begin(int i) { p = fresh(); q = fresh(); target = i; sample(i); expected = parse(q); delete q; bool valid = i < 3 || i == 8; CHECK((expected != nullptr) == valid, "a well-formed text is parsed, another is not"); }
static void again() { sample(target); Node *r = parse(p); CHECK(same_tree(r, expected), "a text means the same whatever was parsed before"); delete p; cover("end"); }
PROOF(after_any) { begin(0); length = 0; any(nd_size("characters", 0, 1)); parse(p); again(); }
PROOF(after_any_failing) { begin(3); length = 0; put("a"); any(nd_size("characters", 0, 1)); parse(p); again(); }
PROOF(after_sample) { begin(0); sample(nd_size("earlier", 0, SAMPLES - 1)); parse(p); again(); }
PROOF(after_sample_failing) { begin(nd_choice("text", 3, 4)); sample(nd_size("earlier", 0, SAMPLES - 1)); parse(p); again(); }
PROOF(after_sample_rest) { begin(nd_choice("text", 5, 6)); sample(nd_size("earlier", 0, SAMPLES - 1)); parse(p); again(); }
PROOF(after_sample_empty) { begin(nd_choice("text", 7, 9)); sample(nd_size("earlier", 0, SAMPLES - 1)); parse(p); again(); }
PROOF(after_two) { begin(1); sample(nd_size("earlier", 3, 5)); parse(p); sample(nd_choice("later", 0, 4)); parse(p); again(); }
// tokens around the granularity of the buffers, closed and unclosed, and the rest of the text after them
PROOF(long_token) {
  PARSER::Parser *p = fresh(); int k = nd_size("length", 0, 11); static const int len[] = {125, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258}; int n = len[k], kind = nd_choice("kind", 0, 3); length = 0;
  if (kind == 0) { put('w', n); put("."); } else if (kind == 1) { put("\""); put('w', n - 2); put("\"."); } else if (kind == 2) { put("\""); put('w', n); } else { put("a"); put(' ', n); put("."); }
  Node *r = parse(p); CHECK((r != nullptr) == (kind != 2), "a long token is parsed"); delete p; cover("end");
}
static void nested(const char *open, int n, const char *middle, const char *close, bool valid) { PARSER::Parser *p = fresh(); length = 0; for (int i = 0; i < n; ++i) put(open); put(middle); for (int i = 0; i < n; ++i) put(close); if (valid) put("."); Node *r = parse(p); CHECK((r != nullptr) == valid, "a deeply nested text is parsed"); delete p; }
PROOF(nesting) { nested("{", nd_size("levels", 262, 262), "a", "}", true); cover("end"); }
PROOF(nesting_prefix) { int k = nd_size("levels", 49, 50); nested("(--,", k, "a", ")", true); cover("end"); }
PROOF(nesting_open) { nested("{", nd_size("levels", 135, 135), "", "", false); cover("end"); }
// what is on the stack stays there while it grows
PROOF(stack) {
  PARSER::Parser *p = new PARSER::Parser(); int n = nd_size("depth", 0, 3); static const int depth[] = {1, 128, 257, 700}; n = depth[n]; p->stacksize = 0; int ok = 1; ok &= (int)p->alloc_stack(); p->tos->state = -7;
  for (int i = 0; i < n; ++i) { ok &= (int)p->alloc_stack(); ++p->tos; p->tos->state = i; } CHECK(ok, "there is room for another entry"); ok &= (int)(p->tos - p->stack == n); for (int i = 0; i < n; ++i) ok &= (int)(p->stack[i + 1].state == i); ok &= (int)(p->stack[0].state == -7); CHECK(ok, "growing the stack keeps what is on it"); cover("end");
}
// the text handed over is the one that arrives, followed by the end of the line
PROOF(fetcher) {
  _CharFetcher f; f.clear(); f.switch_string_mode(); sample(nd_size("earlier", 0, SAMPLES - 1)); text[length] = 0; S a(text); f.fill(a); int k = nd_choice("read before", 0, 2); for (int i = 0; i < k; ++i) f.get_char(); f.clear();
  sample(nd_choice("text", 0, SAMPLES - 1)); bool line = nd_bool("ends with a line end"); if (line) put("\n"); text[length] = 0; S b(text); f.fill(b); int ok = 1;
  for (int i = 0; i < length; ++i) ok &= (int)((int)f.fetch() == (int)text[i]); if (!line) ok &= (int)(f.fetch() == '\n'); CHECK(ok, "the text arrives with its line end"); ok &= (int)(f.fetch() == EOF); ok &= (int)(f.fetch() == EOF); CHECK(ok, "after the text nothing arrives"); cover("end");
}
