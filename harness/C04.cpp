#include "truth.h"
// OPT bounds_rounded f32=1
// OPT same_time f32=1
using TEMPORAL_FUNCTIONS::project;
static const int64_t T = (int64_t)1 << 60;
// ASSUME times and decay durations stay within +-2^60, so that distances between times are representable; conversions of integers to floating point are exact
static double dist(int64_t a, int64_t b) { double x = (double)a - (double)b; return x < 0 ? -x : x; }
static int64_t now(const char *n) { return nd_timestamp(n, -T, T); }
PROOF(formula) {
  auto t = any_ptruth("f", "c", "k"); float f = t->f, c = t->c, k = t->k;
  int64_t s = now("t_source"), n = now("t_current"), g = now("t_target"), decay = nd_timestamp("decay", 1, T);
  auto r = project(t, s, n, g, decay);
  CHECK(same(r->f, f), "projection keeps the frequency"); CHECK(r->k == k, "projection keeps the horizon");
  CHECK(same(r->c, c * (1 - dist(s, g) / (dist(s, n) + dist(g, n) + (double)decay))), "projection discounts confidence by the distance");
  CHECK(eq3(*t, f, c, k), "projection leaves its input alone"); CHECK(r != nullptr && r != t, "projection gives a new truth value"); cover("end");
}
PROOF(no_decay) {
  auto t = any_ptruth("f", "c", "k"); float f = t->f, c = t->c, k = t->k;
  int64_t s = now("t_source"), n = now("t_current"), g = now("t_target");
  auto r = project(t, s, n, g, 0);
  double d = dist(s, n) + dist(g, n);
  if (d > 0) { CHECK(same(r->c, c * (1 - dist(s, g) / d)), "projection without decay: confidence"); cover("apart"); }
  else { CHECK(same(r->c, c), "projection without decay to the same time: confidence"); cover("same time"); }
  CHECK(same(r->f, f) && r->k == k, "projection without decay keeps frequency and horizon");
}
PROOF(default_decay) {
  auto t = any_ptruth("f", "c", "k"); float c = t->c;
  int64_t s = now("t_source"), n = now("t_current"), g = now("t_target");
  auto r = project(t, s, n, g);
  CHECK(same(r->c, c * (1 - dist(s, g) / (dist(s, n) + dist(g, n) + 1000))), "projection with the default decay of 1000"); cover("end");
}
PROOF(bounds) {
  auto t = any_ptruth("f", "c", "k"); float c = t->c;
  int64_t s = now("t_source"), n = now("t_current"), g = now("t_target"), decay = nd_timestamp("decay", 0, T);
  auto r = project(t, s, n, g, decay);
  CHECK(r->c >= 0, "projected confidence not negative"); CHECK(r->c <= c, "projected confidence not larger"); cover("end");
}
PROOF(bounds_rounded) {
  auto t = any_ptruth("f", "c", "k"); float c = t->c;
  int64_t s = now("t_source"), n = now("t_current"), g = now("t_target"), decay = nd_timestamp("decay", 0, T);
  fp_round(true);
  auto r = project(t, s, n, g, decay);
  CHECK(r->c >= 0, "projected confidence not negative"); CHECK(r->c <= c, "projected confidence not larger"); cover("end");
}
PROOF(same_time) {
  auto t = any_ptruth("f", "c", "k"); float f = t->f, c = t->c, k = t->k;
  int64_t s = now("t_source"), n = now("t_current"), decay = nd_timestamp("decay", 0, T);
  fp_round(true);
  auto r = project(t, s, n, s, decay);
  CHECK(r->f == f && r->c == c && r->k == k, "projection to the same time changes nothing"); cover("end");
}
