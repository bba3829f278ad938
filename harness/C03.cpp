#include "truth.h"
#include <tuple>
// OPT * nsecs=4
static const double CMAX = 0x1.fffffep-1;
static double sat(double c) { return c < CMAX ? c : CMAX; }
PROOF(members) {
  Truth t = any_truth("f", "c", "k"); float f = t.f, c = t.c, k = t.k;
  double w = (double)k * c / (1 - c);
  CHECK(same(t.w(), w), "total evidence is k*c/(1-c)"); CHECK(same(t.w_p(), f * w), "positive evidence is f of the total"); CHECK(same(t.w_m(), (1 - (double)f) * w), "negative evidence is the rest");
  CHECK(same(t.w_p() + t.w_m(), t.w()), "positive plus negative evidence is the total");
  CHECK(same(t.e(), c * ((double)f - 0.5) + 0.5), "expectation");
  CHECK(eq3(t, f, c, k), "reading evidence changes nothing"); cover("end");
}
PROOF(functions) {
  Truth t = any_truth("f", "c", "k"); float f = t.f, c = t.c, k = t.k;
  CHECK(same(fc_to_w(f, c, k), t.w()), "fc_to_w agrees with the member"); CHECK(same(fc_to_w_plus(f, c, k), t.w_p()), "fc_to_w_plus agrees with the member"); CHECK(same(fc_to_w_minus(f, c, k), t.w_m()), "fc_to_w_minus agrees with the member");
  float p = -1, m = -1; w_from_truth(t, p, m);
  CHECK(same(p, t.w_p()), "out-parameter form: positive evidence"); CHECK(same(m, t.w_m()), "out-parameter form: negative evidence");
  auto tu = w_from_truth(t);
  CHECK(same(std::get<0>(tu), t.w_p()), "tuple form: positive evidence"); CHECK(same(std::get<1>(tu), t.w_m()), "tuple form: negative evidence");
  CHECK(eq3(t, f, c, k), "conversion leaves the truth value alone"); cover("end");
}
PROOF(roundtrip) {
  Truth t = any_truth("f", "c", "k"); float f = t.f, c = t.c, k = t.k; assume(c > 0 && (!vf_native || c > 1e-20f));
  Truth u = t; u.set_w(t.w_p(), t.w());
  CHECK(same(u.f, f), "set_w of the evidence: frequency"); CHECK(same(u.c, c), "set_w of the evidence: confidence"); CHECK(u.k == k, "set_w of the evidence: horizon");
  Truth v = truth_from_w(t.w_p(), t.w(), k);
  CHECK(same(v.f, f), "truth_from_w of the evidence: frequency"); CHECK(same(v.c, c), "truth_from_w of the evidence: confidence"); CHECK(v.k == k, "truth_from_w of the evidence: horizon");
  float p, m; w_from_truth(t, p, m); Truth x = truth_from_w(p, (double)p + m, k);
  CHECK(same(x.f, f) && same(x.c, c), "truth_from_w of w_from_truth");
  CHECK(same(w_to_f(t.w_p(), t.w()), f), "w_to_f of the evidence"); CHECK(same(w_to_c(t.w(), k), c), "w_to_c of the evidence"); cover("end");
}
PROOF(set_w) {
  Truth t = any_truth("f", "c", "k"); float k = t.k; double wp = nd_real("wp", 0, 1e6), w = nd_real("w", 0, 1e6); assume(wp <= w);
  t.set_w(wp, w);
  if (w > 0) { if (!vf_native || w > 1e-30) { CHECK(same(t.f, wp / w), "set_w: f = w+/w"); } } else CHECK(t.f == 0.5f, "set_w: no evidence gives f 0.5");
  CHECK(same(t.c, sat(w / (w + k))), "set_w: c = w/(w+k)"); CHECK(t.k == k, "set_w: horizon kept"); cover("end");
}
PROOF(from_w) {
  double wp = nd_float("wp", 0, 1e6), w = nd_float("w", 0, 1e6); float k; assume(wp <= w);
  if (vf_native) k = nd_float("k", 0.0009765625f, 1024); else { k = nd_float("k", 0, 0x1p100f); assume(k > 0); }
  Truth t = truth_from_w(wp, w, k);
  if (w > 0) { if (!vf_native || w > 1e-30) { CHECK(same(t.f, wp / w), "truth_from_w: f = w+/w"); CHECK(same(w_to_f(wp, w), wp / w), "w_to_f = w+/w"); } }
  else { CHECK(t.f == 0.5f, "truth_from_w: no evidence gives f 0.5"); CHECK(w_to_f(wp, w) == 0.5f, "w_to_f: no evidence gives f 0.5"); CHECK(t.c == 0, "truth_from_w: no evidence gives c 0"); }
  CHECK(same(t.c, sat(w / (w + k))), "truth_from_w: c = w/(w+k)"); CHECK(same(w_to_c(w, k), sat(w / (w + k))), "w_to_c = w/(w+k)"); CHECK(t.k == k, "truth_from_w: horizon stored");
  Truth d = truth_from_w(wp, w); CHECK(d.k == 1.0f && same(d.c, sat(w / (w + 1))), "truth_from_w: default horizon 1");
  Truth s = any_truth("f", "c", "k2"); s.k = k; s.set_w(wp, w);
  CHECK(same(s.f, t.f) && same(s.c, t.c), "set_w and truth_from_w agree"); cover("end");
}
PROOF(create) {
  float f = nd_float("f", 0, 1), c = nd_float("c", 0, 0.99f), k = nd_float("k", 0.25f, 16);
  auto t = Truth::create(f, c, k); CHECK(eq3(*t, f, c, k), "create stores f, c, k");
  auto u = Truth::create(f, c); CHECK(eq3(*u, f, c, 1.0f), "create: default horizon");
  auto v = Truth::create(k); CHECK(v->k == k && v->f == CONFIG::f && v->c == CONFIG::c, "create: configured default truth");
  auto x = Truth::create(); CHECK(x->k == 1.0f && x->f == CONFIG::f && x->c == CONFIG::c, "create: all defaults"); cover("end");
}
