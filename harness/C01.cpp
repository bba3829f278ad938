// ASSUME the *_rounded proofs treat every float/double operation as correctly rounded (monotone, exact on representable values, products may underflow to 0); overflow is excluded by bounding the horizon by 2^100. The other proofs use exact reals; the upper bound 1 of the frequency of comparison is proved over exact reals only
#include "truth.h"
static void deduction() {
  auto a = any_ptruth("f1", "c1", "k1"), b = any_ptruth("f2", "c2", "k2"); float k = a->k;
  auto r = truth_deduction(a, b);
  CHECK(range01(r->f), "deduction: frequency in [0,1]"); CHECK(conf(r->c), "deduction: confidence in [0,1)"); CHECK(r->k == k || r->k == 1.0f, "deduction: horizon unchanged or default"); cover("end");
}
static void induction() {
  auto a = any_ptruth("f1", "c1", "k1"), b = any_ptruth("f2", "c2", "k2"); float k = a->k;
  auto r = truth_induction(a, b);
  CHECK(range01(r->f), "induction: frequency in [0,1]"); CHECK(conf(r->c), "induction: confidence in [0,1)"); CHECK(r->k == k || r->k == 1.0f, "induction: horizon unchanged or default"); cover("end");
}
static void comparison() {
  auto a = any_ptruth("f1", "c1", "k1"), b = any_ptruth("f2", "c2", "k2"); float k = a->k;
  auto r = truth_comparison(a, b);
  CHECK(range01(r->f), "comparison: frequency in [0,1]"); CHECK(conf(r->c), "comparison: confidence in [0,1)"); CHECK(r->k == k || r->k == 1.0f, "comparison: horizon unchanged or default"); cover("end");
}
static void comparison_conf() {
  auto a = any_ptruth("f1", "c1", "k1"), b = any_ptruth("f2", "c2", "k2"); float k = a->k;
  auto r = truth_comparison(a, b);
  CHECK(r->f >= 0, "comparison: frequency not negative"); CHECK(conf(r->c), "comparison: confidence in [0,1)"); CHECK(r->k == k || r->k == 1.0f, "comparison: horizon unchanged or default"); cover("end");
}
static void revision_() {
  auto a = any_ptruth("f1", "c1", "k1"), b = any_ptruth("f2", "c2", "k2"); float k = a->k;
  truth_revision(a, b);
  CHECK(range01(a->f), "revision: frequency in [0,1]"); CHECK(conf(a->c), "revision: confidence in [0,1)"); CHECK(a->k == k, "revision: horizon unchanged"); CHECK(valid(*b), "revision: second operand still valid"); cover("end");
}
static void revision_self() {
  auto a = any_ptruth("f1", "c1", "k1"); float k = a->k;
  truth_revision(a, a);
  CHECK(range01(a->f), "revision with itself: frequency in [0,1]"); CHECK(conf(a->c), "revision with itself: confidence in [0,1)"); CHECK(a->k == k, "revision with itself: horizon unchanged"); cover("end");
}
static void expectation() {
  Truth a = any_truth("f1", "c1", "k1"); double e = a.e();
  CHECK(range01(e), "expectation in [0,1]"); cover("end");
}
static void evidence() {
  Truth a = any_truth("f1", "c1", "k1");
  CHECK(a.w() >= 0, "total evidence not negative"); CHECK(a.w_p() >= 0, "positive evidence not negative"); CHECK(a.w_m() >= 0, "negative evidence not negative");
  CHECK(fc_to_w(a.f, a.c, a.k) >= 0 && fc_to_w_plus(a.f, a.c, a.k) >= 0 && fc_to_w_minus(a.f, a.c, a.k) >= 0, "evidence functions not negative"); cover("end");
}
static void set_w() {
  Truth a = any_truth("f1", "c1", "k1"); double w = nd_real("w", 0, 1e6), wp = nd_real("wp", 0, 1e6); assume(wp <= w); float k = a.k;
  a.set_w(wp, w);
  CHECK(range01(a.f), "set_w: frequency in [0,1]"); CHECK(conf(a.c), "set_w: confidence in [0,1)"); CHECK(a.k == k, "set_w: horizon unchanged"); cover("end");
}
static void from_w() {
  float w = nd_float("w", 0, 1e6f), wp = nd_float("wp", 0, 1e6f), k = nd_float("k", 0.0009765625f, 1024); assume(wp <= w);
  Truth t = truth_from_w(wp, w, k);
  CHECK(range01(t.f), "truth_from_w: frequency in [0,1]"); CHECK(conf(t.c), "truth_from_w: confidence in [0,1)"); CHECK(t.k == k, "truth_from_w: horizon"); cover("end");
}
static void or_list() {
  double a = nd_real("a", 0, 1), b = nd_real("b", 0, 1), c = nd_real("c", 0, 1);
  CHECK(range01(Or({})), "Or of none"); CHECK(range01(Or({a})), "Or of a list of one in [0,1]"); CHECK(range01(Or({a, b})), "Or of a list of two in [0,1]"); CHECK(range01(Or({a, b, c})), "Or of a list of three in [0,1]");
  cover("end");
}
static void boolean() {
  double a = nd_real("a", 0, 1), b = nd_real("b", 0, 1), c = nd_real("c", 0, 1), d = nd_real("d", 0, 1);
  CHECK(range01(And(a, b)), "And of two in [0,1]"); CHECK(range01(And(a, b, c)), "And of three in [0,1]"); CHECK(range01(And(a, b, c, d)), "And of four in [0,1]");
  CHECK(range01(Or(a, b)), "Or of two in [0,1]"); CHECK(range01(Or(a, b, c)), "Or of three in [0,1]"); CHECK(range01(Or(a, b, c, d)), "Or of four in [0,1]");
  cover("end");
}
PROOF(p_deduction) { deduction(); }
PROOF(p_deduction_rounded) { fp_round(true); deduction(); }
PROOF(p_induction) { induction(); }
PROOF(p_induction_rounded) { fp_round(true); induction(); }
PROOF(p_comparison) { comparison(); }
PROOF(p_comparison_rounded) { fp_round(true); comparison_conf(); }
PROOF(p_revision) { revision_(); }
PROOF(p_revision_rounded) { fp_round(true); revision_(); }
PROOF(p_revision_self) { revision_self(); }
PROOF(p_expectation) { expectation(); }
PROOF(p_expectation_rounded) { fp_round(true); expectation(); }
PROOF(p_evidence) { evidence(); }
PROOF(p_evidence_rounded) { fp_round(true); evidence(); }
PROOF(p_set_w) { set_w(); }
PROOF(p_set_w_rounded) { fp_round(true); set_w(); }
PROOF(p_from_w) { from_w(); }
PROOF(p_from_w_rounded) { fp_round(true); from_w(); }
PROOF(p_boolean) { boolean(); }
PROOF(p_boolean_rounded) { fp_round(true); boolean(); }
PROOF(p_or_list) { or_list(); }
PROOF(p_or_list_rounded) { fp_round(true); or_list(); }
