#include "truth.h"
// the largest confidence a float can hold: results that would round to 1 saturate there
static const double CMAX = 0x1.fffffep-1;
static double sat(double c) { return c < CMAX ? c : CMAX; }
PROOF(deduction) {
  auto a = any_ptruth("f1", "c1", "k1"), b = any_ptruth("f2", "c2", "k2");
  float f1 = a->f, f2 = b->f, c1 = a->c, c2 = b->c, k1 = a->k, k2 = b->k;
  auto r = truth_deduction(a, b);
  CHECK(same(r->f, (double)f1 * f2), "deduction: f = f1*f2");
  CHECK(same(r->c, (double)f1 * f2 * c1 * c2), "deduction: c = f1*f2*c1*c2");
  CHECK(eq3(*a, f1, c1, k1) && eq3(*b, f2, c2, k2), "deduction: operands unchanged");
  CHECK(r != nullptr && r != a && r != b, "deduction: result is a new truth value");
  cover("end");
}
PROOF(deduction_self) {
  auto a = any_ptruth("f1", "c1", "k1");
  float f1 = a->f, c1 = a->c, k1 = a->k;
  auto r = truth_deduction(a, a);
  CHECK(same(r->f, (double)f1 * f1), "deduction with itself: f"); CHECK(same(r->c, (double)f1 * f1 * c1 * c1), "deduction with itself: c");
  CHECK(eq3(*a, f1, c1, k1) && r != a, "deduction with itself: operand unchanged"); cover("end");
}
// the result carries positive evidence wp out of total evidence w
static void evidence_result(const Truth &r, double wp, double w, const char *lf, const char *l0, const char *lc) {
  if (w > 0) { if (!vf_native || w > 1e-30) CHECK(same(r.f, wp / w), lf); } else CHECK(r.f == 0.5, l0);
  CHECK(same(r.c, sat(w / (w + r.k))), lc);
}
PROOF(induction) {
  auto a = any_ptruth("f1", "c1", "k1"), b = any_ptruth("f2", "c2", "k2");
  float f1 = a->f, f2 = b->f, c1 = a->c, c2 = b->c, k1 = a->k, k2 = b->k;
  auto r = truth_induction(a, b);
  evidence_result(*r, (double)f1 * f2 * c1 * c2, (double)f2 * c1 * c2, "induction: f = w+/w", "induction: f without evidence", "induction: c = w/(w+k)");
  CHECK(eq3(*a, f1, c1, k1) && eq3(*b, f2, c2, k2), "induction: operands unchanged");
  CHECK(r != nullptr && r != a && r != b, "induction: result is a new truth value"); cover("end");
}
PROOF(comparison) {
  auto a = any_ptruth("f1", "c1", "k1"), b = any_ptruth("f2", "c2", "k2");
  float f1 = a->f, f2 = b->f, c1 = a->c, c2 = b->c, k1 = a->k, k2 = b->k;
  auto r = truth_comparison(a, b);
  double any = 1 - (1 - (double)f1) * (1 - (double)f2);
  evidence_result(*r, (double)f1 * f2 * c1 * c2, any * c1 * c2, "comparison: f = w+/w", "comparison: f without evidence", "comparison: c = w/(w+k)");
  CHECK(eq3(*a, f1, c1, k1) && eq3(*b, f2, c2, k2), "comparison: operands unchanged");
  CHECK(r != nullptr && r != a && r != b, "comparison: result is a new truth value"); cover("end");
}
PROOF(induction_self) {
  auto a = any_ptruth("f1", "c1", "k1"); float f1 = a->f, c1 = a->c, k1 = a->k; auto r = truth_induction(a, a);
  evidence_result(*r, (double)f1 * f1 * c1 * c1, (double)f1 * c1 * c1, "induction with itself: f = w+/w", "induction with itself: f without evidence", "induction with itself: c = w/(w+k)"); CHECK(eq3(*a, f1, c1, k1) && r != a, "induction with itself: operand unchanged"); cover("end");
}
PROOF(comparison_self) {
  auto a = any_ptruth("f1", "c1", "k1"); float f1 = a->f, c1 = a->c, k1 = a->k; auto r = truth_comparison(a, a); double any = 1 - (1 - (double)f1) * (1 - (double)f1);
  evidence_result(*r, (double)f1 * f1 * c1 * c1, any * c1 * c1, "comparison with itself: f = w+/w", "comparison with itself: f without evidence", "comparison with itself: c = w/(w+k)"); CHECK(eq3(*a, f1, c1, k1) && r != a, "comparison with itself: operand unchanged"); cover("end");
}
static double tot(double f, double c, double k) { return k * c / (1 - c); }
static double pos(double f, double c, double k) { return k * f * c / (1 - c); }
static void check_revision(const Truth &a, double w, double wp, double k, const char *lf, const char *l0, const char *lc) {
  if (w > 0) { if (!vf_native || w > 1e-30) CHECK(same(a.f, wp / w), lf); } else CHECK(a.f == 0.5, l0);
  CHECK(same(a.c, sat(w / (w + k))), lc); CHECK(a.k == (float)k, "revision: horizon of the first operand kept");
}
PROOF(revision_ref) {
  Truth a = any_truth("f1", "c1", "k1"), b = any_truth("f2", "c2", "k2");
  float f1 = a.f, f2 = b.f, c1 = a.c, c2 = b.c, k1 = a.k, k2 = b.k;
  truth_revision(a, b);
  check_revision(a, tot(f1, c1, k1) + tot(f2, c2, k2), pos(f1, c1, k1) + pos(f2, c2, k2), k1, "revision: f of the summed evidence", "revision: f without evidence", "revision: c of the summed evidence");
  CHECK(eq3(b, f2, c2, k2), "revision: second operand unchanged"); cover("end");
}
PROOF(revision_ptr) {
  auto a = any_ptruth("f1", "c1", "k1"), b = any_ptruth("f2", "c2", "k2");
  float f1 = a->f, f2 = b->f, c1 = a->c, c2 = b->c, k1 = a->k, k2 = b->k;
  truth_revision(a, b);
  check_revision(*a, tot(f1, c1, k1) + tot(f2, c2, k2), pos(f1, c1, k1) + pos(f2, c2, k2), k1, "shared revision: f of the summed evidence", "shared revision: f without evidence", "shared revision: c of the summed evidence");
  CHECK(eq3(*b, f2, c2, k2), "shared revision: second operand unchanged"); cover("end");
}
PROOF(revision_self) {
  auto a = any_ptruth("f1", "c1", "k1");
  float f1 = a->f, c1 = a->c, k1 = a->k;
  truth_revision(a, a);
  check_revision(*a, 2 * tot(f1, c1, k1), 2 * pos(f1, c1, k1), k1, "revision with itself: f", "revision with itself: f without evidence", "revision with itself: c"); cover("end");
}
PROOF(revision_amounts) {
  double p1 = nd_real("p1", 0, 1e6), p2 = nd_real("p2", 0, 1e6), m1 = nd_real("m1", 0, 1e6), m2 = nd_real("m2", 0, 1e6);
  auto r = revision(p1, p2, m1, m2);
  CHECK(same(r.first, p1 + p2), "revision of amounts: positive evidence"); CHECK(same(r.second, m1 + m2), "revision of amounts: negative evidence"); cover("end");
}
PROOF(and_or) {
  double a = nd_real("a", 0, 1), b = nd_real("b", 0, 1), c = nd_real("c", 0, 1), d = nd_real("d", 0, 1);
  CHECK(same(And(a, b), a * b), "And of two"); CHECK(same(And(a, b, c), a * b * c), "And of three"); CHECK(same(And(a, b, c, d), a * b * c * d), "And of four");
  CHECK(same(Or(a, b), 1 - (1 - a) * (1 - b)), "Or of two"); CHECK(same(Or(a, b, c), 1 - (1 - a) * (1 - b) * (1 - c)), "Or of three"); CHECK(same(Or(a, b, c, d), 1 - (1 - a) * (1 - b) * (1 - c) * (1 - d)), "Or of four"); cover("end");
}
PROOF(or_list) {
  double a = nd_real("a", 0, 1), b = nd_real("b", 0, 1), c = nd_real("c", 0, 1), d = nd_real("d", 0, 1), e = nd_real("e", 0, 1);
  CHECK(same(Or({a}), a), "Or of a list of one"); CHECK(same(Or({a, b}), 1 - (1 - a) * (1 - b)), "Or of a list of two"); CHECK(same(Or({a, b, c}), 1 - (1 - a) * (1 - b) * (1 - c)), "Or of a list of three");
  CHECK(same(Or({a, b, c, d, e}), 1 - (1 - a) * (1 - b) * (1 - c) * (1 - d) * (1 - e)), "Or of a list of five"); CHECK(same(Or({}), 0), "Or of an empty list"); cover("end");
}
