#include "verif.h"
#include "NAL/Functions/include/TruthFunctions.h"
#include "NAL/Functions/include/TemporalFunctions.h"
using namespace TRUTH_FUNCTIONS;
using TRUTH::Truth; using TRUTH::pTruth;
// any truth value of the library: f in [0,1], c in [0,1), k > 0 (the native runs keep k within 2^-10 .. 2^10)
static Truth any_truth(const char *f, const char *c, const char *k) {
  float ff = nd_float(f, 0, 1), cc = nd_float(c, 0, 0.99999994f), kk;
  if (vf_native) kk = nd_float(k, 0.0009765625f, 1024); else { kk = nd_float(k, 0, 0x1p100f); assume(kk > 0); }
  return Truth(ff, cc, kk);
}
static pTruth any_ptruth(const char *f, const char *c, const char *k) { Truth t = any_truth(f, c, k); return Truth::create(t.f, t.c, t.k); }
static bool range01(double x) { return x >= 0 && x <= 1; }
static bool conf(double x) { return x >= 0 && x < 1; }
static bool valid(const Truth &t) { return range01(t.f) && conf(t.c) && t.k > 0; }
static bool eq3(const Truth &t, float f, float c, float k) { return t.f == f && t.c == c && t.k == k; }
