// Harness API.  The same contract harness is compiled twice:
//  * VF_MODEL: to LLVM IR together with /repo, and proved for all inputs by cverify (z3);
//  * natively, against the real standard library, to replay a counterexample or to search for a failing input.
#ifndef VERIF_H
#define VERIF_H
#include <string>
#include <vector>
#include <set>
#include <list>
#include <memory>
#include <cstdint>
#include <cstddef>
#include <cmath>
#ifdef VF_MODEL
extern "C" {
  int64_t __vf_nd_int(const char *n, int64_t lo, int64_t hi);
  int64_t __vf_nd_size(const char *n, int64_t lo, int64_t hi);
  int64_t __vf_nd_choice(const char *n, int64_t lo, int64_t hi);
  uint64_t __vf_nd_u64(const char *n);
  bool __vf_nd_bool(const char *n);
  int64_t __vf_nd_timestamp(const char *n, int64_t lo, int64_t hi);
  double __vf_nd_real(const char *n);
  void __vf_nd_str(void *d, const char *n);
  void __vf_assume(bool c);
  void __vf_check(bool c, const char *label);
  void __vf_cover(const char *label);
  [[noreturn]] void __vf_fail(const char *label);
  int __vf_round(int m);
  void __vf_landmark(double x);
  void __vf_havoc(const char *pattern);
  uint64_t __vf_uf(const char *n, int k, uint64_t a, uint64_t b, uint64_t c);
  void __vf_mark(const void *p, const char *key, uint64_t v);
  bool __vf_marked(const void *p, const char *key);
  uint64_t __vf_markof(const void *p, const char *key);
  void __vf_gset(const char *k, uint64_t v);
  uint64_t __vf_gget(const char *k);
  int __vf_pyenum_count();
  int64_t __vf_pyenum_get(int i, void *e, void *n);
  void __vf_print(const char *s, uint64_t x);
}
#define PROOF(name) extern "C" void vf_proof_##name()
inline int64_t nd_int(const char *n, int64_t lo, int64_t hi) { return __vf_nd_int(n, lo, hi); }   // any value of the range
inline int64_t nd_small(const char *n, int64_t lo, int64_t hi, int64_t, int64_t) { return __vf_nd_int(n, lo, hi); }
inline size_t nd_size(const char *n, size_t lo, size_t hi) { return __vf_nd_size(n, lo, hi); }      // bounded container size
inline int64_t nd_choice(const char *n, int64_t lo, int64_t hi) { return __vf_nd_choice(n, lo, hi); } // complete case split
inline int64_t nd_timestamp(const char *n, int64_t lo, int64_t hi) { return __vf_nd_timestamp(n, lo, hi); }
inline uint64_t nd_u64(const char *n) { return __vf_nd_u64(n); }
inline bool nd_bool(const char *n) { return __vf_nd_bool(n); }
inline double nd_real(const char *n, double lo, double hi) { double x = __vf_nd_real(n); __vf_assume(x >= lo && x <= hi); return x; }
inline float nd_float(const char *n, float lo, float hi) { int m = __vf_round(0); float f = (float)nd_real(n, lo, hi); __vf_round(m); return f; }   // any float of the range
inline std::string nd_str(const char *n) { std::string s; __vf_nd_str(s._h, n); return s; }
inline void assume(bool c) { __vf_assume(c); }
inline void CHECK(bool c, const char *label) { __vf_check(c, label); }
inline void cover(const char *label) { __vf_cover(label); }
[[noreturn]] inline void vf_failure(const char *label) { __vf_fail(label); }
inline bool same(double a, double b) { return a == b; }
inline void fp_round(bool on) { __vf_round(on); }
inline void landmark(double x) { __vf_landmark(x); }
inline void any_global(const char *pattern) { __vf_havoc(pattern); }   // any value of matching global counters/settings
inline void vf_print(const char *s, uint64_t x) { __vf_print(s, x); }
constexpr bool vf_native = false;
#else
#include <map>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace vf {
  struct Skip {};
  struct Nd { std::string name, kind, val; };
  extern std::vector<Nd> log;
  int64_t get_int(const char *n, int64_t lo, int64_t hi, int64_t slo, int64_t shi);
  double get_real(const char *n, double lo, double hi);
  std::string get_str(const char *n);
  [[noreturn]] void violated(const char *label);
  bool reg(const char *name, void (*f)());
  extern std::vector<std::pair<std::string, std::pair<std::string, long>>> pyenums;
  extern std::map<std::string, long> covered;
}
#define PROOF(name) static void vf_body_##name(); static bool vf_reg_##name = vf::reg(#name, vf_body_##name); static void vf_body_##name()
inline int64_t nd_int(const char *n, int64_t lo, int64_t hi) { return vf::get_int(n, lo, hi, lo, hi); }
inline int64_t nd_small(const char *n, int64_t lo, int64_t hi, int64_t slo, int64_t shi) { return vf::get_int(n, lo, hi, slo, shi); }
inline size_t nd_size(const char *n, size_t lo, size_t hi) { return vf::get_int(n, lo, hi, lo, hi); }
inline int64_t nd_choice(const char *n, int64_t lo, int64_t hi) { return vf::get_int(n, lo, hi, lo, hi); }
inline int64_t nd_timestamp(const char *n, int64_t lo, int64_t hi) { return vf::get_int(n, lo, hi, lo < -50 ? -50 : lo, hi > 5000 ? 5000 : hi); }
inline uint64_t nd_u64(const char *n) { return (uint64_t)vf::get_int(n, INT64_MIN, INT64_MAX, 0, 5); }
inline bool nd_bool(const char *n) { return vf::get_int(n, 0, 1, 0, 1); }
inline double nd_real(const char *n, double lo, double hi) { return vf::get_real(n, lo, hi); }
inline float nd_float(const char *n, float lo, float hi) { float f = (float)vf::get_real(n, lo, hi); if (f < lo) f = lo; if (f > hi) f = hi; return f; }
inline std::string nd_str(const char *n) { return vf::get_str(n); }
inline void assume(bool c) { if (!c) throw vf::Skip(); }
inline void CHECK(bool c, const char *label) { if (!c) vf::violated(label); }
inline void cover(const char *label) { vf::covered[label]++; }
[[noreturn]] inline void vf_failure(const char *label) { vf::violated(label); }
inline bool same(double a, double b) { if (a == b) return true; if (std::isnan(a) || std::isnan(b)) return false; double m = std::fmax(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= 2e-4 * m + 1e-7; }
inline void fp_round(bool) {}
inline void landmark(double) {}
inline void any_global(const char *) {}
inline void vf_print(const char *s, uint64_t x) { fprintf(stderr, "%s %llu\n", s, (unsigned long long)x); }
constexpr bool vf_native = true;
#endif
// examples: a fixed sequence of arbitrary-looking numbers, the same in the verifier and natively
struct Some { uint64_t s; explicit Some(uint64_t n) : s(n * 7919 + 12345) {} uint64_t below(uint64_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (s >> 33) % n; } };
#endif
