// Native driver: replay a counterexample or search for a failing input of a contract harness.
#include "verif.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <random>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <chrono>
namespace vf {
  std::vector<Nd> log;
  std::map<std::string, long> covered;
  std::vector<std::pair<std::string, std::pair<std::string, long>>> pyenums;
  static std::map<std::string, int> counts;
  static std::map<std::string, std::string> replay;
  static bool replaying = false;
  static std::mt19937_64 rng;
  struct Shared { volatile unsigned long iter, done, skipped; volatile int violated; char label[512]; char log[65536]; };
  static Shared *sh;
  typedef std::vector<std::pair<std::string, void (*)()>> Reg;
  static Reg &regs() { static Reg r; return r; }
  bool reg(const char *n, void (*f)()) { regs().push_back({n, f}); return true; }
  static void save() {
    std::string s;
    for (auto &e : vf::log) { s += e.name + " " + e.kind + " "; if (e.kind == "str") { char b[4]; for (unsigned char c : e.val) { snprintf(b, 4, "%02x", c); s += b; } } else s += e.val; s += "\n"; if (s.size() > 65000) break; }
    strncpy(sh->log, s.c_str(), sizeof(sh->log) - 1);
  }
  static void note(const std::string &n, const char *k, const std::string &v) {
    vf::log.push_back({n, k, v});
    // append eagerly so that a crash leaves the input behind
    size_t l = strlen(sh->log); std::string s = n + " " + k + " ";
    if (!strcmp(k, "str")) { char b[4]; for (unsigned char c : v) { snprintf(b, 4, "%02x", c); s += b; } } else s += v; s += "\n";
    if (l + s.size() < sizeof(sh->log) - 1) memcpy(sh->log + l, s.c_str(), s.size() + 1);
  }
  static std::string uname(const char *n) { int k = counts[n]++; std::string s(n); for (auto &c : s) if (c == ' ') c = '_'; return k ? s + "#" + std::to_string(k) : s; }
  int64_t get_int(const char *n0, int64_t lo, int64_t hi, int64_t slo, int64_t shi) {
    std::string n = uname(n0); int64_t v;
    if (replaying && replay.count(n)) { v = std::stoll(replay[n]); if (v < lo || v > hi) throw Skip(); }
    else {
      int r = rng() % 16;
      if ((uint64_t)hi - (uint64_t)lo < 64) v = lo + (int64_t)(rng() % ((uint64_t)hi - (uint64_t)lo + 1));
      else if (shi > slo && r < 12) v = slo + (int64_t)(rng() % ((uint64_t)shi - (uint64_t)slo + 1 ? (uint64_t)shi - (uint64_t)slo + 1 : 1));
      else if (r == 13) v = lo; else if (r == 14) v = hi; else if (r == 15 && lo <= 0 && hi >= 0) v = 0;
      else { uint64_t d = (uint64_t)hi - (uint64_t)lo + 1; v = lo + (int64_t)(d ? rng() % d : rng()); }
      if (v < lo) v = lo; if (v > hi) v = hi;
    }
    note(n, "int", std::to_string(v)); return v;
  }
  double get_real(const char *n0, double lo, double hi) {
    std::string n = uname(n0); double v;
    if (replaying && replay.count(n)) {
      std::string &s = replay[n]; size_t k = s.find('/');
      v = k == std::string::npos ? std::stod(s) : (double)(std::stold(s.substr(0, k)) / std::stold(s.substr(k + 1)));
    } else {
      double u = (double)(rng() >> 11) * (1.0 / 9007199254740992.0);
      switch (rng() % 12) { case 0: v = lo; break; case 1: v = hi; break; case 2: v = lo + (hi - lo) * 0.5; break;
        case 3: v = lo + (hi - lo) * std::pow(10, -(double)(rng() % 8) - 1); break; case 4: v = hi - (hi - lo) * std::pow(10, -(double)(rng() % 8) - 1); break;
        case 5: v = lo <= 1 && hi >= 1 ? 1 : lo + (hi - lo) * u; break;
        default: v = hi - lo > 100 ? lo + std::fmin(hi - lo, 4) * u : lo + (hi - lo) * u; }
    }
    if (v < lo) v = lo; if (v > hi) v = hi;
    char b[64]; snprintf(b, 64, "%.17g", v); note(n, "real", b); return v;
  }
  std::string get_str(const char *n0) {
    std::string n = uname(n0); std::string v;
    if (replaying && replay.count(n)) { std::string &h = replay[n]; for (size_t k = 0; k + 1 < h.size(); k += 2) v += (char)std::stoi(h.substr(k, 2), nullptr, 16); }
    else { static const char *pool[] = {"a", "b", "c", "robin", "bird", "x1", "A", "_", "7", "swimmer"}; v = pool[rng() % 10]; if (rng() % 4 == 0) v += pool[rng() % 10]; }
    note(n, "str", v); return v;
  }
  void violated(const char *label) { strncpy(sh->label, label, 511); save(); sh->violated = 1; _exit(77); }
}
extern "C" void vf_on_pyenum(const char *e, const char *n, long v) { vf::pyenums.push_back({e, {n, v}}); }
using namespace vf;
static void one(void (*f)()) {
  counts.clear(); vf::log.clear(); sh->log[0] = 0;
  try { f(); sh->done++; } catch (Skip &) { sh->skipped++; }
  catch (std::exception &e) { std::string s = std::string("uncaught exception: ") + e.what(); violated(s.c_str()); }
  catch (...) { violated("uncaught exception"); }
}
int main(int argc, char **argv) {
  std::string proof, file; unsigned long n = 0, seed = 1; double secs = 5; bool inproc = false;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i];
    if (a == "--list") { for (auto &r : regs()) puts(r.first.c_str()); return 0; }
    else if (a == "--proof") proof = argv[++i]; else if (a == "--replay") file = argv[++i];
    else if (a == "--search") n = std::stoul(argv[++i]); else if (a == "--seed") seed = std::stoul(argv[++i]); else if (a == "--secs") secs = std::stod(argv[++i]);
    else if (a == "--inproc") inproc = true; }
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  void (*f)() = nullptr;
  for (auto &r : regs()) if (r.first == proof) f = r.second;
  if (!f) { fprintf(stderr, "no proof %s\n", proof.c_str()); return 2; }
  if (!file.empty()) { replaying = true; n = 1; std::ifstream in(file); std::string a, k, v, l; while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; size_t p = l.find(' '), q = l.find(' ', p + 1); if (p == std::string::npos) continue; a = l.substr(0, p); v = q == std::string::npos ? "" : l.substr(q + 1); replay[a] = v; } }
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  unsigned long it = 0; int st = 0; bool hung = false;
  while (it < n && !(it && el() > secs)) {
    sh->iter = it; unsigned long batch = std::min<unsigned long>(n - it, 20000);
    auto body = [&] { for (unsigned long k = 0; k < batch; ++k) { sh->iter = it + k; rng.seed(seed * 1000003 + it + k); one(f); if (k % 8 == 7 && el() > secs) break; } };
    if (inproc) { body(); it += batch; continue; }
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); body(); _exit(0); }
    double tb = el(); unsigned long last = sh->iter; double tl = tb;
    while (true) { int r = waitpid(p, &st, WNOHANG); if (r == p) break; usleep(500);
      if (sh->iter != last) { last = sh->iter; tl = el(); } else if (el() - tl > 10) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; } }
    if (hung) { strcpy(sh->label, "does not terminate"); sh->violated = 1; break; }
    if (sh->violated) break;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { snprintf(sh->label, 512, "memory safety: crashed (%s %d)", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); sh->violated = 1; break; }
    it += batch;
  }
  printf("runs %lu skipped %lu\n", (unsigned long)sh->done, (unsigned long)sh->skipped);
  if (sh->violated) { printf("FAILED %s\n", sh->label); fputs(sh->log, stdout); return 1; }
  if (replaying && sh->skipped) { puts("SKIPPED"); return 3; }
  puts("HELD");
  return 0;
}
