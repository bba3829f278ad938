#ifndef VF_FMT
#define VF_FMT
#include <string>
#include <stdexcept>
extern "C" { bool __vf_str_open(const void *h); bool __vf_str_braces(const void *h); }
namespace fmt {
  using std::string;
  // contract of fmt::format for automatic and manual argument numbering
  inline void __collect(string *) {}
  template<class A, class... R> void __arg(string &out, size_t want, size_t cur, const char *spec, size_t n, const A &a, const R &...r);
  inline void __arg(string &, size_t, size_t, const char *, size_t) { __vf_throw("fmt::format_error"); }
  template<class A, class... R> void __arg(string &out, size_t want, size_t cur, const char *spec, size_t n, const A &a, const R &...r) {
    if (want == cur) out += std::__vf_fmt_val(spec, n, a); else __arg(out, want, cur + 1, spec, n, r...); }
  template<class... A> string format(const string &f, const A &...a) {
    // a text that is not known is used as a format string: it may contain braces
    if (__vf_str_open(f._h)) { if (__vf_str_braces(f._h)) __vf_throw("fmt::format_error"); return f; }
    const char *p = f.c_str(); string out; size_t next = 0;
    while (*p) {
      if (*p == '{') {
        if (p[1] == '{') { out += '{'; p += 2; continue; }
        ++p; size_t want;
        if (*p >= '0' && *p <= '9') { want = 0; while (*p >= '0' && *p <= '9') want = want * 10 + (*p++ - '0'); } else want = next++;
        const char *spec = p; if (*p == ':') { ++p; spec = p; }
        while (*p && *p != '}') ++p;
        if (!*p) __vf_throw("fmt::format_error");
        __arg(out, want, 0, spec, (size_t)(p - spec), a...); ++p;
      } else if (*p == '}') { if (p[1] != '}') __vf_throw("fmt::format_error"); out += '}'; p += 2; }
      else { out += *p; ++p; }
    }
    return out; }
  template<class... A> string format(const char *f, const A &...a) { return format(string(f), a...); }
  template<class... A> void print(const A &...) {}
}
#endif
