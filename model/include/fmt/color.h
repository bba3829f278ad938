#ifndef VF_FMT_COLOR
#define VF_FMT_COLOR
#include <fmt/core.h>
namespace fmt {
  struct rgb { unsigned char r, g, b; rgb(unsigned char r, unsigned char g, unsigned char b) : r(r), g(g), b(b) {} };
  struct text_style { int v; };
  inline text_style fg(rgb c) { return text_style{1}; } inline text_style bg(rgb c) { return text_style{2}; }
  inline text_style operator|(text_style a, text_style b) { return text_style{a.v | b.v}; }
  template<class... A> string format(const text_style &ts, const string &f, const A &...a) { return format(f, a...); }
  template<class... A> string format(const text_style &ts, const char *f, const A &...a) { return format(string(f), a...); }
}
#endif
