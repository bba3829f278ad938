// Stub of the pybind11 registration interface: only the registered enumeration members are observable.
#ifndef VF_PYBIND11
#define VF_PYBIND11
// the C headers that the real Python.h pulls in (they bring std::abs overloads into the global namespace)
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <stddef.h>
#include <assert.h>
#include <wchar.h>
#include <math.h>
#include <memory>
#include <string>
#include <vector>
#define PYBIND11_EXPORT
#define PYBIND11_MODULE(n, m) void __vf_pymodule_##n(pybind11::module &m)
extern "C" void vf_on_pyenum(const char *enum_name, const char *name, long value);
namespace pybind11 {
  struct handle { template<class T> T cast() const; };
  struct object : handle {}; struct none : object {}; struct str : object {}; struct args : object { const handle *begin() const { return nullptr; } const handle *end() const { return nullptr; } std::size_t size() const { return 0; } };
  struct kwargs : object {}; struct list : object {}; struct tuple : object {}; struct dict : object {}; struct iterator : object {};
  struct module { template<class F, class... X> module &def(const char *, F &&, X &&...) { return *this; } module &doc() { return *this; } module &operator=(const char *) { return *this; } template<class T> void add_object(const char *, T &&) {} module def_submodule(const char *, const char * = nullptr) { return {}; } struct A { template<class T> void operator=(T &&) {} }; A attr(const char *) { return {}; } };
  using module_ = module;
  struct arg { arg(const char *) {} template<class T> arg &operator=(T &&) { return *this; } };
  template<class... A> struct init_t {};
  template<class... A> int init() { return 0; }
  template<class F> int init(F &&) { return 0; }
  template<class T> object cast(T &&) { return {}; }
  template<class T, class U> T cast(U &&) { T *p = nullptr; return *p; }
  template<class T> iterator iter(T &&) { return {}; }
  template<class A, class B> iterator make_iterator(A &&, B &&) { return {}; }
  template<class A, class B> struct keep_alive {};
  template<class T, class... B> struct class_ { template<class... A> class_(A &&...) {}
    template<class... A> class_ &def(A &&...) { return *this; } template<class... A> class_ &def_property_readonly(A &&...) { return *this; } template<class... A> class_ &def_property(A &&...) { return *this; }
    template<class... A> class_ &def_readwrite(A &&...) { return *this; } template<class... A> class_ &def_readonly(A &&...) { return *this; } template<class... A> class_ &def_static(A &&...) { return *this; } };
  template<class T> struct enum_ { const char *n; template<class S> enum_(S &&, const char *n, const char * = nullptr) : n(n) {}
    enum_ &value(const char *name, T v, const char * = nullptr) { vf_on_pyenum(n, name, (long)v); return *this; } enum_ &export_values() { return *this; } };
  struct error_already_set {};
  namespace literals {}
}
#define PyExc_RuntimeError 0
#define PyExc_TypeError 0
#define PyExc_ValueError 0
inline void PyErr_SetString(int, const char *) {}
#endif
