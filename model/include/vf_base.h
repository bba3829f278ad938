// Model ("assumed contract") of the C++ standard library used when compiling /repo for verification.
// Containers are abstract mathematical sequences held by the verifier: every primitive __vf_* is
// given its meaning in cverify/containers.py.  Nothing of cNARS itself is modelled here.
#ifndef VF_BASE_H
#define VF_BASE_H
#include <bits/c++config.h>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cmath>
#include <climits>
#include <cwchar>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <new>
#include <exception>
#include <bits/stl_iterator_base_types.h>
#include <bits/stl_iterator_base_funcs.h>
#include <bits/stl_algobase.h>
#include <bits/stl_function.h>
#include <bits/functional_hash.h>
#include <bits/range_access.h>
extern "C" {
  // sequences (element storage is raw; typed construction happens in the headers below)
  void __vf_seq_init(void *s);
  std::size_t __vf_seq_len(const void *s);
  bool __vf_seq_sym(const void *s);                            // symbolic length?
  void *__vf_seq_at(const void *s, std::size_t i, std::size_t esz);
  void *__vf_seq_push(void *s, std::size_t esz);               // append raw element
  void *__vf_seq_gap(void *s, std::size_t i, std::size_t esz); // insert raw element at i
  void __vf_seq_erase(void *s, std::size_t i);
  void __vf_seq_trunc(void *s, std::size_t n);
  void __vf_seq_copy(void *dst, const void *src);              // value copy (src kept)
  void __vf_seq_append(void *dst, const void *src, std::size_t i, std::size_t j); // dst ++ src[i..j)
  // ordered sets with symbolic content: cmp identifies the order, see containers.py
  std::size_t __vf_set_find(const void *s, const void *x, std::size_t esz, const void *cmp);
  std::size_t __vf_set_insert(void *s, const void *x, std::size_t esz, const void *cmp, bool *isnew);
  std::size_t __vf_set_erase(void *s, const void *x, std::size_t esz, const void *cmp);
  void __vf_set_op(void *dst, const void *a, const void *b, int op, std::size_t esz, const void *cmp); // 0 and 1 or 2 minus
  void __vf_set_eraseat(void *s, std::size_t i);
  // strings: mathematical strings
  void __vf_str_lit(void *s, const char *p, std::size_t n, bool havelen);
  void __vf_str_cat(void *dst, const void *a, const void *b);
  bool __vf_str_eq(const void *a, const void *b);
  bool __vf_str_lt(const void *a, const void *b);
  std::size_t __vf_str_len(const void *a);
  const char *__vf_str_c(const void *a);
  char __vf_str_at(const void *a, std::size_t i);
  std::size_t __vf_str_hash(const void *a);
  void __vf_str_of(void *s, const char *spec, std::size_t n, int kind, long long i, double d, const void *str); // formatted rendering of a value
  void __vf_str_sub(void *dst, const void *a, std::size_t i, std::size_t n);
  void __vf_str_chr(void *dst, char c);
  [[noreturn]] void __vf_throw(const char *what);
  std::size_t __vf_nd_count();
  double __vf_stod(const void *s);
  void __vf_fmt_begin(); 
}
namespace std {
  using ::size_t; 
  template<class T> class allocator { public: using value_type = T; };
  template<class T> struct __vf_hash_ok : true_type {};
  struct __vf_shared_tag {};
  template<class T> struct __vf_is_setit : false_type {};
  // sequence iterator (vector, list)
  template<class T> struct __vf_it {
    using iterator_category = random_access_iterator_tag;
    using value_type = remove_cv_t<T>; using difference_type = ptrdiff_t; using pointer = T*; using reference = T&;
    const void *c; size_t i;
    __vf_it() : c(nullptr), i(0) {}
    __vf_it(const void *c, size_t i) : c(c), i(i) {}
    template<class U, class = enable_if_t<is_same_v<const U, T>>> __vf_it(const __vf_it<U> &o) : c(o.c), i(o.i) {}
    T &operator*() const { return *(T*)__vf_seq_at(c, i, sizeof(T)); }
    T *operator->() const { return (T*)__vf_seq_at(c, i, sizeof(T)); }
    T &operator[](ptrdiff_t n) const { return *(T*)__vf_seq_at(c, i + n, sizeof(T)); }
    __vf_it &operator++() { ++i; return *this; }
    __vf_it operator++(int) { __vf_it t = *this; ++i; return t; }
    __vf_it &operator--() { --i; return *this; }
    __vf_it operator--(int) { __vf_it t = *this; --i; return t; }
    __vf_it &operator+=(ptrdiff_t n) { i += n; return *this; }
    __vf_it &operator-=(ptrdiff_t n) { i -= n; return *this; }
    __vf_it operator+(ptrdiff_t n) const { return __vf_it(c, i + n); }
    __vf_it operator-(ptrdiff_t n) const { return __vf_it(c, i - n); }
    friend __vf_it operator+(ptrdiff_t n, const __vf_it &a) { return a + n; }
  };
  template<class A, class B> bool operator==(const __vf_it<A> &a, const __vf_it<B> &b) { return a.i == b.i; }
  template<class A, class B> bool operator!=(const __vf_it<A> &a, const __vf_it<B> &b) { return a.i != b.i; }
  template<class A, class B> bool operator<(const __vf_it<A> &a, const __vf_it<B> &b) { return a.i < b.i; }
  template<class A, class B> bool operator>(const __vf_it<A> &a, const __vf_it<B> &b) { return a.i > b.i; }
  template<class A, class B> bool operator<=(const __vf_it<A> &a, const __vf_it<B> &b) { return a.i <= b.i; }
  template<class A, class B> bool operator>=(const __vf_it<A> &a, const __vf_it<B> &b) { return a.i >= b.i; }
  template<class A, class B> ptrdiff_t operator-(const __vf_it<A> &a, const __vf_it<B> &b) { return a.i - b.i; }
  // set iterator: bidirectional, elements constant
  template<class T> struct __vf_setit {
    using iterator_category = bidirectional_iterator_tag;
    using value_type = T; using difference_type = ptrdiff_t; using pointer = const T*; using reference = const T&;
    const void *c; size_t i;
    __vf_setit() : c(nullptr), i(0) {}
    __vf_setit(const void *c, size_t i) : c(c), i(i) {}
    const T &operator*() const { return *(const T*)__vf_seq_at(c, i, sizeof(T)); }
    const T *operator->() const { return (const T*)__vf_seq_at(c, i, sizeof(T)); }
    __vf_setit &operator++() { ++i; return *this; }
    __vf_setit operator++(int) { __vf_setit t = *this; ++i; return t; }
    __vf_setit &operator--() { --i; return *this; }
    __vf_setit operator--(int) { __vf_setit t = *this; --i; return t; }
    bool operator==(const __vf_setit &o) const { return i == o.i; }
    bool operator!=(const __vf_setit &o) const { return i != o.i; }
  };
  template<class T> struct __vf_is_setit<__vf_setit<T>> : true_type {};
  template<class It> struct __vf_rev {
    using iterator_category = typename It::iterator_category; using value_type = typename It::value_type;
    using difference_type = ptrdiff_t; using pointer = typename It::pointer; using reference = typename It::reference;
    It b; __vf_rev(It b) : b(b) {}
    reference operator*() const { It t = b; --t; return *t; }
    __vf_rev &operator++() { --b; return *this; }
    __vf_rev operator++(int) { __vf_rev t = *this; --b; return t; }
    bool operator==(const __vf_rev &o) const { return b == o.b; }
    bool operator!=(const __vf_rev &o) const { return b != o.b; }
  };
}
#endif
