// Interface between a harness and the symbolic executor (symx) / the native
// replay runtime (replay/native.cpp).  The same harness source is compiled to
// bitcode for symbolic execution and, with the real standard library headers,
// to a sanitized executable that replays one concrete counterexample.
#pragma once
#include <susa.h>
#include <cstdint>
#include <complex>
#include <string>
#include <type_traits>
extern "C" {
uint64_t __sym_bv(const char *name, int width) noexcept;
double __sym_f64(const char *name) noexcept;
float __sym_f32(const char *name) noexcept;
int64_t __sym_choice(const char *name, int64_t lo, int64_t hi) noexcept;
void __sym_assume(bool) noexcept;
void __sym_assert(bool, const char *msg) noexcept;
void __sym_close(double a, double b, double tol, const char *msg) noexcept;
void __sym_abort_allowed(bool) noexcept;
void __sym_reach(const char *label) noexcept;
uint64_t __sym_heap_live() noexcept;
uint64_t __sym_heap_bytes() noexcept;
void __sym_alloc_may_fail(int n) noexcept;
int __sym_alloc_failed() noexcept;
uint64_t __sym_concretize(uint64_t x) noexcept;
void __sym_spawn(void (*fn)(void *), void *arg) noexcept;
void __sym_join_all() noexcept;
void __sym_preempt(int n) noexcept;
void __sym_note(const char *label, uint64_t v) noexcept;
bool __sym_real_mode() noexcept;
uint64_t __sym_generalize(const char *tag, void *p, uint64_t n) noexcept; // symbolic 32-bit words of an object become unconstrained
}
#define HARNESS extern "C" void
#define CHECK(c, m) __sym_assert((c), m)
#define ASSUME(c) __sym_assume(c)
#define REACH(l) __sym_reach(l)
#define CHOICE(n, lo, hi) __sym_choice(n, lo, hi)
// run E; it may (and, with assertions compiled in, must) abort exactly when BAD holds
#define MUST_ABORT_IF(BAD, E, M)  do { bool _bad = (BAD); __sym_abort_allowed(_bad); E; __sym_abort_allowed(false); __sym_assert(!_bad, M); } while (0)
#define MAY_ABORT_IF(BAD, E)  do { __sym_abort_allowed(BAD); E; __sym_abort_allowed(false); } while (0)

template <class T, class = void> struct SymOf;
template <class T> struct SymOf<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> { static T get(const char *n) { return (T)__sym_bv(n, (int)sizeof(T) * 8); } };
template <> struct SymOf<bool> { static bool get(const char *n) { return __sym_bv(n, 1) != 0; } };
template <> struct SymOf<double> { static double get(const char *n) { return __sym_f64(n); } };
template <> struct SymOf<float> { static float get(const char *n) { return __sym_f32(n); } };
template <class U> struct SymOf<std::complex<U>> { static std::complex<U> get(const char *n) { std::string s(n); U r = SymOf<U>::get((s + ".re").c_str()); U i = SymOf<U>::get((s + ".im").c_str()); return std::complex<U>(r, i); } };
template <class T> inline T sym(const char *n) { return SymOf<T>::get(n); }

// equality of values that does not itself go through the library under test
template <class T> inline bool same(const T &a, const T &b) { return a == b; }
inline bool same(const double &a, const double &b) { return (a == b) | ((a != a) & (b != b)); }
inline bool same(const float &a, const float &b) { return (a == b) | ((a != a) & (b != b)); }
template <class U> inline bool same(const std::complex<U> &a, const std::complex<U> &b) { return same(a.real(), b.real()) & same(a.imag(), b.imag()); }
inline void close(double a, double b, double tol, const char *m) { __sym_close(a, b, tol, m); }
inline void close(const std::complex<double> &a, const std::complex<double> &b, double tol, const char *m) { __sym_close(a.real(), b.real(), tol, m); __sym_close(a.imag(), b.imag(), tol, m); }

// a dense column-major reference matrix without dynamic memory
#ifndef SYM_CAP
#define SYM_CAP 64
#endif
template <class T, int CAP = SYM_CAP> struct Ref {
  size_t r = 0, c = 0; T a[CAP];
  Ref() { for (int i = 0; i < CAP; i++) a[i] = T(); }
  Ref(size_t R, size_t C) : r(R), c(C) { for (size_t i = 0; i < R * C && i < (size_t)CAP; i++) a[i] = T(); }
  T &at(size_t i, size_t j) { return a[i + j * r]; }
  const T &at(size_t i, size_t j) const { return a[i + j * r]; }
  size_t n() const { return r * c; }
};
template <class T, int CAP = SYM_CAP> inline Ref<T, CAP> symref(const char *n, size_t r, size_t c) { Ref<T, CAP> x(r, c); for (size_t i = 0; i < r * c; i++) x.a[i] = sym<T>(n); return x; }
template <class T, int CAP> inline susa::matrix<T> mk(const Ref<T, CAP> &x) { susa::matrix<T> m(x.r, x.c); for (size_t j = 0; j < x.c; j++) for (size_t i = 0; i < x.r; i++) m(i, j) = x.at(i, j); return m; }
template <class T, int CAP> inline void eq(const susa::matrix<T> &m, const Ref<T, CAP> &x, const char *msg) {
  if (m.no_rows() != x.r || m.no_cols() != x.c || m.size() != x.r * x.c) { __sym_assert(false, msg); return; }
  for (size_t j = 0; j < x.c; j++) for (size_t i = 0; i < x.r; i++) __sym_assert(same(m(i, j), x.at(i, j)), msg);
}
template <class T, int CAP> inline void eqc(const susa::matrix<T> &m, const Ref<T, CAP> &x, double tol, const char *msg) {
  if (m.no_rows() != x.r || m.no_cols() != x.c) { __sym_assert(false, msg); return; }
  for (size_t j = 0; j < x.c; j++) for (size_t i = 0; i < x.r; i++) close(m(i, j), x.at(i, j), tol, msg);
}
// choose one of the shapes (r,c), r,c in [lo,hi], with r*c <= cap
inline void shape(const char *nr, const char *nc, size_t &r, size_t &c, int lo, int hi) { r = (size_t)CHOICE(nr, lo, hi); c = (size_t)CHOICE(nc, lo, hi); }
// like shape(lo..hi), plus a few larger shapes (up to 64 elements)
inline void shapeL(const char *nr, const char *nc, size_t &r, size_t &c, int hi) {
  static const int big[][2] = {{1, 9}, {9, 1}, {2, 5}, {5, 2}, {7, 3}, {3, 7}, {5, 5}, {2, 17}, {17, 2}, {8, 8}, {1, 33}, {33, 1}
#if SYM_CAP > 64
    , {16, 17}, {1, 130}, {257, 1}
#endif
#if SYM_CAP >= 640
    , {2, 300}, {300, 2}
#endif
  };
  int k = (int)CHOICE(nr, 0, hi * hi + (int)(sizeof(big) / sizeof(big[0])) - 1); (void)nc;
  if (k < hi * hi) { r = (size_t)(k / hi + 1); c = (size_t)(k % hi + 1); } else { r = (size_t)big[k - hi * hi][0]; c = (size_t)big[k - hi * hi][1]; }
}
// fixed operands, and earlier calls: a routine's answer must not depend on what was computed before
template <class T> inline susa::matrix<T> fixed(size_t r, size_t c, int k = 0) { susa::matrix<T> m(r, c); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) m(i, j) = (T)(int)((i * 7 + j * 5 + i * j * 3 + (size_t)k * 2) % 6 + (i == j)); return m; }
#define BEFORE(...) do { if (CHOICE("before", 0, 1)) { __VA_ARGS__; } } while (0)
// an index argument: any 64-bit value, or for large shapes one of 0, 1, lim/2, lim-2, lim-1, lim
inline size_t idx(const char *n, size_t lim, bool big) {
  if (!big) return (size_t)sym<uint64_t>(n);
  size_t v[6] = {0, 1, lim / 2, lim - 2, lim - 1, lim}; size_t k = (size_t)CHOICE(n, 0, 5), r = v[k]; ASSUME(r <= lim); for (size_t i = 0; i < k; i++) ASSUME(v[i] != r); return r;
}
