// @bounds shapes up to 3x3 (quick) / 5x5 (thorough) and seventeen larger shapes of up to 600 elements (1x9, 2x17, 8x8, 16x17, 257x1, 300x2, ...); symbolic elements of type int (machine arithmetic), double (exact reals), complex<double> (exact reals), int8_t; all unequal shape pairs up to 3x3 for the refusal
#define SYM_CAP 640
#include "sym.h"
#ifdef THOROUGH
#define MR 5
#else
#define MR 3
#endif
using susa::matrix;
template <class T> static T ap(int op, const T &a, const T &b) { switch (op) { case 0: return (T)(a + b); case 1: return (T)(a - b); case 2: return (T)(a * b); default: return (T)(a / b); } }
template <class T> struct Div { static bool ok(const T &a, const T &b) { return true; } };
template <> struct Div<int> { static bool ok(int a, int b) { return (b != 0) & !((b == -1) & (a == (int)0x80000000)); } };
template <> struct Div<int8_t> { static bool ok(int8_t, int8_t b) { return b != 0; } };
template <> struct Div<double> { static bool ok(double, double b) { return b != 0; } };
template <> struct Div<std::complex<double>> { static bool ok(const std::complex<double> &, const std::complex<double> &b) { return b.real() * b.real() + b.imag() * b.imag() != 0; } };
// long integer quotients: fixed elements except the first, the middle and the last
template <class T> static void few(Ref<T> &x, int op) { if constexpr (std::is_integral<T>::value) if (op == 3 && x.n() > 300) for (size_t k = 1; k + 1 < x.n(); k++) if (k != x.n() / 2) x.a[k] = (T)(int)(k % 23 + 1); }
template <class T> static void mm() {
  size_t r, c; shapeL("r", "c", r, c, MR); int op = (int)CHOICE("op", 0, 3); bool alias = CHOICE("alias", 0, 1);
  auto x = symref<T>("x", r, c), y = alias ? x : symref<T>("y", r, c); few(x, op); few(y, op); auto a = mk(x), b0 = mk(y); matrix<T> &b = alias ? a : b0; if (op == 3) for (size_t k = 0; k < r * c; k++) ASSUME(Div<T>::ok(x.a[k], y.a[k]));
  matrix<T> z = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; Ref<T> e(r, c); for (size_t k = 0; k < r * c; k++) e.a[k] = ap<T>(op, x.a[k], y.a[k]);
  eq(z, e, "matrix op matrix"); eq(a, x, "left operand unchanged"); eq(b, y, "right operand unchanged"); REACH("done");
}
template <class T> static void ms() {
  size_t r, c; shapeL("r", "c", r, c, MR); int op = (int)CHOICE("op", 0, 3); bool left = CHOICE("left", 0, 1); auto x = symref<T>("x", r, c); few(x, op); auto a = mk(x); T s = sym<T>("s");
  if (op == 3) for (size_t k = 0; k < r * c; k++) ASSUME(left ? Div<T>::ok(s, x.a[k]) : Div<T>::ok(x.a[k], s));
  matrix<T> z = left ? (op == 0 ? s + a : op == 1 ? s - a : op == 2 ? s * a : s / a) : (op == 0 ? a + s : op == 1 ? a - s : op == 2 ? a * s : a / s);
  Ref<T> e(r, c); for (size_t k = 0; k < r * c; k++) e.a[k] = left ? ap<T>(op, s, x.a[k]) : ap<T>(op, x.a[k], s); eq(z, e, "scalar operation"); eq(a, x, "operand unchanged"); REACH("done");
}
template <class T> static void acc() {
  size_t r, c; shapeL("r", "c", r, c, MR); int op = (int)CHOICE("op", 0, 1); bool alias = CHOICE("alias", 0, 1); auto x = symref<T>("x", r, c), y = alias ? x : symref<T>("y", r, c); auto a = mk(x), b0 = mk(y); matrix<T> &b = alias ? a : b0;
  matrix<T> z = op == 0 ? (a += b) : (a -= b); Ref<T> e(r, c); for (size_t k = 0; k < r * c; k++) e.a[k] = ap<T>(op, x.a[k], y.a[k]); eq(a, e, "compound assignment"); eq(z, e, "compound assignment: result"); if (!alias) eq(b, y, "right operand unchanged"); REACH("done");
}
template <class T> static void cmp() {
  size_t r, c, R, C; shapeL("r", "c", r, c, 3); if (r > 3 || c > 3) { R = r; C = c; if (CHOICE("tr", 0, 1)) { R = c; C = r; } } else shape("R", "C", R, C, 1, 3); if constexpr (!std::is_integral<T>::value) ASSUME(r * c <= 64); auto x = symref<T>("x", r, c), y = symref<T>("y", R, C); auto a = mk(x), b = mk(y); bool e = r == R && c == C; if (e) for (size_t k = 0; k < r * c; k++) e = e & same(x.a[k], y.a[k]);
  bool q = a == b, n = a != b; CHECK(q == e, "== is true exactly for equal matrices"); CHECK(n == !e, "!= is the negation"); CHECK((b == a) == e, "symmetric"); CHECK(a == a && !(a != a), "reflexive"); eq(a, x, "unchanged"); REACH("done");
}
// @h h_mm_int reach=done shards=4 qtimeout=20000
HARNESS h_mm_int() { mm<int>(); }
// @h h_mm_d mode=real reach=done shards=2
HARNESS h_mm_d() { mm<double>(); }
// @h h_mm_cd mode=real reach=done shards=2
HARNESS h_mm_cd() { mm<std::complex<double>>(); }
// @h h_mm_i8 reach=done shards=4 tier=thorough
HARNESS h_mm_i8() { mm<int8_t>(); }
// @h h_ms_int reach=done shards=4
HARNESS h_ms_int() { ms<int>(); }
// @h h_ms_d mode=real reach=done shards=2
HARNESS h_ms_d() { ms<double>(); }
// @h h_ms_cd mode=real reach=done shards=2
HARNESS h_ms_cd() { ms<std::complex<double>>(); }
// @h h_acc_int reach=done
HARNESS h_acc_int() { acc<int>(); }
// @h h_acc_cd mode=real reach=done
HARNESS h_acc_cd() { acc<std::complex<double>>(); }
// @h h_cmp_int reach=done shards=4
HARNESS h_cmp_int() { cmp<int>(); }
// @h h_cmp_cd mode=real reach=done shards=8
HARNESS h_cmp_cd() { cmp<std::complex<double>>(); }
// comparison with an empty matrix
// @h h_cmp_empty reach=done
HARNESS h_cmp_empty() { size_t r, c; shape("r", "c", r, c, 1, 3); auto x = symref<int>("x", r, c); auto a = mk(x); matrix<int> e, f; CHECK(!(a == e) && a != e && !(e == a) && e != a && e == f && !(e != f), "empty"); REACH("done"); }
// operands of different shapes
// @h h_refuse reach=eq
HARNESS h_refuse() {
  size_t r, c, R, C; shape("r", "c", r, c, 1, 3); shape("R", "C", R, C, 1, 3); int op = (int)CHOICE("op", 0, 5); auto x = symref<int>("x", r, c), y = symref<int>("y", R, C); auto a = mk(x), b = mk(y); bool bad = r != R || c != C; if (op == 3) for (size_t k = 0; k < R * C; k++) ASSUME(y.a[k] > 0); matrix<int> z;
  MUST_ABORT_IF(bad, switch (op) { case 0: z = a + b; break; case 1: z = a - b; break; case 2: z = a * b; break; case 3: z = a / b; break; case 4: a += b; break; default: a -= b; }, "operands of different shapes must abort"); REACH("eq");
}
// in the assertion-disabled build nothing outside the operands is touched
// @h h_refuse_na reach=done config=nassert
HARNESS h_refuse_na() {
  size_t r, c, R, C; shape("r", "c", r, c, 1, 3); shape("R", "C", R, C, 1, 3); int op = (int)CHOICE("op", 0, 5); auto x = symref<int>("x", r, c), y = symref<int>("y", R, C); auto a = mk(x), b = mk(y); if (op == 3) for (size_t k = 0; k < R * C; k++) ASSUME(y.a[k] > 0); matrix<int> z; bool bad = r != R || c != C; ASSUME(bad);
  switch (op) { case 0: z = a + b; break; case 1: z = a - b; break; case 2: z = a * b; break; case 3: z = a / b; break; case 4: a += b; break; default: a -= b; }
  eq(a, x, "operands unchanged"); eq(b, y, "operands unchanged"); REACH("done");
}
