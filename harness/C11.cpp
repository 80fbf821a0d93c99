// @bounds matmul: all (rows, inner, columns) up to 3 (quick) / 4 (thorough) and 2x5x2, 5x1x5, 1x9x1, 4x4x3, 3x4x6, 6x2x4, 1x17x2, 9x2x1, 5x5x5, 1x33x1, 1x130x2, 2x66x2, 65x1x3, 3x2x67, 17x17x17, 1x300x1, 2x2x300, 300x2x1, symbolic elements of int and int8_t (machine arithmetic), complex<int>, double and complex<double> (exact reals), a matrix times itself; transposes: shapes up to 4x4 (quick) / 5x5 (thorough) and seventeen larger shapes of up to 600 elements (1x9, 2x17, 7x3, 8x8, 33x1, ...); all non-conforming shape pairs up to 3x3 and empty operands for the refusal
#define SYM_CAP 640
#include "sym.h"
#ifdef THOROUGH
#define MX 4
#define TR 5
#else
#define MX 3
#define TR 4
#endif
using susa::matrix;
// all (rows, inner, columns) up to MX and some larger ones
static void rkc(size_t &r, size_t &k, size_t &c) {
  static const int big[][3] = {{2, 5, 2}, {5, 1, 5}, {1, 9, 1}, {4, 4, 3}, {3, 4, 6}, {6, 2, 4}, {1, 17, 2}, {9, 2, 1}, {5, 5, 5}, {1, 33, 1}, {1, 130, 2}, {2, 66, 2}, {65, 1, 3}, {3, 2, 67}, {17, 17, 17}, {1, 300, 1}, {2, 2, 300}, {300, 2, 1}}; int q = (int)CHOICE("r", 0, MX * MX * MX + 17);
  if (q < MX * MX * MX) { r = (size_t)(q % MX + 1); k = (size_t)(q / MX % MX + 1); c = (size_t)(q / MX / MX + 1); } else { q -= MX * MX * MX; r = (size_t)big[q][0]; k = (size_t)big[q][1]; c = (size_t)big[q][2]; }
}
template <class T> static void mul() {
  size_t r, k, c; rkc(r, k, c); auto x = symref<T>("x", r, k), y = symref<T>("y", k, c); auto a = mk(x), b = mk(y); BEFORE(susa::matmul(fixed<T>(r, k), fixed<T>(k, c)); susa::matmul(fixed<T>(r + 1, k), fixed<T>(k, c + 2))); auto z = susa::matmul(a, b); Ref<T> e(r, c);
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { T s = T(); for (size_t l = 0; l < k; l++) s = (T)(s + x.at(i, l) * y.at(l, j)); e.at(i, j) = s; }
  if (__sym_real_mode()) eqc(z, *(Ref<T> *)&e, 0, "matrix product"); else eq(z, e, "matrix product");
  eq(a, x, "left operand unchanged"); eq(b, y, "right operand unchanged"); REACH("done");
}
template <class T> static void muli() { // integers: equality in machine arithmetic
  size_t r, k, c; rkc(r, k, c); auto x = symref<T>("x", r, k), y = symref<T>("y", k, c); auto a = mk(x), b = mk(y); BEFORE(susa::matmul(fixed<T>(r, k), fixed<T>(k, c)); susa::matmul(fixed<T>(r + 1, k), fixed<T>(k, c + 2))); auto z = susa::matmul(a, b); Ref<T> e(r, c);
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { T s = T(); for (size_t l = 0; l < k; l++) s = (T)(s + x.at(i, l) * y.at(l, j)); e.at(i, j) = s; }
  eq(z, e, "matrix product"); eq(a, x, "left operand unchanged"); eq(b, y, "right operand unchanged"); REACH("done");
}
// @h h_mul_int reach=done
HARNESS h_mul_int() { muli<int>(); }
// @h h_mul_i8 reach=done
HARNESS h_mul_i8() { muli<int8_t>(); }
// @h h_mul_ci reach=done
HARNESS h_mul_ci() { muli<std::complex<int>>(); }
// @h h_mul_d mode=real reach=done shards=2
HARNESS h_mul_d() { mul<double>(); }
// @h h_mul_cd mode=real reach=done shards=4
HARNESS h_mul_cd() { mul<std::complex<double>>(); }
// @h h_self reach=done
HARNESS h_self() { size_t n = (size_t)CHOICE("n", 1, MX + 2); auto x = symref<int>("x", n, n); auto a = mk(x); auto z = susa::matmul(a, a); Ref<int> e(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t l = 0; l < n; l++) e.at(i, j) += x.at(i, l) * x.at(l, j); eq(z, e, "square"); a = susa::matmul(a, a); eq(a, e, "a = matmul(a, a)"); REACH("done"); }
template <class T> static void tr() { size_t r, c; shapeL("r", "c", r, c, TR); auto x = symref<T>("x", r, c); auto a = mk(x); BEFORE(susa::transpose(fixed<T>(r, c)); susa::transpose(fixed<T>(c, r + 1))); auto t = susa::transpose(a); Ref<T> e(c, r); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) e.at(j, i) = x.at(i, j); eq(t, e, "transpose"); eq(a, x, "argument unchanged"); eq(susa::transpose(t), x, "transpose twice"); a = susa::transpose(a); eq(a, e, "a = transpose(a)"); REACH("done"); }
template <class T> static void he() { size_t r, c; shapeL("r", "c", r, c, TR); auto x = symref<std::complex<T>>("x", r, c); auto a = mk(x); BEFORE(susa::hermitian(fixed<std::complex<T>>(r, c)); susa::transpose(fixed<std::complex<T>>(r, c, 1))); auto t = susa::hermitian(a); Ref<std::complex<T>> e(c, r); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) e.at(j, i) = std::complex<T>(x.at(i, j).real(), (T)-x.at(i, j).imag()); eq(t, e, "hermitian"); eq(a, x, "argument unchanged"); eq(susa::hermitian(t), x, "hermitian twice"); REACH("done"); }
// @h h_tr_int reach=done
HARNESS h_tr_int() { tr<int>(); }
// @h h_tr_cd reach=done
HARNESS h_tr_cd() { tr<std::complex<double>>(); }
// @h h_tr_i8 reach=done
HARNESS h_tr_i8() { tr<int8_t>(); }
// @h h_he_cd reach=done
HARNESS h_he_cd() { he<double>(); }
// @h h_he_cf reach=done
HARNESS h_he_cf() { he<float>(); }
// @h h_he_ci reach=done
HARNESS h_he_ci() { he<int>(); }
// refusals
template <class T> static matrix<T> opt(Ref<T> &x, const char *n, size_t r, size_t c) { matrix<T> m; if (r) { x = symref<T>(n, r, c); m = mk(x); } return m; }
// @h h_refuse reach=ok
HARNESS h_refuse() {
  static const int S[][2] = {{0, 0}, {1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {3, 3}}; int i = (int)CHOICE("s1", 0, 9), j = (int)CHOICE("s2", 0, 9); Ref<int> x, y; auto a = opt(x, "x", S[i][0], S[i][1]), b = opt(y, "y", S[j][0], S[j][1]);
  bool bad = i == 0 || j == 0 || S[i][1] != S[j][0]; matrix<int> z; MUST_ABORT_IF(bad, z = susa::matmul(a, b), "non-conforming operands must be refused"); CHECK(z.no_rows() == (size_t)S[i][0] && z.no_cols() == (size_t)S[j][1], "shape of the product"); REACH("ok");
}
// @h h_refuse_t
HARNESS h_refuse_t() { matrix<int> e; matrix<std::complex<double>> f; if (CHOICE("h", 0, 1)) { MUST_ABORT_IF(true, susa::hermitian(f), "the Hermitian transpose of an empty matrix must be refused"); } else { MUST_ABORT_IF(true, susa::transpose(e), "the transpose of an empty matrix must be refused"); } }
