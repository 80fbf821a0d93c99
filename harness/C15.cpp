// @bounds the same object as several operands (2..5 elements), filter: b with 1..3 and a with 1..3 coefficients (rows and columns), inputs up to length 4 (vectors, scalars) and 3x2/2x3 (matrices), tail 0..3; convolution of all shape pairs up to 4 elements (thorough: coefficients 1..4, inputs up to 6, tail 0..5); sixteen filter configurations with up to 33 coefficients, 140 samples, 7 columns and tail 40, convolution of vectors up to 130 elements (2x6, 2x33, 16x16, 35x34, 3x130, ...) and of matrices up to 9x2 / 2x8 with vectors up to 12; symbolic 32-bit ring elements, and complex samples with real coefficients in exact arithmetic
#define SYM_CAP 160
#include "sym.h"
#ifdef THOROUGH
#define NC 4
#define NX 6
#define NT 5
#define CV 6
#else
#define NC 3
#define NX 4
#define NT 3
#define CV 4
#endif
using susa::matrix;
// pick a shape: row, column or (m) matrix with n elements per line
// long operands
template <class T, class TT> static Ref<T> oracle(const Ref<TT> &b, const Ref<TT> &a, const Ref<T> &x, size_t tail);
static void pick(const char *k, const char *n, const char *m, int nx, bool mat, size_t &r, size_t &c) {
  int kind = (int)CHOICE(k, 0, mat ? 2 : 1); size_t len = (size_t)CHOICE(n, 1, nx);
  if (kind == 0) { r = 1; c = len; } else if (kind == 1) { ASSUME(len > 1); r = len; c = 1; } else { ASSUME(len > 1); r = len; c = (size_t)CHOICE(m, 2, 3); }
}
template <class T, class TT> static Ref<T> oracle(const Ref<TT> &b, const Ref<TT> &a, const Ref<T> &x, size_t tail) {
  bool row = x.r == 1 && x.c > 1; size_t n = row ? x.c : x.r, cols = row ? 1 : x.c, m = n + tail; Ref<T> y(row ? 1 : m, row ? m : cols);
  for (size_t j = 0; j < cols; j++) for (size_t i = 0; i < m; i++) {
    T v = T(0); for (size_t k = 0; k < b.n() && k <= i; k++) if (i - k < n) v += x.a[j * n + i - k] * b.a[k];
    for (size_t k = 1; k < a.n() && k <= i; k++) v -= y.a[j * m + i - k] * a.a[k]; y.a[j * m + i] = v;
  }
  return y;
}
template <class T, class TT> static void filt(int nc, int nx, int nt) {
  size_t r, c; pick("kind", "n", "m", nx, true, r, c); size_t nb = (size_t)CHOICE("nb", 1, nc), na = (size_t)CHOICE("na", 1, nc), tail = (size_t)CHOICE("tail", 0, nt); bool col = CHOICE("col", 0, 1);
  auto b = col ? symref<TT>("b", nb, 1) : symref<TT>("b", 1, nb); auto a = col ? symref<TT>("a", na, 1) : symref<TT>("a", 1, na); a.a[0] = TT(1); auto x = symref<T>("x", r, c);
  auto mb = mk(b); auto ma = mk(a); auto mx = mk(x); BEFORE(auto ua = fixed<TT>(na, 1); ua(0) = TT(1); susa::filter(fixed<TT>(nb, 1), ua, fixed<T>(r, c), tail); susa::filter(fixed<TT>(nb + 1, 1), ua, fixed<T>(1, r * c + 2), tail)); auto y = susa::filter(mb, ma, mx, tail); eq(y, oracle(b, a, x, tail), "filter: difference equation");
  if (tail == 0) eq(susa::filter(mb, ma, mx), oracle(b, a, x, 0), "filter: default tail"); eq(mb, b, "b unchanged"); eq(ma, a, "a unchanged"); eq(mx, x, "x unchanged"); REACH("done");
}
// @h h_filter reach=done shards=8
HARNESS h_filter() { filt<int, int>(NC, NX, NT); }
// longer inputs, more coefficients: n, columns, b, a, tail
// @h h_filter_l reach=done shards=4
HARNESS h_filter_l() {
  static const int S[][5] = {{12, 1, 5, 1, 0}, {12, 1, 2, 1, 7}, {3, 1, 7, 1, 5}, {3, 1, 1, 6, 4}, {9, 1, 4, 4, 3}, {2, 1, 9, 9, 8}, {7, 3, 3, 2, 2}, {5, 5, 2, 4, 1}, {20, 1, 3, 1, 4}, {6, 4, 6, 1, 0}, {1, 1, 5, 5, 9}, {2, 7, 4, 3, 3}, {70, 1, 3, 2, 3}, {140, 1, 2, 1, 0}, {4, 1, 33, 1, 30}, {10, 1, 2, 2, 40}}; const int *q = S[CHOICE("S", 0, 15)]; bool row = q[1] == 1 && CHOICE("row", 0, 1), col = CHOICE("col", 0, 1);
  size_t n = (size_t)q[0], m = (size_t)q[1]; auto x = row ? symref<int>("x", 1, n) : symref<int>("x", n, m); auto b = col ? symref<int>("b", q[2], 1) : symref<int>("b", 1, q[2]); auto a = col ? symref<int>("a", q[3], 1) : symref<int>("a", 1, q[3]); a.a[0] = 1; if (q[3] > 4) for (int i = 1; i < q[3]; i++) a.a[i] = i == q[3] - 1 ? a.a[i] : i;
  auto mb = mk(b), ma = mk(a), mx = mk(x); eq(susa::filter(mb, ma, mx, (size_t)q[4]), oracle(b, a, x, (size_t)q[4]), "filter: difference equation"); eq(mb, b, "b unchanged"); eq(ma, a, "a unchanged"); eq(mx, x, "x unchanged"); REACH("done");
}
// @h h_filter_c mode=real reach=done shards=4
HARNESS h_filter_c() { filt<std::complex<double>, double>(2, NX - 1, 1); }
template <class T> static void cv(int n, int m, bool mats) {
  size_t r1, c1, r2, c2; pick("k1", "n1", "m1", n, mats, r1, c1); pick("k2", "n2", "m2", m, false, r2, c2); bool swap = r1 > 1 && c1 > 1 && CHOICE("swap", 0, 1);
  auto x = symref<T>("x", r1, c1), y = symref<T>("y", r2, c2); auto mx = mk(x), my = mk(y); BEFORE(susa::conv(fixed<T>(r1, c1), fixed<T>(r2, c2)); susa::conv(fixed<T>(1, r1 * c1 + 1), fixed<T>(r2 * c2, 1, 1))); auto z = swap ? susa::conv(my, mx) : susa::conv(mx, my); eq(mx, x, "argument unchanged"); eq(my, y, "argument unchanged");
  if (y.n() == 1) { Ref<T> w(r1, c1); for (size_t i = 0; i < x.n(); i++) w.a[i] = x.a[i] * y.a[0]; eq(z, w, "scalar operand"); REACH("scalar"); return; }
  if (x.n() == 1) { Ref<T> w(r2, c2); for (size_t i = 0; i < y.n(); i++) w.a[i] = y.a[i] * x.a[0]; eq(z, w, "scalar operand"); return; }
  if (r1 > 1 && c1 > 1) { Ref<T> w(r1 + y.n() - 1, c1); for (size_t j = 0; j < c1; j++) for (size_t i = 0; i < r1; i++) for (size_t k = 0; k < y.n(); k++) w.at(i + k, j) += x.at(i, j) * y.a[k]; eq(z, w, "column by column"); REACH("matrix"); return; }
  size_t n1 = x.n(), n2 = y.n(); Ref<T> w(n1 + n2 - 1, 1); for (size_t i = 0; i < n1; i++) for (size_t k = 0; k < n2; k++) w.a[i + k] += x.a[i] * y.a[k];
  CHECK(z.size() == n1 + n2 - 1 && (z.no_rows() == 1 || z.no_cols() == 1), "length a + length b - 1"); for (size_t i = 0; i < n1 + n2 - 1; i++) CHECK(same(z(i), w.a[i]), "polynomial product");
  auto v = susa::conv(my, mx); CHECK(v.size() == n1 + n2 - 1, "commutative: length"); for (size_t i = 0; i < n1 + n2 - 1; i++) CHECK(same(v(i), z(i)), "commutative"); REACH("vector");
}
// @h h_conv reach=scalar,matrix,vector shards=8
HARNESS h_conv() { cv<int>(CV, CV, true); }
// @h h_conv_l reach=done
HARNESS h_conv_l() { // longer vectors
  static const int S[][2] = {{2, 6}, {6, 2}, {2, 12}, {12, 2}, {5, 9}, {9, 5}, {3, 17}, {17, 3}, {8, 8}, {16, 16}, {2, 33}, {33, 2}, {130, 3}, {3, 130}, {35, 34}}; const int *q = S[CHOICE("S", 0, 14)]; size_t n1 = (size_t)q[0], n2 = (size_t)q[1]; auto x = CHOICE("row1", 0, 1) ? symref<int>("x", 1, n1) : symref<int>("x", n1, 1); auto y = CHOICE("row2", 0, 1) ? symref<int>("y", 1, n2) : symref<int>("y", n2, 1); auto mx = mk(x), my = mk(y);
  Ref<int> w(n1 + n2 - 1, 1); for (size_t i = 0; i < n1; i++) for (size_t k = 0; k < n2; k++) w.a[i + k] += x.a[i] * y.a[k]; auto z = susa::conv(mx, my); CHECK(z.size() == n1 + n2 - 1 && (z.no_rows() == 1 || z.no_cols() == 1), "length a + length b - 1"); for (size_t i = 0; i < n1 + n2 - 1; i++) CHECK(z(i) == w.a[i], "polynomial product"); eq(mx, x, "argument unchanged"); eq(my, y, "argument unchanged"); REACH("done");
}
// @h h_conv_m reach=done
HARNESS h_conv_m() { // wider and taller matrices with a vector
  static const int S[][3] = {{4, 5, 6}, {7, 3, 2}, {2, 8, 3}, {5, 4, 9}, {3, 2, 12}, {9, 2, 4}}; const int *q = S[CHOICE("S", 0, 5)]; size_t r = (size_t)q[0], c = (size_t)q[1], n = (size_t)q[2]; auto x = symref<int>("x", r, c); auto y = CHOICE("row", 0, 1) ? symref<int>("y", 1, n) : symref<int>("y", n, 1); auto mx = mk(x), my = mk(y); auto z = CHOICE("swap", 0, 1) ? susa::conv(my, mx) : susa::conv(mx, my);
  Ref<int> w(r + n - 1, c); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) for (size_t k = 0; k < n; k++) w.at(i + k, j) += x.at(i, j) * y.a[k]; eq(z, w, "column by column"); REACH("done");
}
// @h h_conv_c mode=real reach=scalar,matrix,vector shards=4
HARNESS h_conv_c() { cv<std::complex<double>>(3, 3, true); }
// the same object as several operands, and results assigned over an operand
// @h h_self reach=done
HARNESS h_self() {
  size_t n = (size_t)CHOICE("n", 2, 5); bool row = CHOICE("row", 0, 1); auto x = row ? symref<int>("x", 1, n) : symref<int>("x", n, 1); auto m = mk(x); int w = (int)CHOICE("what", 0, 3); Ref<int> z(2 * n - 1, 1); for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) z.a[i + k] += x.a[i] * x.a[k];
  if (w < 2) { matrix<int> y; if (w) { y = m; y = susa::conv(y, y); } else y = susa::conv(m, m); CHECK(y.size() == 2 * n - 1, "length"); bool ok = true; for (size_t i = 0; i < 2 * n - 1; i++) ok = ok & (y(i) == z.a[i]); CHECK(ok, "convolved with itself"); }
  else { Ref<int> one(1, 1); one.a[0] = 1; auto o = mk(one); if (w == 2) eq(susa::filter(m, o, m, 1), oracle(x, one, x, 1), "filtered by itself"); else { x.a[0] = 1; m(0) = 1; eq(susa::filter(m, m, m, 2), oracle(x, x, x, 2), "all three operands the same"); } } eq(m, x, "unchanged"); REACH("done");
}
