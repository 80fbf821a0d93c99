// @bounds the same object as both operands, vectors up to 8 elements and 1..8 columns (convolution and Toeplitz matrices), all Kronecker operands up to 3x3 and fourteen larger pairs (up to 4x4 by 4x4, 1x35 by 33x1), twenty-six longer configurations (convolution matrices of vectors up to 70 elements, Toeplitz matrices up to 17x17, 70x3 and 3x70, Kronecker products up to 1155 elements, up- and downsampling of up to 260 samples by up to 130), upsampling of up to 6x5 by 1..8, downsampling of up to 11x5 by 1..8 (thorough: 10 elements, 4x4 operands, 12x5 by 1..10), eighteen configurations with a dimension beyond 128 or 256; symbolic 32-bit ring elements, Kronecker also complex in exact arithmetic
#define SYM_CAP 300
#include "sym.h"
#ifdef THOROUGH
#define NV 6
#define NK 4
#define NR 12
#define RU 6
#else
#define NV 4
#define NK 3
#define NR 6
#define RU 4
#endif
using susa::matrix;
// @h h_convmtx reach=row,col shards=4
HARNESS h_convmtx() {
  bool row = CHOICE("row", 0, 1); size_t n = (size_t)CHOICE("n", 2, NV + 4), l = (size_t)CHOICE("len", 1, NV + 4), m = n + l - 1; auto v = row ? symref<int>("v", 1, n) : symref<int>("v", n, 1); auto mv = mk(v); BEFORE(susa::convmtx(fixed<int>(row ? 1 : n, row ? n : 1), l); susa::convmtx(fixed<int>(1, n + 1), l + 1)); auto c = susa::convmtx(mv, l); eq(mv, v, "argument unchanged");
  auto x = row ? symref<int>("x", 1, l) : symref<int>("x", l, 1); auto mx = mk(x); Ref<int> w(row ? 1 : m, row ? m : 1); for (size_t i = 0; i < n; i++) for (size_t k = 0; k < l; k++) w.a[i + k] += v.a[i] * x.a[k];
  if (row) { CHECK(c.no_rows() == l && c.no_cols() == m, "shape"); eq(susa::matmul(mx, c), w, "product = convolution"); REACH("row"); } else { CHECK(c.no_rows() == m && c.no_cols() == l, "shape"); eq(susa::matmul(c, mx), w, "product = convolution"); REACH("col"); }
  auto d = susa::conv(mv, mx); CHECK(d.size() == m, "conv: length"); for (size_t i = 0; i < m; i++) CHECK(d(i) == w.a[i], "conv");
}
// @h h_toeplitz reach=done shards=4
HARNESS h_toeplitz() {
  size_t r = (size_t)CHOICE("r", 1, NV + 4), c = (size_t)CHOICE("c", 1, NV + 4); bool cr = CHOICE("colrow", 0, 1); auto x = cr ? symref<int>("x", 1, r) : symref<int>("x", r, 1); auto y = cr ? symref<int>("y", c, 1) : symref<int>("y", 1, c); auto mx = mk(x), my = mk(y); BEFORE(susa::toeplitz(fixed<int>(r, 1), fixed<int>(1, c)); susa::toeplitz(fixed<int>(r, 1, 1)));
  Ref<int> t(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) t.at(i, j) = j < i ? x.a[i - j] : y.a[j - i]; eq(susa::toeplitz(mx, my), t, "toeplitz(column, row)");
  Ref<int> s(r, r); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < r; j++) s.at(i, j) = x.a[i > j ? i - j : j - i]; eq(susa::toeplitz(mx), s, "toeplitz(column)"); eq(mx, x, "argument unchanged"); eq(my, y, "argument unchanged"); REACH("done");
}
template <class T> static void kr(int n) {
  size_t r1, c1, r2, c2; shape("r1", "c1", r1, c1, 1, n); shape("r2", "c2", r2, c2, 1, n); auto x = symref<T>("x", r1, c1), y = symref<T>("y", r2, c2); auto mx = mk(x), my = mk(y); BEFORE(susa::kron(fixed<T>(r1, c1), fixed<T>(r2, c2)); susa::kron(fixed<T>(c2, r1), fixed<T>(r2, c1))); auto k = susa::kron(mx, my);
  Ref<T, 520> t(r1 * r2, c1 * c2); for (size_t i = 0; i < r1; i++) for (size_t j = 0; j < c1; j++) for (size_t p = 0; p < r2; p++) for (size_t q = 0; q < c2; q++) t.at(i * r2 + p, j * c2 + q) = x.at(i, j) * y.at(p, q);
  eq(k, t, "block (i,j) is a(i,j) * b"); eq(mx, x, "argument unchanged"); eq(my, y, "argument unchanged"); REACH("done");
}
// @h h_kron_l reach=done
HARNESS h_kron_l() { // longer operands
  static const int S[][4] = {{1, 9, 2, 2}, {9, 1, 2, 3}, {2, 2, 1, 9}, {2, 5, 4, 1}, {5, 2, 3, 4}, {4, 4, 4, 4}, {1, 5, 5, 1}, {6, 1, 1, 6}, {4, 1, 7, 2}, {1, 17, 1, 3}, {1, 35, 33, 1}, {7, 5, 3, 9}, {130, 1, 1, 3}, {2, 2, 9, 17}}; const int *q = S[CHOICE("S", 0, 13)]; size_t r1 = q[0], c1 = q[1], r2 = q[2], c2 = q[3]; auto x = symref<int>("x", r1, c1), y = symref<int>("y", r2, c2); auto k = susa::kron(mk(x), mk(y));
  Ref<int, 1200> t(r1 * r2, c1 * c2); for (size_t i = 0; i < r1; i++) for (size_t j = 0; j < c1; j++) for (size_t p = 0; p < r2; p++) for (size_t q = 0; q < c2; q++) t.at(i * r2 + p, j * c2 + q) = x.at(i, j) * y.at(p, q); eq(k, t, "block (i,j) is a(i,j) * b"); REACH("done");
}
// @h h_kron reach=done shards=8
HARNESS h_kron() { kr<int>(NK); }
// @h h_kron_c mode=real reach=done shards=2
HARNESS h_kron_c() { kr<std::complex<double>>(2); }
// @h h_up reach=done shards=4
HARNESS h_up() {
  size_t r = (size_t)CHOICE("r", 1, NR), c = (size_t)CHOICE("c", 1, 5), u = (size_t)CHOICE("u", 1, RU + 4); ASSUME(r * u <= 24); auto x = symref<int>("x", r, c); auto mx = mk(x); BEFORE(susa::upsample(fixed<int>(r, c), u); susa::downsample(fixed<int>(r * u, c), u)); auto m = susa::upsample(mx, u); Ref<int> t(r * u, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) t.at(i * u, j) = x.at(i, j);
  eq(m, t, "upsampled"); eq(susa::downsample(m, u), x, "downsampling undoes upsampling"); eq(mx, x, "argument unchanged"); REACH("done");
}
// @h h_down reach=done shards=4
HARNESS h_down() {
  size_t r = (size_t)CHOICE("r", 1, NR + 5), c = (size_t)CHOICE("c", 1, 5), d = (size_t)CHOICE("d", 1, RU + 4); ASSUME(r >= d); auto x = symref<int, 96>("x", r, c); auto mx = mk(x); auto m = susa::downsample(mx, d); Ref<int, 96> t(r / d, c); for (size_t i = 0; i < r / d; i++) for (size_t j = 0; j < c; j++) t.at(i, j) = x.at(i * d, j); eq(m, t, "downsampled"); eq(mx, x, "argument unchanged"); REACH("done");
}
// longer operands
// @h h_long reach=done shards=4
HARNESS h_long() {
  int w = (int)CHOICE("what", 0, 4);
  if (w == 0) { static const int S[][2] = {{20, 12}, {12, 20}, {33, 2}, {2, 33}, {70, 3}, {3, 70}}; const int *q = S[CHOICE("S", 0, 5)]; bool row = CHOICE("row", 0, 1); size_t n = (size_t)q[0], l = (size_t)q[1], m = n + l - 1; auto v = row ? symref<int>("v", 1, n) : symref<int>("v", n, 1); auto mv = mk(v); auto c = susa::convmtx(mv, l); eq(mv, v, "argument unchanged");
    CHECK(c.no_rows() == (row ? l : m) && c.no_cols() == (row ? m : l), "shape"); for (size_t j = 0; j < l; j++) for (size_t i = 0; i < m; i++) { int e = i >= j && i - j < n ? v.a[i - j] : 0; CHECK((row ? c(j, i) : c(i, j)) == e, "shifted copies of the vector"); } }
  else if (w == 1) { static const int S[][2] = {{20, 12}, {12, 20}, {33, 2}, {2, 33}, {70, 3}, {3, 70}, {17, 17}}; const int *q = S[CHOICE("S", 0, 6)]; size_t r = (size_t)q[0], c = (size_t)q[1]; auto x = symref<int>("x", r, 1), y = symref<int>("y", 1, c); auto mx = mk(x), my = mk(y); Ref<int> t(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) t.at(i, j) = j < i ? x.a[i - j] : y.a[j - i]; eq(susa::toeplitz(mx, my), t, "toeplitz(column, row)"); }
  else if (w == 2) { static const int L[] = {9, 12, 17}; size_t r = (size_t)L[CHOICE("L", 0, 2)]; auto x = symref<int>("x", r, 1); auto mx = mk(x); Ref<int> s(r, r); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < r; j++) s.at(i, j) = x.a[i > j ? i - j : j - i]; eq(susa::toeplitz(mx), s, "toeplitz(column)"); }
  else if (w == 3) { static const int S[][3] = {{17, 1, 16}, {2, 9, 13}, {5, 3, 17}, {33, 2, 4}, {1, 2, 130}, {130, 1, 2}}; const int *q = S[CHOICE("S", 0, 5)]; size_t r = (size_t)q[0], c = (size_t)q[1], u = (size_t)q[2]; auto x = symref<int>("x", r, c); auto mx = mk(x); auto m = susa::upsample(mx, u); Ref<int> t(r * u, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) t.at(i * u, j) = x.at(i, j); eq(m, t, "upsampled"); eq(susa::downsample(m, u), x, "downsampling undoes upsampling"); eq(mx, x, "argument unchanged"); }
  else { static const int S[][3] = {{17, 2, 16}, {33, 3, 2}, {130, 2, 9}, {67, 4, 13}, {20, 9, 7}, {260, 1, 129}}; const int *q = S[CHOICE("S", 0, 5)]; size_t r = (size_t)q[0], c = (size_t)q[1], d = (size_t)q[2]; auto x = symref<int>("x", r, c); auto mx = mk(x); auto m = susa::downsample(mx, d); Ref<int> t(r / d, c); for (size_t i = 0; i < r / d; i++) for (size_t j = 0; j < c; j++) t.at(i, j) = x.at(i * d, j); eq(m, t, "downsampled"); eq(mx, x, "argument unchanged"); }
  REACH("done");
}
// indices beyond 7 and 8 bits
// @h h_wide reach=done shards=4
HARNESS h_wide() {
  int w = (int)CHOICE("what", 0, 4); bool ok = true;
  if (w == 0) { static const int S[][2] = {{130, 140}, {140, 130}, {260, 3}, {3, 260}}; const int *q = S[CHOICE("S", 0, 3)]; size_t r = (size_t)q[0], c = (size_t)q[1]; auto x = symref<int, 300>("x", r, 1), y = symref<int, 300>("y", 1, c); auto m = susa::toeplitz(mk(x), mk(y)); CHECK(m.no_rows() == r && m.no_cols() == c, "shape"); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) ok = ok & (m(i, j) == (j < i ? x.a[i - j] : y.a[j - i])); CHECK(ok, "toeplitz(column, row)"); }
  else if (w == 1) { static const int L[] = {33, 66, 130}; size_t r = (size_t)L[CHOICE("L", 0, 2)]; auto x = symref<int>("x", r, 1); auto m = susa::toeplitz(mk(x)); CHECK(m.no_rows() == r && m.no_cols() == r, "shape"); for (size_t j = 0; j < r; j++) for (size_t i = 0; i < r; i++) ok = ok & (m(i, j) == x.a[i > j ? i - j : j - i]); CHECK(ok, "toeplitz(column)"); }
  else if (w == 2) { static const int S[][2] = {{130, 66}, {66, 130}, {260, 2}, {2, 260}}; const int *q = S[CHOICE("S", 0, 3)]; bool row = CHOICE("row", 0, 1); size_t n = (size_t)q[0], l = (size_t)q[1], m = n + l - 1; auto v = row ? symref<int>("v", 1, n) : symref<int>("v", n, 1); auto c = susa::convmtx(mk(v), l); CHECK(c.no_rows() == (row ? l : m) && c.no_cols() == (row ? m : l), "shape"); for (size_t j = 0; j < l; j++) for (size_t i = 0; i < m; i++) ok = ok & ((row ? c(j, i) : c(i, j)) == (i >= j && i - j < n ? v.a[i - j] : 0)); CHECK(ok, "shifted copies of the vector"); }
  else if (w == 3) { static const int S[][4] = {{1, 130, 1, 3}, {130, 1, 2, 1}, {2, 1, 1, 130}, {12, 11, 3, 2}, {3, 2, 12, 11}, {257, 1, 1, 2}}; const int *q = S[CHOICE("S", 0, 5)]; auto x = symref<int>("x", q[0], q[1]), y = symref<int>("y", q[2], q[3]); auto m = susa::kron(mk(x), mk(y)); size_t r = (size_t)q[0] * q[2], c = (size_t)q[1] * q[3]; CHECK(m.no_rows() == r && m.no_cols() == c, "shape"); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) ok = ok & (m(i, j) == x.at(i / q[2], j / q[3]) * y.at(i % q[2], j % q[3])); CHECK(ok, "blocks"); }
  else { static const int S[][3] = {{2, 130, 3}, {2, 3, 260}, {130, 2, 3}, {260, 1, 2}}; const int *q = S[CHOICE("S", 0, 3)]; size_t r = (size_t)q[0], c = (size_t)q[1], u = (size_t)q[2]; auto x = symref<int>("x", r, c); auto m = susa::upsample(mk(x), u); CHECK(m.no_rows() == r * u && m.no_cols() == c, "shape"); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r * u; i++) ok = ok & (m(i, j) == (i % u ? 0 : x.at(i / u, j))); CHECK(ok, "upsampled"); auto d = susa::downsample(m, u); CHECK(d.no_rows() == r && d.no_cols() == c, "shape"); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) ok = ok & (d(i, j) == x.at(i, j)); CHECK(ok, "downsampled"); }
  REACH("done");
}
// the same object as both operands
// @h h_self reach=done
HARNESS h_self() {
  int w = (int)CHOICE("what", 0, 2); if (w == 0) { size_t r, c; shape("r", "c", r, c, 1, 3); auto x = symref<int>("x", r, c); auto m = mk(x); Ref<int> t(r * r, c * c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) for (size_t p = 0; p < r; p++) for (size_t q = 0; q < c; q++) t.at(i * r + p, j * c + q) = x.at(i, j) * x.at(p, q); eq(susa::kron(m, m), t, "Kronecker square"); eq(m, x, "unchanged"); m = susa::kron(m, m); eq(m, t, "over its operand"); }
  else if (w == 1) { size_t n = (size_t)CHOICE("n", 2, 5); auto x = symref<int>("x", n, 1); auto m = mk(x); Ref<int> t(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) t.at(i, j) = x.a[i > j ? i - j : j - i]; eq(susa::toeplitz(m, m), t, "toeplitz(v, v)"); eq(m, x, "unchanged"); m = susa::toeplitz(m); eq(m, t, "over its operand"); }
  else { size_t r = (size_t)CHOICE("r", 1, 4), u = (size_t)CHOICE("u", 1, 3); auto x = symref<int>("x", r, 2); auto m = mk(x); m = susa::upsample(m, u); m = susa::downsample(m, u); eq(m, x, "up and down over itself"); } REACH("done");
}
