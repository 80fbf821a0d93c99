// @bounds shapes up to 3x3 (quick) / 5x5 (thorough) and seventeen larger shapes of up to 600 elements (1x9, 2x17, 8x8, 16x17, 257x1, ...), operands concatenated with themselves and results assigned over operands, concatenation of all pairs of shapes up to 3x3 and twelve larger pairs (6x5 with 6x5, 1x33 with 1x17, ...), identity up to 6x6 / 12x12 and of 16, 17, 31, 33, 64, 66, 130, 300; ten long pairs of up to 1320 elements (130x1 with 129x1, 1x2 with 1x260, 40x33 with 2x33, ...), symbolic elements
#define SYM_CAP 640
#include "sym.h"
#ifdef THOROUGH
#define MX 5
#define EY 12
#else
#define MX 3
#define EY 6
#endif
using susa::matrix;
// @h h_eye reach=done
HARNESS h_eye() {
  size_t n = (size_t)CHOICE("n", 1, EY); BEFORE(susa::eye<int>(n + 1); auto q = susa::eye<int>(n); q(0, n - 1) = 5); auto m = susa::eye<int>(n); auto d = susa::eye<double>(n);
  CHECK(m.no_rows() == n && m.no_cols() == n && d.no_rows() == n && d.no_cols() == n, "identity: shape");
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { CHECK(m(i, j) == (i == j ? 1 : 0), "identity: value"); CHECK(d(i, j) == (i == j ? 1.0 : 0.0), "identity: value (double)"); }
  REACH("done");
}
template <class T> static void flips() {
  size_t r, c; shapeL("r", "c", r, c, MX); auto x = symref<T>("x", r, c); auto m = mk(x); bool vec = r == 1 || c == 1; size_t n = r * c;
  BEFORE(susa::fliplr(fixed<T>(r, c)); susa::flipud(fixed<T>(r, c, 1)); susa::flipud(fixed<T>(c, r + 1))); auto y = susa::fliplr(m), z = susa::flipud(m); eq(m, x, "flip: argument unchanged");
  Ref<T> ly(r, c), lz(r, c);
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { ly.at(i, j) = vec ? x.a[n - 1 - (i + j * r)] : x.at(i, c - 1 - j); lz.at(i, j) = vec ? x.a[n - 1 - (i + j * r)] : x.at(r - 1 - i, j); }
  eq(y, ly, "fliplr"); eq(z, lz, "flipud"); eq(susa::fliplr(y), x, "fliplr twice"); eq(susa::flipud(z), x, "flipud twice"); REACH("done");
}
// @h h_flip reach=done
HARNESS h_flip() { flips<int>(); }
// @h h_flip_cd reach=done
HARNESS h_flip_cd() { flips<std::complex<double>>(); }
// all pairs of shapes up to 3x3 and some larger ones
static void pairs(size_t &r1, size_t &c1, size_t &r2, size_t &c2) {
  static const int big[][4] = {{4, 4, 4, 4}, {5, 2, 3, 2}, {2, 5, 2, 3}, {1, 9, 1, 4}, {9, 1, 4, 1}, {7, 3, 1, 3}, {3, 7, 3, 1}, {6, 5, 6, 5}, {2, 4, 3, 5}, {4, 2, 1, 2}, {1, 33, 1, 17}, {17, 1, 33, 1}}; int q = (int)CHOICE("r1", 0, 81 + 11);
  if (q < 81) { r1 = (size_t)(q % 3 + 1); c1 = (size_t)(q / 3 % 3 + 1); r2 = (size_t)(q / 9 % 3 + 1); c2 = (size_t)(q / 27 + 1); } else { const int *b = big[q - 81]; r1 = (size_t)b[0]; c1 = (size_t)b[1]; r2 = (size_t)b[2]; c2 = (size_t)b[3]; }
}
template <class T> static void cat() {
  size_t r1, c1, r2, c2; pairs(r1, c1, r2, c2); auto x = symref<T>("x", r1, c1), y = symref<T>("y", r2, c2); auto a = mk(x), b = mk(y); BEFORE(susa::concat(fixed<T>(r1, c1), fixed<T>(r1, c1, 1)); susa::concat(fixed<T>(r1, c1), fixed<T>(r1, c1 + 1))); matrix<T> m;
  MAY_ABORT_IF(r1 != r2 && c1 != c2, m = susa::concat(a, b)); // without a common side: any refusal, but no stray access
  eq(a, x, "concat: left operand unchanged"); eq(b, y, "concat: right operand unchanged");
  if (c1 == c2) { Ref<T> z(r1 + r2, c1); for (size_t j = 0; j < c1; j++) { for (size_t i = 0; i < r1; i++) z.at(i, j) = x.at(i, j); for (size_t i = 0; i < r2; i++) z.at(r1 + i, j) = y.at(i, j); } eq(m, z, "concat below"); REACH("below"); }
  else if (r1 == r2) { Ref<T> z(r1, c1 + c2); for (size_t i = 0; i < r1; i++) { for (size_t j = 0; j < c1; j++) z.at(i, j) = x.at(i, j); for (size_t j = 0; j < c2; j++) z.at(i, c1 + j) = y.at(i, j); } eq(m, z, "concat right"); REACH("right"); }
}
// @h h_concat reach=below,right shards=4
HARNESS h_concat() { cat<int>(); }
// @h h_concat_cd reach=below,right shards=4 tier=thorough
HARNESS h_concat_cd() { cat<std::complex<double>>(); }
// larger identities
// @h h_eye_big reach=done
HARNESS h_eye_big() {
  static const int N[] = {16, 17, 31, 33, 64, 66, 130, 300}; size_t n = (size_t)N[CHOICE("n", 0, 7)]; auto m = susa::eye<int>(n); CHECK(m.no_rows() == n && m.no_cols() == n, "identity shape"); bool ok = true; for (size_t j = 0; j < n; j++) for (size_t i = 0; i < n; i++) ok = ok & (m(i, j) == (i == j)); CHECK(ok, "ones exactly on the diagonal"); REACH("done");
}
// long operands: concatenation and flips
// @h h_long reach=done shards=4
HARNESS h_long() {
  static const int S[][4] = {{130, 1, 129, 1}, {1, 129, 1, 130}, {260, 1, 3, 1}, {1, 2, 1, 260}, {66, 2, 67, 2}, {2, 65, 2, 70}, {40, 33, 2, 33}, {33, 40, 33, 1}, {2, 300, 3, 300}, {300, 2, 300, 3}}; const int *q = S[CHOICE("S", 0, 9)];
  auto x = symref<int, 1400>("x", q[0], q[1]); auto y = symref<int, 1400>("y", q[2], q[3]); auto a = mk(x), b = mk(y); auto m = susa::concat(a, b); size_t r = q[1] == q[3] ? q[0] + q[2] : q[0], c = q[1] == q[3] ? q[1] : q[1] + q[3]; if (q[1] == q[3] && q[0] == q[2]) r = q[0] + q[2];
  CHECK(m.no_rows() == r && m.no_cols() == c, "shape of the concatenation"); bool ok = true; bool vert = q[1] == q[3];
  for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) ok = ok & (m(i, j) == (vert ? (i < (size_t)q[0] ? x.at(i, j) : y.at(i - q[0], j)) : (j < (size_t)q[1] ? x.at(i, j) : y.at(i, j - q[1])))); CHECK(ok, "every element keeps its value");
  auto f = susa::fliplr(a), g = susa::flipud(a); bool row = q[0] == 1, col = q[1] == 1; bool fl = true, gl = true; (void)row; (void)col;
  for (size_t j = 0; j < (size_t)q[1]; j++) for (size_t i = 0; i < (size_t)q[0]; i++) { size_t n = (size_t)q[0] * q[1], l = i + j * q[0]; bool vec = (q[0] == 1) | (q[1] == 1); fl = fl & (vec ? f(l) == x.a[n - 1 - l] : f(i, j) == x.at(i, q[1] - 1 - j)); gl = gl & (vec ? g(l) == x.a[n - 1 - l] : g(i, j) == x.at(q[0] - 1 - i, j)); }
  CHECK(fl, "flip left-right"); CHECK(gl, "flip up-down"); eq(a, x, "unchanged"); eq(b, y, "unchanged"); REACH("done");
}
// an operand concatenated with itself and with parts of itself; results assigned over their operands
// @h h_self reach=done shards=2
HARNESS h_self() {
  size_t r, c; shapeL("r", "c", r, c, MX); ASSUME(r * c <= 140); auto x = symref<int>("x", r, c); auto m = mk(x); int w = (int)CHOICE("what", 0, 3); if (w == 0) { auto y = susa::concat(m, m); Ref<int> z(2 * r, c); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < 2 * r; i++) z.at(i, j) = x.at(i % r, j); eq(y, z, "concat with itself"); eq(m, x, "unchanged"); }
  else if (w == 1) { m = susa::concat(m, m); Ref<int> z(2 * r, c); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < 2 * r; i++) z.at(i, j) = x.at(i % r, j); eq(m, z, "concat with itself, over itself"); }
  else if (w == 2) { m = susa::fliplr(m); m = susa::fliplr(m); eq(m, x, "flipped twice over itself"); } else { m = susa::flipud(m); m = susa::flipud(m); eq(m, x, "flipped twice over itself"); } REACH("done");
}
