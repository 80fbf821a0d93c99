// @bounds all shapes up to 3x3 (quick) / 5x5 (thorough) and fifteen larger ones of up to 272 elements (1x9, 2x17, 8x8, 16x17, 257x1, ...), row/column/length/position arguments: any 64-bit value (in the larger shapes: first, second, middle, last two and one past the end), symbolic elements; assertion-enabled and assertion-disabled builds
#define SYM_CAP 288
#include "sym.h"
#include <functional>
#ifdef THOROUGH
#define MX 5
#else
#define MX 3
#endif
using susa::matrix;
#ifdef SUSA_NASSERT
static const bool NA = true;
#else
static const bool NA = false;
#endif
#define REFUSE(BAD, E, M) do { if (NA) { E; } else MUST_ABORT_IF(BAD, E, M); } while (0)
template <class T> struct S { size_t r, c; Ref<T> x; matrix<T> m; S() { shapeL("r", "c", r, c, MX); x = symref<T>("x", r, c); m = mk(x); } bool big() const { return r > MX || c > MX; } };
template <class T> static void setrc(bool isrow) {
  S<T> s; size_t n; { size_t l = isrow ? s.c : s.r; n = s.big() ? l - 1 + (size_t)CHOICE("nb", 0, 2) : (size_t)CHOICE("n", 0, MX + 1); } bool colv = CHOICE("colv", 0, 1); size_t k = idx("k", isrow ? s.r : s.c, s.big()); Ref<T> y = n ? (colv ? symref<T>("y", n, 1) : symref<T>("y", 1, n)) : Ref<T>(); matrix<T> v; if (n) v = mk(y);
  size_t lim = isrow ? s.r : s.c, len = isrow ? s.c : s.r; bool bad = k >= lim || n < len, ret = false;
  REFUSE(bad, ret = isrow ? s.m.set_row(k, v) : s.m.set_col(k, v), "set_row/set_col that does not fit must abort");
  CHECK(ret == !bad, "set_row/set_col: result");
  for (size_t i = 0; i < s.r; i++) for (size_t j = 0; j < s.c; j++) { bool hit = !bad && (isrow ? i == k : j == k); CHECK(same(s.m(i, j), hit ? y.a[isrow ? j : i] : s.x.at(i, j)), "set_row/set_col: elements"); }
  if (n) eq(v, y, "the source is unchanged"); if (!bad) REACH("in"); REACH("done");
}
// @h h_set_row reach=in,done shards=2
HARNESS h_set_row() { setrc<int>(true); }
// @h h_set_col reach=in,done shards=2
HARNESS h_set_col() { setrc<int>(false); }
// @h h_set_row_na reach=in,done config=nassert shards=2
HARNESS h_set_row_na() { setrc<int>(true); }
// @h h_set_col_na reach=in,done config=nassert shards=2
HARNESS h_set_col_na() { setrc<int>(false); }
// a row of a matrix set from the matrix itself
// @h h_set_self reach=done
HARNESS h_set_self() { S<int> s; size_t k = (size_t)CHOICE("k", 0, (int)(s.r < 9 ? s.r : 9) - 1), l = (size_t)CHOICE("l", 0, (int)(s.r < 9 ? s.r : 9) - 1); s.m.set_row(k, s.m.row(l)); for (size_t i = 0; i < s.r; i++) for (size_t j = 0; j < s.c; j++) CHECK(s.m(i, j) == s.x.at(i == k ? l : i, j), "set_row(row)"); REACH("done"); }
template <class T> static void swaps(bool rows) {
  S<T> s; size_t lim = rows ? s.r : s.c, a = idx("a", lim, s.big()), b = idx("b", lim, s.big()); bool bad = a >= lim || b >= lim;
  REFUSE(bad, rows ? s.m.swap_rows(a, b) : s.m.swap_cols(a, b), "swap past the end must abort");
  for (size_t i = 0; i < s.r; i++) for (size_t j = 0; j < s.c; j++) { size_t q = rows ? i : j; T e = s.x.at(i, j); if (!bad) for (size_t p = 0; p < lim; p++) { T o = rows ? s.x.at(p, j) : s.x.at(i, p); if ((q == a && p == b) || (q == b && p == a)) e = o; } CHECK(same(s.m(i, j), e), "swap: elements"); }
  if (!bad) REACH("in"); REACH("done");
}
// @h h_swap_rows reach=in,done
HARNESS h_swap_rows() { swaps<int>(true); }
// @h h_swap_cols reach=in,done
HARNESS h_swap_cols() { swaps<int>(false); }
// @h h_swap_rows_na reach=in,done config=nassert
HARNESS h_swap_rows_na() { swaps<int>(true); }
// @h h_swap_cols_na reach=in,done config=nassert
HARNESS h_swap_cols_na() { swaps<int>(false); }
template <class T> static void rowcol(bool rows) {
  S<T> s; size_t lim = rows ? s.r : s.c, k = idx("k", lim, s.big()); bool bad = k >= lim; matrix<T> y;
  REFUSE(bad, y = rows ? s.m.row(k) : s.m.col(k), "row/col past the end must abort");
  eq(s.m, s.x, "row/col: matrix unchanged");
  if (bad) CHECK(y.size() == 0, "row/col past the end is refused");
  else { CHECK(y.no_rows() == (rows ? 1 : s.r) && y.no_cols() == (rows ? s.c : 1), "row/col: shape"); for (size_t q = 0; q < (rows ? s.c : s.r); q++) for (size_t p = 0; p < lim; p++) if (p == k) CHECK(same(y(q), rows ? s.x.at(p, q) : s.x.at(q, p)), "row/col: elements"); REACH("in"); }
  REACH("done");
}
// @h h_row reach=in,done
HARNESS h_row() { rowcol<int>(true); }
// @h h_col reach=in,done
HARNESS h_col() { rowcol<int>(false); }
// @h h_row_na reach=in,done config=nassert
HARNESS h_row_na() { rowcol<int>(true); }
// @h h_col_na reach=in,done config=nassert
HARNESS h_col_na() { rowcol<int>(false); }
// @h h_row_cd reach=in,done tier=thorough
HARNESS h_row_cd() { rowcol<std::complex<double>>(true); }
static void asvec(bool rows) {
  S<int> s; size_t lim = rows ? s.r : s.c, k = idx("k", lim, s.big()); bool bad = k >= lim; std::vector<int> y;
  REFUSE(bad, y = rows ? s.m.get_row_as_vec(k) : s.m.get_col_as_vec(k), "get_row/col_as_vec past the end must abort");
  eq(s.m, s.x, "get_*_as_vec: matrix unchanged");
  if (!bad) { CHECK(y.size() == (rows ? s.c : s.r), "get_*_as_vec: length"); for (size_t q = 0; q < y.size(); q++) for (size_t p = 0; p < lim; p++) if (p == k) CHECK(y[q] == (rows ? s.x.at(p, q) : s.x.at(q, p)), "get_*_as_vec: elements"); REACH("in"); }
  REACH("done");
}
// @h h_row_vec reach=in,done
HARNESS h_row_vec() { asvec(true); }
// @h h_col_vec reach=in,done
HARNESS h_col_vec() { asvec(false); }
// @h h_row_vec_na reach=in,done config=nassert
HARNESS h_row_vec_na() { asvec(true); }
static void shr() {
  S<int> s; size_t i = idx("i", s.r, s.big()), j = idx("j", s.c, s.big()); bool bad = s.r < 2 || s.c < 2 || i >= s.r || j >= s.c; matrix<int> y;
  REFUSE(bad, y = s.m.shrink(i, j), "shrink that does not fit must abort"); eq(s.m, s.x, "shrink: matrix unchanged");
  if (!bad) { CHECK(y.no_rows() == s.r - 1 && y.no_cols() == s.c - 1, "shrink: shape"); for (size_t p = 0; p + 1 < s.r; p++) for (size_t q = 0; q + 1 < s.c; q++) { int e = 0; for (size_t a = 0; a < s.r; a++) for (size_t b = 0; b < s.c; b++) if (a == (p >= i ? p + 1 : p) && b == (q >= j ? q + 1 : q)) e = s.x.at(a, b); CHECK(y(p, q) == e, "shrink: elements"); } REACH("in"); }
  REACH("done");
}
// @h h_shrink reach=in,done
HARNESS h_shrink() { shr(); }
// @h h_shrink_na reach=in,done config=nassert
HARNESS h_shrink_na() { shr(); }
static void resh() {
  S<int> s; size_t R, C; if (s.big()) { R = (size_t)CHOICE("Rb", 1, 33); C = s.r * s.c / R + (CHOICE("more", 0, 1) ? 1 : 0); ASSUME(C > 0 && R * C <= 128); } else { R = (size_t)CHOICE("R", 1, MX * MX); C = (size_t)CHOICE("C", 1, MX * MX); } bool bad = R * C != s.r * s.c; matrix<int> y;
  REFUSE(bad, y = s.m.reshape(R, C), "reshape to another number of elements must abort"); eq(s.m, s.x, "reshape: matrix unchanged");
  if (!bad) { CHECK(y.no_rows() == R && y.no_cols() == C && y.size() == s.r * s.c, "reshape: shape"); for (size_t q = 0; q < s.r * s.c; q++) CHECK(y(q) == s.x.a[q], "reshape: elements keep their linear order"); for (size_t a = 0; a < R; a++) for (size_t b = 0; b < C; b++) CHECK(y(a, b) == s.x.a[a + b * R], "reshape: column-major"); REACH("in"); } else CHECK(y.size() == 0, "reshape refused");
  REACH("done");
}
// @h h_reshape reach=in,done
HARNESS h_reshape() { resh(); }
// @h h_reshape_na reach=in,done config=nassert
HARNESS h_reshape_na() { resh(); }
// @h h_resize reach=done
HARNESS h_resize() {
  S<int> s; size_t R, C; shapeL("R", "C", R, C, MX + 1); bool ok = s.m.resize(R, C); CHECK(ok && s.m.no_rows() == R && s.m.no_cols() == C && s.m.size() == R * C, "resize: shape");
  auto y = symref<int>("y", R, C); for (size_t a = 0; a < R; a++) for (size_t b = 0; b < C; b++) s.m(a, b) = y.at(a, b); eq(s.m, y, "resize: usable storage"); if (R * C == s.r * s.c) REACH("same"); REACH("done");
}
template <class T> static void part(int which) {
  S<T> s; bool vec = s.m.is_vector(); size_t len = vec ? s.r * s.c : s.c; matrix<T> y; size_t a = 0, w = 0; bool bad;
  if (which < 2) { w = idx("n", len + 1, s.big()); ASSUME(w > 0); bad = w > len; REFUSE(bad, y = which ? s.m.right(w) : s.m.left(w), "left/right longer than the input must abort"); a = which ? len - w : 0; }
  else { a = idx("b", len, s.big()); size_t e = idx("e", len, s.big()); w = e - a + 1; bad = e < a || a >= len || e >= len; REFUSE(bad, y = s.m.mid(a, e), "mid outside the input must abort"); }
  eq(s.m, s.x, "left/right/mid: matrix unchanged");
  if (bad) { CHECK(y.size() == 0, "left/right/mid refused"); REACH("done"); return; }
  size_t W = __sym_concretize(w); a = __sym_concretize(a);
  bool colv = vec && s.c == 1; CHECK(y.no_rows() == (colv ? W : s.r) && y.no_cols() == (colv ? 1 : W), "left/right/mid: shape");
  for (size_t i = 0; i < (colv ? 1 : s.r); i++) for (size_t q = 0; q < W; q++) CHECK(same(colv ? y(q) : y(i, q), colv ? s.x.a[a + q] : s.x.at(i, a + q)), "left/right/mid: elements"); REACH("in"); REACH("done");
}
// @h h_left reach=in,done
HARNESS h_left() { part<int>(0); }
// @h h_right reach=in,done
HARNESS h_right() { part<int>(1); }
// @h h_mid reach=in,done shards=2
HARNESS h_mid() { part<int>(2); }
// @h h_left_na reach=in,done config=nassert
HARNESS h_left_na() { part<int>(0); }
// @h h_right_na reach=in,done config=nassert
HARNESS h_right_na() { part<int>(1); }
// @h h_mid_na reach=in,done config=nassert shards=2
HARNESS h_mid_na() { part<int>(2); }
// long vectors
// @h h_long reach=done
HARNESS h_long() {
  bool colv = CHOICE("colv", 0, 1); size_t n = 9; auto x = colv ? symref<int>("x", n, 1) : symref<int>("x", 1, n); auto m = mk(x); size_t k = (size_t)CHOICE("k", 1, 9), b = (size_t)CHOICE("b", 0, 8); ASSUME(b + k <= n);
  auto l = m.left(k), r = m.right(k), d = m.mid(b, b + k - 1); for (size_t q = 0; q < k; q++) CHECK(l(q) == x.a[q] && r(q) == x.a[n - k + q] && d(q) == x.a[b + q], "parts of a vector"); CHECK(l.size() == k && r.size() == k && d.size() == k, "length"); REACH("done");
}
// more than 256 rows or columns
static void eqx(const susa::matrix<int> &x, const Ref<int, 640> &m, const std::function<int(size_t, size_t)> &f, size_t r, size_t c, const char *msg) { bool ok = (x.no_rows() == r) & (x.no_cols() == c); CHECK(ok, msg); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) ok = ok & (x(i, j) == f(i, j)); CHECK(ok, msg); }
// @h h_far reach=done shards=8
HARNESS h_far() {
  bool tall = CHOICE("tall", 0, 1); int op = (int)CHOICE("op", 0, 8); size_t R = tall ? 300 : 2, C = tall ? 2 : 300; auto x = symref<int, 640>("x", R, C); auto m = mk(x); size_t k = 257 + 41 * (size_t)CHOICE("k", 0, 1), r = tall ? k : 1, c = tall ? 1 : k;
  typedef size_t Z; switch (op) {
  case 0: eqx(m.row(r), x, [&](Z, Z j) { return x.at(r, j); }, 1, C, "row"); eqx(m.col(c), x, [&](Z i, Z) { return x.at(i, c); }, R, 1, "column"); { auto a = m.get_row_as_vec(r), b = m.get_col_as_vec(c); bool ok = (a.size() == C) & (b.size() == R); CHECK(ok, "length"); for (Z j = 0; j < C; j++) ok = ok & (a[j] == x.at(r, j)); for (Z i = 0; i < R; i++) ok = ok & (b[i] == x.at(i, c)); CHECK(ok, "row and column as vectors"); } break;
  case 1: { auto y = symref<int, 640>("y", 1, C); m.set_row(r, mk(y)); eqx(m, x, [&](Z i, Z j) { return i == r ? y.a[j] : x.at(i, j); }, R, C, "set_row"); break; }
  case 2: { auto y = symref<int, 640>("y", R, 1); m.set_col(c, mk(y)); eqx(m, x, [&](Z i, Z j) { return j == c ? y.a[i] : x.at(i, j); }, R, C, "set_col"); break; }
  case 3: m.swap_rows(r, 0); eqx(m, x, [&](Z i, Z j) { return x.at(i == r ? 0 : i == 0 ? r : i, j); }, R, C, "swap_rows"); break;
  case 4: m.swap_cols(0, c); eqx(m, x, [&](Z i, Z j) { return x.at(i, j == c ? 0 : j == 0 ? c : j); }, R, C, "swap_cols"); break;
  case 5: eqx(m.shrink(r, c), x, [&](Z i, Z j) { return x.at(i + (i >= r), j + (j >= c)); }, R - 1, C - 1, "shrink"); break;
  case 6: eqx(m.reshape(C, R), x, [&](Z i, Z j) { return x.a[i + j * C]; }, C, R, "reshape"); eqx(m.reshape(600, 1), x, [&](Z i, Z) { return x.a[i]; }, 600, 1, "reshape"); eqx(m.reshape(1, 600), x, [&](Z, Z j) { return x.a[j]; }, 1, 600, "reshape"); break;
  case 7: if (!tall) { eqx(m.left(k), x, [&](Z i, Z j) { return x.at(i, j); }, R, k, "left"); eqx(m.right(k), x, [&](Z i, Z j) { return x.at(i, C - k + j); }, R, k, "right"); eqx(m.mid(1, k), x, [&](Z i, Z j) { return x.at(i, 1 + j); }, R, k, "mid"); eqx(m.mid(k, k + 1), x, [&](Z i, Z j) { return x.at(i, k + j); }, R, 2, "mid"); } break;
  default: { auto v = m.reshape(tall ? 600 : 1, tall ? 1 : 600); auto q = [&](const susa::matrix<int> &z, size_t o, size_t n, const char *msg) { eqx(z, x, [&](Z i, Z j) { return x.a[o + i + j]; }, tall ? n : 1, tall ? 1 : n, msg); }; q(v.left(k), 0, k, "left part of a vector"); q(v.right(k), 600 - k, k, "right part of a vector"); q(v.mid(k, 599), k, 600 - k, "middle of a vector"); q(v.mid(3, k), 3, k - 2, "middle of a vector"); }
  } REACH("done");
}
