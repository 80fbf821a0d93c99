// @bounds shapes 1..4 x 1..4 (quick) / 1..6 x 1..6 (thorough) and fifteen larger shapes of up to 272 elements (1x9, 2x17, 8x8, 16x17, 257x1, ...), for shapes up to 3x3 every 64-bit row, column and linear index symbolic (in larger shapes first, second, middle, last two, one past the end), element values symbolic (32-bit int, 8-bit, double, complex<double>); six matrices of up to 78000 elements with one dimension up to 66000 (eight symbolic elements); both build configurations
#define SYM_CAP 288
#include "sym.h"
#ifdef THOROUGH
#define MX 6
#else
#define MX 4
#endif
using susa::matrix;
template <class T> static void rw() {
  size_t r, c; shapeL("r", "c", r, c, MX);
  auto x = symref<T>("x", r, c); matrix<T> m(r, c);
  for (size_t k = 0; k < r * c; k++) m(k) = x.a[k];           // write linear, read (row, col)
  const matrix<T> &k = m;
  for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) {
    CHECK(same(m(i, j), x.at(i, j)), "element (i,j) is linear element i + j*rows"); CHECK(same(k(i, j), x.at(i, j)), "const element (i,j)"); CHECK(same(k(i + j * r), x.at(i, j)), "const linear element");
    CHECK(same(m.get(i, j), x.at(i, j)), "get(i,j)"); CHECK(same(m.get(i + j * r), x.at(i, j)), "get(linear)"); CHECK(&m(i, j) == &m(i + j * r), "both forms address one cell"); }
  CHECK(m.size() == r * c && m.no_rows() == r && m.no_cols() == c && m.shape() == std::make_tuple(r, c), "shape");
  CHECK(m.is_square() == (r == c), "is_square"); CHECK(m.is_scalar() == (r == 1 && c == 1), "is_scalar"); CHECK(m.is_vector() == ((r == 1) != (c == 1)), "is_vector");
  matrix<T> m2 = mk(x); for (size_t q = 0; q < r * c; q++) CHECK(same(m2(q), x.a[q]), "linear read of (i,j) writes");
  REACH("done");
}
// @h h_rw_int reach=done
HARNESS h_rw_int() { rw<int>(); }
// @h h_rw_i8 reach=done
HARNESS h_rw_i8() { rw<int8_t>(); }
// @h h_rw_cd reach=done
HARNESS h_rw_cd() { rw<std::complex<double>>(); }
// every way to construct a filled matrix
// @h h_fill reach=done
HARNESS h_fill() {
  size_t r, c; shapeL("r", "c", r, c, MX); int v = sym<int>("v"), w = sym<int>("w");
  matrix<int> a(r, c, v), b(std::make_tuple(r, c), v), d(r, c), e(std::make_tuple(r, c));
  d.set_all(w); e.set_all(w);
  for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) CHECK(a(i, j) == v && b(i, j) == v && d(i, j) == w && e(i, j) == w, "initial value");
  CHECK(a.no_rows() == r && a.no_cols() == c && b.no_rows() == r && b.no_cols() == c && d.no_rows() == r && e.no_cols() == c, "shape");
  REACH("done");
}
static const size_t BIG = ~(size_t)0;
template <class T> static void wr2(bool nassert) {
  size_t r, c; shapeL("r", "c", r, c, 3); bool big = r > 3 || c > 3; auto x = symref<T>("x", r, c); matrix<T> m = mk(x);
  size_t i = idx("i", r, big), j = idx("j", c, big); T v = sym<T>("v"); bool bad = i >= r || j >= c;
  if (!nassert) MUST_ABORT_IF(bad, m(i, j) = v, "index outside the matrix must abort");
  else m(i, j) = v;
  for (size_t b = 0; b < c; b++) for (size_t a = 0; a < r; a++) CHECK(same(m(a, b), (!bad && i == a && j == b) ? v : x.at(a, b)), "write changes exactly one element");
  if (!bad) { REACH("in"); CHECK(same(m(i, j), v), "read returns the last write"); }
  REACH("done");
}
template <class T> static void wr1(bool nassert) {
  size_t r, c; shapeL("r", "c", r, c, 3); bool big = r > 3 || c > 3; auto x = symref<T>("x", r, c); matrix<T> m = mk(x);
  size_t i = idx("i", r * c, big); T v = sym<T>("v"); bool bad = i >= r * c;
  if (!nassert) MUST_ABORT_IF(bad, m(i) = v, "linear index outside the matrix must abort");
  else m(i) = v;
  for (size_t k = 0; k < r * c; k++) CHECK(same(m(k), (!bad && i == k) ? v : x.a[k]), "linear write changes exactly one element");
  if (!bad) { REACH("in"); CHECK(same(m(i), v), "read returns the last write"); }
  REACH("done");
}
template <class T> static void rd(bool nassert) {
  size_t r, c; shapeL("r", "c", r, c, 3); bool big = r > 3 || c > 3; auto x = symref<T>("x", r, c); matrix<T> m = mk(x); const matrix<T> &k = m;
  int form = (int)CHOICE("form", 0, 5); size_t i = idx("i", form >= 3 ? r * c : r, big), j = idx("j", c, big && form < 3); bool lin = form >= 3; bool bad = lin ? i >= r * c : (i >= r || j >= c);
  if (nassert) __sym_abort_allowed(false); else __sym_abort_allowed(bad);
  T g = T(); switch (form) { case 0: g = m(i, j); break; case 1: g = k(i, j); break; case 2: g = m.get(i, j); break; case 3: g = m(i); break; case 4: g = k(i); break; default: g = m.get(i); }
  __sym_abort_allowed(false); if (!nassert) CHECK(!bad, "reading outside the matrix must abort");
  if (!bad) { REACH("in"); if (lin) { for (size_t q = 0; q < r * c; q++) CHECK(i != q || same(g, x.a[q]), "linear read"); } else for (size_t b = 0; b < c; b++) for (size_t a = 0; a < r; a++) CHECK(i != a || j != b || same(g, x.at(a, b)), "read"); }
  eq(m, x, "reading leaves every element unchanged"); REACH("done");
}
// @h h_write2 reach=in,done
HARNESS h_write2() { wr2<int>(false); }
// @h h_write1 reach=in,done
HARNESS h_write1() { wr1<int>(false); }
// @h h_read reach=in,done shards=2
HARNESS h_read() { rd<int>(false); }
// @h h_write2_na config=nassert reach=in,done
HARNESS h_write2_na() { wr2<int>(true); }
// @h h_write1_na config=nassert reach=in,done
HARNESS h_write1_na() { wr1<int>(true); }
// @h h_read_na config=nassert reach=in,done shards=2
HARNESS h_read_na() { rd<int>(true); }
// @h h_write2_c config=nassert reach=in,done
HARNESS h_write2_c() { wr2<std::complex<double>>(true); }
// access to an empty matrix
static void empt(bool nassert) {
  matrix<int> m; size_t i = sym<uint64_t>("i"), j = sym<uint64_t>("j"); int form = (int)CHOICE("form", 0, 3); CHECK(m.size() == 0 && m.no_rows() == 0 && m.no_cols() == 0, "empty shape");
  __sym_abort_allowed(!nassert); switch (form) { case 0: m(i, j) = 1; break; case 1: m(i) = 1; break; case 2: (void)m.get(i, j); break; default: (void)m.get(i); } __sym_abort_allowed(false);
  if (!nassert) CHECK(false, "access to an empty matrix must abort"); CHECK(m.size() == 0, "still empty"); REACH("done");
}
// @h h_empty
HARNESS h_empty() { empt(false); }
// @h h_empty_na config=nassert reach=done
HARNESS h_empty_na() { empt(true); }
// dimensions and element counts beyond 16 bits
// @h h_huge reach=done shards=6
HARNESS h_huge() {
  static const size_t R[] = {1, 66000, 3, 30000, 258, 2}, C[] = {66000, 1, 23000, 3, 260, 33000}; int s = (int)CHOICE("shape", 0, 5); size_t r = R[s], c = C[s], n = r * c; matrix<int8_t> m(r, c); const matrix<int8_t> &k = m; CHECK(m.size() == n && m.no_rows() == r && m.no_cols() == c, "shape");
  size_t at[8] = {0, n / 3, n / 2 - 1, 65535, 65536, 65537, n - 2, n - 1}; int8_t v[8]; for (int q = 0; q < 8; q++) { v[q] = sym<int8_t>("v"); m(at[q] % r, at[q] / r) = v[q]; }
  bool ok = true; for (int q = 0; q < 8; q++) ok = ok & (m(at[q]) == v[q]) & (k(at[q]) == v[q]) & (k(at[q] % r, at[q] / r) == v[q]) & (k.get(at[q] % r, at[q] / r) == v[q]) & (k.get(at[q]) == v[q]) & (&m(at[q]) == &m(0) + at[q]); CHECK(ok, "elements far into a large matrix are distinct"); REACH("done");
}
