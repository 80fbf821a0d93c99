// @bounds two and three matrices, initial shapes from {empty, 1x1, 1x3, 3x1, 2x2, 2x3, 3x2}, every history of 2 (all shape pairs) to 3 (quick) / 4 (thorough) operations from {assign, copy-construct, move-construct, move-assign, self-assign, write, resize} with symbolic operands, symbolic element values (32-bit int, complex<double>); copy and assignment between all shapes up to 3x3 and fifteen larger ones of up to 272 elements; copies, moves and assignments of matrices of up to 70000 elements with eight symbolic ones
#define SYM_CAP 288
#include "sym.h"
#include <utility>
using susa::matrix;
struct Model { bool known = true; size_t r = 0, c = 0; int a[8]; };
static const int SH[7][2] = {{0, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}};
static matrix<int> *create(Model &m, int k) { m.r = SH[k][0]; m.c = SH[k][1]; matrix<int> *p = m.r ? new matrix<int>(m.r, m.c) : new matrix<int>(); for (size_t i = 0; i < m.r * m.c; i++) { m.a[i] = sym<int>("x"); (*p)(i) = m.a[i]; } return p; }
static void verify(matrix<int> &x, const Model &m, const char *msg) {
  if (!m.known) return; bool ok = x.no_rows() == m.r && x.no_cols() == m.c && x.size() == m.r * m.c; CHECK(ok, msg); if (!ok) return;
  for (size_t j = 0; j < m.c; j++) for (size_t i = 0; i < m.r; i++) CHECK(x(i, j) == m.a[i + j * m.r], msg);
}
static void hist(int N, int steps, const int *sh) {
  uint64_t live0 = __sym_heap_live(); { matrix<int> *p[3]; Model m[3];
  for (int i = 0; i < N; i++) p[i] = create(m[i], sh[i]);
  for (int s = 0; s < steps; s++) {
    int op = (int)CHOICE("op", 0, 5), i = (int)CHOICE("i", 0, N - 1), j = op >= 4 ? i : (int)CHOICE("j", 0, N - 1);
    if ((op == 1 || op == 2) && i == j) { ASSUME(false); }
    switch (op) {
    case 0: if (!m[j].known) { ASSUME(false); } *p[i] = *p[j]; m[i] = m[j]; break;
    case 1: if (!m[j].known) { ASSUME(false); } delete p[i]; p[i] = new matrix<int>(*p[j]); m[i] = m[j]; break;
    case 2: { if (!m[j].known) { ASSUME(false); } delete p[i]; p[i] = new matrix<int>(std::move(*p[j])); m[i] = m[j]; m[j].known = false; break; }
    case 3: { if (!m[j].known) { ASSUME(false); } Model t = m[j]; *p[i] = std::move(*p[j]); if (i != j) m[i] = t; m[j].known = false; break; }
    case 4: { if (!m[i].known || !m[i].r) { ASSUME(false); } size_t k = (size_t)sym<uint64_t>("k"); ASSUME(k < m[i].r * m[i].c); int v = sym<int>("v"); (*p[i])(k) = v; for (size_t q = 0; q < m[i].r * m[i].c; q++) if (q == k) m[i].a[q] = v; break; }
    default: { p[i]->resize(2, 1); m[i].known = true; m[i].r = 2; m[i].c = 1; p[i]->set_all(7); m[i].a[0] = m[i].a[1] = 7; CHECK(p[i]->size() == 2, "resize"); break; }
    }
    for (int q = 0; q < N; q++) verify(*p[q], m[q], op == 4 ? "writing to one matrix changes only it" : "after the operation every matrix has its own value");
  }
  for (int i = 0; i < N; i++) delete p[i]; }
  CHECK(__sym_heap_live() == live0, "every block is released"); REACH("done");
}
// @h h_hist2 reach=done shards=4
HARNESS h_hist2() { int sh[2] = {(int)CHOICE("s0", 0, 6), (int)CHOICE("s1", 0, 6)}; hist(2, 2, sh); }
// @h h_hist3 reach=done shards=4
HARNESS h_hist3() { int sh[2] = {5, (int)CHOICE("s1", 0, 1) ? 6 : 0}; hist(2, 3, sh); }
// @h h_hist3m reach=done shards=8
HARNESS h_hist3m() { int sh[3] = {4, 2, 0}; hist(3, 2, sh); }
// @h h_hist4 reach=done shards=32 tier=thorough timeout=1500
HARNESS h_hist4() { int sh[2] = {5, (int)CHOICE("s1", 0, 1) ? 2 : 0}; hist(2, 4, sh); }
// @h h_hist3x reach=done shards=32 tier=thorough timeout=1500
HARNESS h_hist3x() { int sh[3] = {4, 2, 0}; hist(3, 3, sh); }
// assignment and copy of every shape and element type keep the source and separate storage
template <class T> static void pair() {
  size_t r, c, R, C; shapeL("r", "c", r, c, 3); if (r > 3 || c > 3) { R = r; C = c; if (CHOICE("tr", 0, 1)) { R = c; C = r; } } else shapeL("R", "C", R, C, 3); auto x = symref<T>("x", r, c), y = symref<T>("y", R, C); auto a = mk(x), b = mk(y);
  matrix<T> &ret = (a = b); CHECK(&ret == &a, "assignment returns its left side"); eq(a, y, "assignment"); eq(b, y, "source unchanged");
  T v = sym<T>("v"); a(0) = v; CHECK(same(b(0), y.a[0]), "writing to the copy leaves the source"); b(R * C - 1) = v; CHECK(R * C == 1 || same(a(R * C - 1), y.a[R * C - 1]), "writing to the source leaves the copy");
  matrix<T> d(b); d(0) = v; if (R * C > 1) CHECK(same(b(0), y.a[0]), "copy construction"); a = a; CHECK(a.no_rows() == R && a.no_cols() == C && same(a(0), v), "self assignment"); REACH("done");
}
// @h h_pair reach=done shards=2
HARNESS h_pair() { pair<int>(); }
// @h h_pair_cd reach=done shards=2
HARNESS h_pair_cd() { pair<std::complex<double>>(); }
// matrices as values of standard containers and functions
static matrix<int> pass(matrix<int> m) { m(0) = m(0) + 1; return m; }
// @h h_value reach=done
HARNESS h_value() {
  uint64_t live0 = __sym_heap_live(); { auto x = symref<int>("x", 2, 2), y = symref<int>("y", 1, 3); auto a = mk(x), b = mk(y);
  { std::vector<matrix<int>> v; v.push_back(a); v.push_back(b); v.push_back(matrix<int>()); v.push_back(a); eq(v[0], x, "vector of matrices"); eq(v[1], y, "vector of matrices"); eq(v[3], x, "vector of matrices"); CHECK(v[2].size() == 0, "empty"); v.erase(v.begin()); eq(v[0], y, "after erase"); eq(v[2], x, "after erase"); v.insert(v.begin(), v[0]); eq(v[0], y, "after insert"); eq(v[1], y, "after insert"); }
  auto d = pass(a); eq(a, x, "passing by value leaves the argument"); CHECK(d(0) == (int)((unsigned)x.a[0] + 1u) && d(3) == x.a[3] && d.no_rows() == 2, "passing by value");
  std::swap(a, b); eq(a, y, "swap"); eq(b, x, "swap");
  a = matrix<int>(); CHECK(a.size() == 0 && a.no_rows() == 0 && a.no_cols() == 0, "assignment from an empty matrix"); a = b; eq(a, x, "assignment to an empty matrix"); }
  CHECK(__sym_heap_live() == live0, "every block is released"); REACH("done");
}
// blocks beyond 64 KiB
template <class T> static void huge(size_t r, size_t c) {
  uint64_t live0 = __sym_heap_live(); { size_t n = r * c, at[8] = {0, 1, n / 3, n / 2, 65535 % n, 8192 % n, n - 2, n - 1}; T v[8]; matrix<T> m(r, c, T(3)), e(2, 2, T(5)), f; for (int q = 0; q < 8; q++) { v[q] = sym<T>("v"); m(at[q]) = v[q]; }
  matrix<T> k(m); e = m; f = k; matrix<T> g(std::move(k)); bool ok = true; auto shp = [&](const matrix<T> &x) { return (x.no_rows() == r) & (x.no_cols() == c) & (x.size() == n); }; CHECK(shp(m) & shp(e) & shp(f) & shp(g), "shape of a large copy");
  for (size_t i = 0; i < n; i += 97) { bool sp = false; for (int q = 0; q < 8; q++) sp |= at[q] == i; if (!sp) ok = ok & (e(i) == T(3)) & (f(i) == T(3)) & (g(i) == T(3)); }
  for (int q = 0; q < 8; q++) { T w = v[q]; for (int p = q + 1; p < 8; p++) if (at[p] == at[q]) w = v[p]; ok = ok & (m(at[q]) == w) & (e(at[q]) == w) & (f(at[q]) == w) & (g(at[q]) == w); } CHECK(ok, "large copies are equal");
  T w = sym<T>("w"), o = m(n - 1); e(n - 1) = w; CHECK((m(n - 1) == o) & (f(n - 1) == o) & (e(n - 1) == w), "large copies are independent"); }
  CHECK(__sym_heap_live() == live0, "every block is released"); REACH("done");
}
// @h h_huge reach=done shards=2
HARNESS h_huge() { if (CHOICE("wide", 0, 1)) huge<int64_t>(130, 70); else huge<int8_t>(250, 280); }
