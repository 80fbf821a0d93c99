// @bounds square matrices up to 3x3 (quick) / 4x4 (thorough) with symbolic real elements (exact arithmetic), every pivot order, symbolic right-hand sides (column and row vectors); 4x4 and 5x5 (thorough also 6x6) integer matrices of four families with one symbolic real element in every position; 7x7 and 8x8 of three families with one at four places; tolerance 0 for success exactly on non-singular matrices, symbolic tolerance up to 2x2, 3x3 with the default tolerance; rectangular input and right-hand sides of the wrong length
#include "sym.h"
#ifdef THOROUGH
#define MX 4
#else
#define MX 3
#endif
using susa::matrix;
static double ab(double v) { return v < 0 ? -v : v; }
static double leib(const Ref<double> &x, size_t n) {
  if (n == 1) return x.at(0, 0); if (n == 2) return x.at(0, 0) * x.at(1, 1) - x.at(0, 1) * x.at(1, 0);
  double s = 0; for (size_t k = 0; k < n; k++) { Ref<double> y(n - 1, n - 1); for (size_t i = 1; i < n; i++) for (size_t j = 0, q = 0; j < n; j++) if (j != k) y.at(i - 1, q++) = x.at(i, j); s = (k & 1) ? s - x.at(0, k) * leib(y, n - 1) : s + x.at(0, k) * leib(y, n - 1); }
  return s;
}
// earlier decompositions and solutions
static void prior(size_t n) { for (size_t k = 0; k < 2; k++) { auto f = fixed<double>(n + k, n + k, (int)k); susa::lup<double> q(f); if (k ? q.decompose_alt() : q.decompose()) { q.solve(fixed<double>(n + k, 1)); q.invert(); } } susa::linsolve(fixed<double>(n, n), fixed<double>(n, 1, 1)); }
static void checkSolve(susa::lup<double> &l, const Ref<double> &x, size_t n) {
  bool row = CHOICE("row", 0, 1); auto b = row ? symref<double>("b", 1, n) : symref<double>("b", n, 1); auto mb = mk(b); BEFORE(l.solve(fixed<double>(n, 1, 1)); l.invert()); auto s = l.solve(mb); CHECK(s.size() == n, "solution: length"); if (s.size() != n) return;
  for (size_t i = 0; i < n; i++) { double v = 0; for (size_t j = 0; j < n; j++) v += x.at(i, j) * s(j); close(v, b.a[i], 1e-6, "A x = b"); } eq(mb, b, "right-hand side unchanged");
  auto w = l.invert(); CHECK(w.no_rows() == n && w.no_cols() == n, "inverse: shape"); if (w.no_rows() != n || w.no_cols() != n) return; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double v = 0; for (size_t k = 0; k < n; k++) v += x.at(i, k) * w(k, j); close(v, i == j ? 1 : 0, 1e-6, "A inv(A) = I"); }
}
// @h h_lu mode=real reach=ok,fail shards=4 qtimeout=10000
HARNESS h_lu() {
  size_t n = (size_t)CHOICE("n", 1, MX); auto x = symref<double>("x", n, n); auto a = mk(x); BEFORE(prior(n); auto f = fixed<double>(n, n); susa::lu<double> q(f); q.decompose()); susa::lu<double> d(a); bool ok = d.decompose();
  if (ok) { auto &L = d.get_lower(); auto &U = d.get_upper(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double v = 0; for (size_t k = 0; k < n; k++) v += L(i, k) * U(k, j); close(v, x.at(i, j), 1e-6, "L U = A"); if (j > i) CHECK(L(i, j) == 0, "L is lower triangular"); if (j < i) CHECK(U(i, j) == 0, "U is upper triangular"); if (i == j) CHECK(L(i, i) == 1, "L has a unit diagonal"); } REACH("ok"); }
  else { bool all = true; for (size_t k = 1; k < n; k++) { Ref<double> y(k, k); for (size_t i = 0; i < k; i++) for (size_t j = 0; j < k; j++) y.at(i, j) = x.at(i, j); all = all & (leib(y, k) != 0); } CHECK(!all, "the decomposition exists when all leading minors are non-zero"); REACH("fail"); }
  eq(a, x, "argument unchanged");
}
#ifdef THOROUGH
static const bool EXACT = true;
#else
static const bool EXACT = false;
#endif
static void lupt(size_t n) { auto x = symref<double>("x", n, n); auto a = mk(x); susa::lup<double> l(a, 0.0); BEFORE(prior(n); l.decompose_alt()); bool ok = l.decompose(); double d = leib(x, n); if (n < 3 || EXACT) CHECK(ok == (d != 0), "success exactly for invertible matrices"); eq(a, x, "argument unchanged"); if (!ok) { REACH("fail"); return; } checkSolve(l, x, n); REACH("ok"); }
// @h h_lup mode=real reach=ok,fail shards=8 feas=200 qtimeout=10000 t_timeout=1500 timeout=100
HARNESS h_lup() { lupt((size_t)CHOICE("n", 1, MX)); }
static void alt(size_t n) {
  auto x = symref<double>("x", n, n); auto a = mk(x); susa::lup<double> l(a, 0.0); BEFORE(prior(n); l.decompose()); bool ok = l.decompose_alt(); double d = leib(x, n); if (n < 3 || EXACT) CHECK(ok == (d != 0), "success exactly for invertible matrices"); if (!ok) { REACH("fail"); return; }
  auto &P = l.get_pivot(); auto &F = l.get_lu(); for (size_t i = 0; i < n; i++) { double s = 0, t = 0; for (size_t j = 0; j < n; j++) { CHECK(P(i, j) == 0 || P(i, j) == 1, "P is a permutation"); s += P(i, j); t += P(j, i); } CHECK(s == 1 && t == 1, "P is a permutation"); }
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double v = 0, w = 0; for (size_t k = 0; k <= i && k <= j; k++) v += (k == i ? 1 : F(i, k)) * F(k, j); for (size_t k = 0; k < n; k++) w += P(i, k) * x.at(k, j); close(v, w, 1e-6, "L U = P A"); }
  checkSolve(l, x, n); REACH("ok");
}
// @h h_alt mode=real reach=ok,fail shards=8 feas=200 qtimeout=10000 t_timeout=1500 timeout=100
HARNESS h_alt() { alt((size_t)CHOICE("n", 1, MX)); }
// larger matrices: fixed integers with one symbolic element anywhere (0: dense, 1: permuted triangular, 2: sparse, 3: singular for one value)
static int base(int k, size_t n, size_t i, size_t j) { size_t p = (i * 2 + 1) % n; switch (k) { case 0: return (int)((i * 7 + j * j * 3 + i * j * 5 + 1) % 11) - 5; case 1: return j >= p ? (int)(p + 2 * j + 1) : 0; case 2: return j == p ? 3 : j == i ? -2 : 0; default: return i == n - 1 ? (int)j + 1 : (int)((i + 1) * (j + 2) % 7); } }
static Ref<double> big(size_t n) { int k = (int)CHOICE("base", 0, 3); size_t pos = (size_t)CHOICE("pos", 0, (int)(n * n) - 1); Ref<double> x(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) x.at(i, j) = base(k, n, i, j); x.a[pos] = sym<double>("t"); return x; }
static void bigs(size_t n, bool al) {
  auto x = big(n); auto a = mk(x); susa::lup<double> l(a, 0.0); bool ok = al ? l.decompose_alt() : l.decompose(); double d = leib(x, n); CHECK(ok == (d != 0), "success exactly for invertible matrices"); eq(a, x, "argument unchanged"); if (!ok) { REACH("fail"); return; }
  if (al) { auto &P = l.get_pivot(); auto &F = l.get_lu(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double v = 0, w = 0; for (size_t k = 0; k <= i && k <= j; k++) v += (k == i ? 1 : F(i, k)) * F(k, j); for (size_t k = 0; k < n; k++) w += P(i, k) * x.at(k, j); close(v, w, 1e-6, "L U = P A"); } }
  checkSolve(l, x, n); REACH("ok");
}
// @h h_big4 mode=real reach=ok,fail shards=8 feas=200 qtimeout=10000 timeout=100
HARNESS h_big4() { bigs(4, CHOICE("alt", 0, 1)); }
// @h h_big5 mode=real reach=ok,fail shards=8 feas=200 qtimeout=10000 timeout=100 t_timeout=1500
HARNESS h_big5() { bigs(5, CHOICE("alt", 0, 1)); }
// @h h_big6 mode=real reach=ok,fail shards=16 feas=200 qtimeout=10000 tier=thorough timeout=1500
HARNESS h_big6() { bigs(6, CHOICE("alt", 0, 1)); }
// the tolerance
// @h h_tol mode=real reach=ok,fail shards=4 qtimeout=10000
HARNESS h_tol() {
  size_t n = (size_t)CHOICE("n", 1, 2); bool al = CHOICE("alt", 0, 1); double t = sym<double>("tol"); ASSUME(t >= 0); auto x = symref<double>("x", n, n); auto a = mk(x); susa::lup<double> l(a, t); bool ok = al ? l.decompose_alt() : l.decompose(), e;
  if (n == 1) e = ab(x.a[0]) > t; else { double p = ab(x.a[0]) < ab(x.a[1]) ? ab(x.a[1]) : ab(x.a[0]), d = ab(leib(x, 2)); e = (p > t) & (d > t * p); } CHECK(ok == e, "failure exactly when a column offers no pivot above the tolerance"); if (ok) REACH("ok"); else REACH("fail");
}
// linear solver and inverse with the default tolerance
// @h h_solve mode=real reach=done feas=200 shards=8 qtimeout=10000
HARNESS h_solve() {
  size_t n = (size_t)CHOICE("n", 1, 3); auto x = symref<double>("x", n, n); auto a = mk(x); { susa::lup<double> l(a); ASSUME(l.decompose()); }
  auto b = symref<double>("b", n, 1); auto s = susa::linsolve(a, mk(b)); CHECK(s.size() == n, "solution: length"); for (size_t i = 0; i < n; i++) { double v = 0; for (size_t j = 0; j < n; j++) v += x.at(i, j) * s(j); close(v, b.a[i], 1e-5, "A x = b"); }
  auto w = susa::inv(a); CHECK(w.no_rows() == n && w.no_cols() == n, "inverse: shape"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double v = 0; for (size_t k = 0; k < n; k++) v += x.at(i, k) * w(k, j); close(v, i == j ? 1 : 0, 1e-5, "A inv(A) = I"); } eq(a, x, "argument unchanged"); REACH("done");
}
// shapes
// @h h_shape
HARNESS h_shape() { size_t r = (size_t)CHOICE("r", 1, 3), c = (size_t)CHOICE("c", 1, 3); ASSUME(r != c); auto x = symref<double>("x", r, c); auto a = mk(x); if (CHOICE("lup", 0, 1)) { MUST_ABORT_IF(true, susa::lup<double> l(a), "a rectangular matrix must be refused"); } else { MUST_ABORT_IF(true, susa::lu<double> l(a), "a rectangular matrix must be refused"); } }
// order seven and eight: permutation-like, triangular and dense integer matrices with one symbolic element
static double detdp(const Ref<double> &x, size_t n) { std::vector<double> d((size_t)1 << n, 0.0); d[0] = 1; for (size_t m = 1; m < (size_t)1 << n; m++) { size_t k = 0; for (size_t b = 0; b < n; b++) k += m >> b & 1; double s = 0; size_t after = k - 1; for (size_t b = 0; b < n; b++) if (m >> b & 1) { double v = x.at(k - 1, b) * d[m ^ ((size_t)1 << b)]; s = (after & 1) ? s - v : s + v; after--; } d[m] = s; } return d[((size_t)1 << n) - 1]; }
// @h h_big7 mode=real reach=ok,fail shards=8 feas=200 qtimeout=5000 timeout=100 t_timeout=600
HARNESS h_big7() {
  size_t n = (size_t)CHOICE("n", 7, 8), p = (size_t)CHOICE("at", 0, 3); int k = (int)CHOICE("base", 0, 2); bool al = CHOICE("alt", 0, 1); Ref<double> x(n, n);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) x.at(i, j) = k == 0 ? (j == (i + 1) % n ? 1.0 : 0.0) : k == 1 ? (i + j == n - 1 ? -2.0 : i + j == n ? 1.0 : 0.0) : (i == j ? 4.0 : j == (i + 3) % n ? 1.0 : 0.0);
  x.a[p == 0 ? (n - 1) * n : p == 1 ? n * n - 1 : p == 2 ? (n - 2) * n : n / 2 * n + n / 2 - 1] = sym<double>("t"); auto a = mk(x); susa::lup<double> l(a, 0.0); bool ok = al ? l.decompose_alt() : l.decompose(); double e = detdp(x, n);
  CHECK(ok == (e != 0), "decomposition succeeds exactly on a non-singular matrix"); eq(a, x, "argument unchanged"); if (!ok) { REACH("fail"); return; } checkSolve(l, x, n); REACH("ok");
}
