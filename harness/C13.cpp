// @bounds det: square matrices up to 5x5 (quick) / 6x6 (thorough) with symbolic real elements (exact arithmetic) and with int8-range int elements; 6x6 and 7x7 (thorough 8x8) integer matrices of three families with one symbolic real element at four places; rank: shapes up to 3x3, 2x5, 5x2 (thorough also 3x4, 4x3), symbolic reals, tolerance 0 (exact), default tolerance with minors that are zero or at least 1e-3 in magnitude (shapes up to 2x2); products of integer factors of known rank, one term scaled by a symbolic real, in thirteen shapes up to 12x12
#include "sym.h"
#ifdef THOROUGH
#define MX 6
#else
#define MX 5
#endif
using susa::matrix;
// Leibniz sum over the rows rs and columns cs
template <class T> static T leib(const Ref<T> &x, size_t n) {
  size_t p[8]; for (size_t i = 0; i < n; i++) p[i] = i; T s = T(); 
  while (true) {
    T t = T(1); int inv = 0; for (size_t i = 0; i < n; i++) { t = t * x.at(i, p[i]); for (size_t j = i + 1; j < n; j++) if (p[i] > p[j]) inv++; } s = (inv & 1) ? s - t : s + t;
    // next permutation
    if (n < 2) break; size_t i = n - 1; while (i > 0 && p[i - 1] > p[i]) i--; if (i == 0) break; size_t j = n - 1; while (p[j] < p[i - 1]) j--; size_t q = p[i - 1]; p[i - 1] = p[j]; p[j] = q; for (size_t a = i, b = n - 1; a < b; a++, b--) { q = p[a]; p[a] = p[b]; p[b] = q; }
  }
  return s;
}
// determinant by expansion over column sets
template <class T> static T detdp(const Ref<T> &x, size_t n) { std::vector<T> d((size_t)1 << n, T(0)); d[0] = T(1); for (size_t m = 1; m < (size_t)1 << n; m++) { size_t k = 0; for (size_t b = 0; b < n; b++) k += m >> b & 1; T s = T(0); size_t after = k - 1; for (size_t b = 0; b < n; b++) if (m >> b & 1) { T v = x.at(k - 1, b) * d[m ^ ((size_t)1 << b)]; s = (after & 1) ? s - v : s + v; after--; } d[m] = s; } return d[((size_t)1 << n) - 1]; }
// @h h_det mode=real reach=done shards=4
HARNESS h_det() { size_t n = (size_t)CHOICE("n", 1, MX); auto x = symref<double>("x", n, n); auto a = mk(x); BEFORE(susa::det(fixed<double>(n, n)); susa::det(fixed<double>(n + 1, n + 1)); susa::rank(fixed<double>(n, n))); double d = susa::det(a); close(d, leib(x, n), 1e-9, "determinant"); eq(a, x, "argument unchanged"); REACH("done"); }
// @h h_det_i mode=real reach=done shards=4
HARNESS h_det_i() { size_t n = (size_t)CHOICE("n", 1, 3); Ref<double> x(n, n); matrix<int> a(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { int v = sym<int8_t>("x"); a(i, j) = v; x.at(i, j) = v; } BEFORE(susa::det(fixed<int>(n, n)); susa::det(fixed<int>(n, n, 1))); double d = susa::det(a); close(d, leib(x, n), 1e-9, "determinant of integers"); REACH("done"); }
// @h h_det_rep mode=real reach=done
HARNESS h_det_rep() { size_t n = (size_t)CHOICE("n", 2, MX), p = (size_t)CHOICE("p", 0, MX - 1), q = (size_t)CHOICE("q", 0, MX - 1); ASSUME(p < q && q < n); auto x = symref<double>("x", n, n); auto a = mk(x), b = a, c = a; for (size_t j = 0; j < n; j++) { b(p, j) = b(q, j); c(p, j) = x.at(q, j); c(q, j) = x.at(p, j); } close(susa::det(b), 0, 1e-7, "equal rows give zero"); close(susa::det(c) + susa::det(a), 0, 1e-7, "a row swap negates"); REACH("done"); }
// rank: largest non-singular minor
static double minor_(const Ref<double> &x, unsigned rm, unsigned cm) { size_t R[8], C[8], nr = 0, nc = 0; for (size_t i = 0; i < x.r; i++) if (rm >> i & 1) R[nr++] = i; for (size_t i = 0; i < x.c; i++) if (cm >> i & 1) C[nc++] = i; Ref<double> y(nr, nr); for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nr; j++) y.at(i, j) = x.at(R[i], C[j]); return leib(y, nr); }
static int pc(unsigned m) { int k = 0; while (m) { k += m & 1; m >>= 1; } return k; }
static bool some(const Ref<double> &x, int k) { bool s = false; for (unsigned rm = 1; rm < 1u << x.r; rm++) if (pc(rm) == k) for (unsigned cm = 1; cm < 1u << x.c; cm++) if (pc(cm) == k) s = s | (minor_(x, rm, cm) != 0); return s; }
static void rk(size_t r, size_t c, bool tol) {
  auto x = symref<double>("x", r, c); if (tol) for (int k = 1; k <= 2; k++) for (unsigned rm = 1; rm < 1u << r; rm++) if (pc(rm) == k) for (unsigned cm = 1; cm < 1u << c; cm++) if (pc(cm) == k) { double d = minor_(x, rm, cm); ASSUME((d == 0) | (d >= 1e-3) | (d <= -1e-3)); ASSUME((d < 1000) & (d > -1000)); }
  auto a = mk(x); BEFORE(susa::rank(fixed<double>(r, c)); susa::det(fixed<double>(r, r, 1))); unsigned k = tol ? susa::rank(a) : susa::rank(a, 0.0); size_t mn = r < c ? r : c; CHECK(k <= mn, "rank is at most the smaller dimension"); if (k > mn) return;
  if (k > 0) CHECK(some(x, (int)k), "a minor of the size of the rank is non-singular"); if (k < mn) CHECK(!some(x, (int)k + 1), "every larger minor is singular"); eq(a, x, "argument unchanged"); REACH("done");
}
// @h h_rank mode=real reach=done shards=8 qtimeout=10000 timeout=100
HARNESS h_rank() { size_t r = (size_t)CHOICE("r", 1, 3), c = (size_t)CHOICE("c", 1, 3); ASSUME(r * c <= 6); rk(r, c, false); }
// @h h_rank_tol mode=real reach=done qtimeout=10000 shards=4
HARNESS h_rank_tol() { size_t r = (size_t)CHOICE("r", 1, 2), c = (size_t)CHOICE("c", 1, 2); rk(r, c, true); }
// @h h_rank3 mode=real reach=done shards=8 qtimeout=30000 t_timeout=1500
HARNESS h_rank3() { rk(3, 3, false); }
// @h h_rank_w mode=real reach=done shards=8 qtimeout=30000 timeout=100
HARNESS h_rank_w() { if (CHOICE("t", 0, 1)) rk(5, 2, false); else rk(2, 5, false); }
// @h h_rank34 mode=real reach=done shards=16 tier=thorough qtimeout=30000 timeout=1500
HARNESS h_rank34() { if (CHOICE("t", 0, 1)) rk(4, 3, false); else rk(3, 4, false); }
// larger matrices
#ifdef THOROUGH
#define DX 8
#else
#define DX 7
#endif
// @h h_det_big mode=real reach=done shards=6 timeout=150 t_timeout=900
HARNESS h_det_big() {
  size_t n = (size_t)CHOICE("n", 6, DX), p = (size_t)CHOICE("at", 0, 3); int k = (int)CHOICE("base", 0, 2); Ref<double> x(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) x.at(i, j) = k == 0 ? (double)((int)((i * 7 + j * j * 3 + i * j * 5 + 1) % 11) - 5) : k == 1 ? (j == (i + n - 1) % n ? (double)(i + 2) : 0) : (i + j == n - 1 ? -2.0 : i == j ? 3.0 : i == 0 ? 1.0 : 0.0);
  x.a[p == 0 ? (n - 1) * n : p == 1 ? n * n - 1 : p == 2 ? (n - 2) * n : 1] = sym<double>("t"); auto a = mk(x); close(susa::det(a), detdp(x, n), 1e-6, "determinant"); eq(a, x, "argument unchanged"); REACH("done");
}
// @h h_rank_big mode=real reach=done shards=12 timeout=100 qtimeout=5000 feas=1000
HARNESS h_rank_big() {
  // x = l u with unit-triangular l and u in echelon form with pivots +-2: every elimination step is exact
  static const int S[13][3] = {{4, 4, 3}, {5, 5, 5}, {5, 5, 2}, {4, 9, 3}, {9, 4, 4}, {8, 8, 8}, {8, 8, 7}, {6, 12, 5}, {12, 6, 6}, {1, 12, 1}, {12, 1, 1}, {9, 9, 6}, {12, 12, 10}}; int q = (int)CHOICE("shape", 0, 12); size_t r = S[q][0], c = S[q][1], k = S[q][2], w = CHOICE("term", 0, 1) * (k - 1); double t = 0; bool z0 = CHOICE("zero", 0, 1); if (!z0) { t = sym<double>("t"); ASSUME(t != 0); } bool flip = CHOICE("flip", 0, 1), off = CHOICE("off", 0, 1);
  Ref<double, 144> x(r, c); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { double s = 0; for (size_t m = 0; m < k; m++) { size_t a = flip ? r - 1 - i : i, z = m + (off ? c - k : 0); int l = a == m ? 1 : flip ? 0 : a == m + 1 ? -1 : a == r - 1 ? 1 : 0, u = j == z ? (m % 3 == 1 ? -2 : 2) : j > z ? (int)((j + 2 * m) % 3) - 1 : 0; s += (m == w ? t : 1.0) * l * u; } x.at(i, j) = s; }
  auto a = mk(x); unsigned d = susa::rank(a, 0.0); CHECK(d == (z0 ? k - 1 : k), "rank of a product of known rank"); eq(a, x, "argument unchanged"); REACH("done");
}
