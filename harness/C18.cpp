// @bounds matrices and vectors up to 4 elements / 3x3 (thorough 6 / 4x4), eighteen larger shapes (up to 16x17, 300x2 and 2x300, vectors of 9, 17, 33, 65, 130, 257) for sums, means of reals and norms, minima and maxima of shapes up to 17x1, 3x6, 2x8 with two symbolic elements anywhere, of six longer shapes (up to 257x1, 130x2, 34x9) with one symbolic element at four places, standard vectors of 0..6 (thorough ..8) and of 9..300 elements; 32-bit ring elements for sums, doubles in exact arithmetic, integer means for elements up to 2^16 (thorough 2^24) in magnitude; minima and maxima for all 32-bit integers and all finite doubles
#define SYM_CAP 640
#include "sym.h"
#include <cmath>
#ifdef THOROUGH
#define NV 6
#define NM 4
#define NS 8
#define LIM 24
#else
#define NV 4
#define NM 3
#define NS 6
#define LIM 16
#endif
using susa::matrix;
// all shapes: rows, columns, scalars and matrices; n elements per group, g groups
static void any(size_t &r, size_t &c, size_t &n, size_t &g, int nv, int nm, bool lg = false) { int k = (int)CHOICE("kind", 0, lg ? 5 : 2); if (k == 2) { shape("r", "c", r, c, 2, nm); n = r; g = c; return; } if (k == 3) { static const int big[][2] = {{2, 5}, {5, 2}, {7, 3}, {3, 7}, {2, 17}, {17, 2}, {8, 8}, {16, 17}, {130, 2}, {2, 66}, {2, 300}, {300, 2}}; int q = (int)CHOICE("big", 0, 11); r = (size_t)big[q][0]; c = (size_t)big[q][1]; n = r; g = c; return; } if (k > 3) { static const int len[] = {9, 17, 33, 65, 130, 257}; n = (size_t)len[CHOICE("len", 0, 5)]; r = k == 4 ? n : 1; c = k == 4 ? 1 : n; g = 1; return; } n = (size_t)CHOICE("n", 1, nv); ASSUME(k == 0 || n > 1); r = k ? n : 1; c = k ? 1 : n; g = 1; }
template <class T> static void sums() {
  size_t r, c, n, g; any(r, c, n, g, NV, NM, true); auto x = symref<T>("x", r, c); auto m = mk(x); Ref<T> s(1, g), a(1, g); for (size_t j = 0; j < g; j++) { T t = T(0); for (size_t i = 0; i < n; i++) t += x.a[j * n + i]; s.a[j] = t; }
  BEFORE(susa::sum(fixed<T>(r, c)); susa::mean(fixed<T>(r, c)); susa::sum(fixed<T>(c, r + 1))); eq(susa::sum(m), s, "sum"); eq(m, x, "argument unchanged"); if constexpr (!std::is_integral<T>::value) { for (size_t j = 0; j < g; j++) a.a[j] = s.a[j] / (double)n; eqc(susa::mean(m), a, 1e-12, "mean"); eq(m, x, "argument unchanged"); }
  REACH("done");
}
// @h h_sum reach=done
HARNESS h_sum() { sums<int>(); }
// @h h_sum_d mode=real reach=done
HARNESS h_sum_d() { sums<double>(); }
// @h h_sum_c mode=real reach=done
HARNESS h_sum_c() { sums<std::complex<double>>(); }
// the quotient of s and n truncated toward zero is q
template <class T> static bool quot(T q, T s, size_t n) { T p = q * (T)n, r = s - p; return ((s >= 0) & (q >= 0) & (r >= 0) & (r < (T)n)) | ((s <= 0) & (q <= 0) & (r <= 0) & (r > -(T)n)); }
template <class T> static void imean(T lim) {
  size_t r, c, n, g; any(r, c, n, g, NV, 3); auto x = symref<T>("x", r, c); for (size_t i = 0; i < x.n(); i++) ASSUME((x.a[i] <= lim) & (x.a[i] >= -lim)); auto m = mk(x); BEFORE(susa::mean(fixed<T>(r, c)); susa::mean(fixed<T>(c, r + 1))); auto a = susa::mean(m); CHECK(a.no_rows() == 1 && a.no_cols() == g, "mean: shape");
  for (size_t j = 0; j < g; j++) { T t = 0; for (size_t i = 0; i < n; i++) t += x.a[j * n + i]; CHECK(quot(a(j), t, n), "integer mean truncates toward zero"); } eq(m, x, "argument unchanged"); REACH("done");
}
// @h h_mean_i reach=done shards=8 qtimeout=60000
HARNESS h_mean_i() { imean<int>(1 << LIM); }
// @h h_mean_l reach=done shards=4 tier=thorough
HARNESS h_mean_l() { imean<long>(1l << 24); }
// @h h_mean_u reach=done
HARNESS h_mean_u() { size_t n = (size_t)CHOICE("n", 1, NV); auto x = symref<unsigned>("x", n, 1); unsigned t = 0; std::vector<unsigned> v; for (size_t i = 0; i < n; i++) { ASSUME(x.a[i] <= 1u << 26); t += x.a[i]; v.push_back(x.a[i]); } auto a = susa::mean(mk(x)); CHECK(a.size() == 1, "mean: shape"); CHECK(a(0) * n <= t && t - a(0) * n < n, "unsigned mean"); unsigned b = susa::mean(v); CHECK(b == a(0), "unsigned vector mean"); REACH("done"); }
// @h h_norm mode=real reach=done
HARNESS h_norm() {
  size_t r, c, n, g; any(r, c, n, g, NV, NM, true); auto x = symref<double>("x", r, c); auto m = mk(x); Ref<double> s(1, g); for (size_t j = 0; j < g; j++) { double t = 0; for (size_t i = 0; i < n; i++) t += x.a[j * n + i] * x.a[j * n + i]; s.a[j] = std::sqrt(t); } BEFORE(susa::norm(fixed<double>(r, c)); susa::norm(fixed<double>(c, r + 1))); eqc(susa::norm(m), s, 1e-12, "2-norm"); eq(m, x, "argument unchanged"); REACH("done");
}
// @h h_norm_c mode=real reach=done
HARNESS h_norm_c() {
  typedef std::complex<double> cd; size_t r, c, n, g; if (CHOICE("wide", 0, 1)) { n = r = 2; g = c = (size_t)CHOICE("w", 3, 6); } else any(r, c, n, g, 3, 2); auto x = symref<cd>("x", r, c); auto m = mk(x); auto s = susa::norm(m); CHECK(s.no_rows() == 1 && s.no_cols() == g, "norm: shape");
  for (size_t j = 0; j < g; j++) { double t = 0; for (size_t i = 0; i < n; i++) t += x.a[j * n + i].real() * x.a[j * n + i].real() + x.a[j * n + i].imag() * x.a[j * n + i].imag(); ASSUME(t > 0); close(s(j).real() * s(j).real(), t, 1e-9, "complex 2-norm: square"); close(s(j).imag(), 0, 1e-12, "complex 2-norm is real"); CHECK(s(j).real() >= 0, "complex 2-norm is not negative"); } REACH("done");
}
template <class T> static void ext() {
  size_t r, c, n, g; any(r, c, n, g, NV, NM); auto x = symref<T>("x", r, c); if constexpr (std::is_floating_point<T>::value) for (size_t i = 0; i < x.n(); i++) ASSUME(x.a[i] == x.a[i]); auto m = mk(x); bool mx = CHOICE("max", 0, 1); BEFORE(susa::max(fixed<T>(r, c)); susa::min(fixed<T>(r, c, 1)); susa::min(fixed<T>(c, r + 1))); auto k = mx ? susa::max(m) : susa::min(m); CHECK(k.no_rows() == 1 && k.no_cols() == g, "min/max: shape");
  for (size_t j = 0; j < g; j++) { size_t e = k(j); CHECK(e < n, "min/max: an index of the group"); for (size_t i = 0; i < n; i++) { T p = x.a[j * n + i], q = x.a[j * n + e]; if (mx) { CHECK(i < e ? p < q : p <= q, "first index of the maximum"); } else CHECK(i < e ? p > q : p >= q, "first index of the minimum"); } }
  eq(m, x, "argument unchanged"); REACH("done");
}
// @h h_ext reach=done shards=8
HARNESS h_ext() { ext<int>(); }
// long vectors and wide matrices with two symbolic elements anywhere
// @h h_ext_l reach=done shards=4
HARNESS h_ext_l() {
  static const int S[][2] = {{9, 1}, {1, 9}, {1, 17}, {2, 8}, {3, 6}, {17, 1}}; const int *q = S[CHOICE("S", 0, 5)]; size_t r = (size_t)q[0], c = (size_t)q[1], n = r == 1 ? c : r, g = r == 1 ? 1 : c; Ref<int> x(r, c); for (size_t i = 0; i < r * c; i++) x.a[i] = (int)(i * 5 % 7) * 3 - 9;
  size_t a = (size_t)CHOICE("a", 0, (int)(r * c) - 1), b = (size_t)CHOICE("b", 0, (int)(r * c) - 1); ASSUME(a <= b); x.a[a] = sym<int>("x"); x.a[b] = sym<int>("y"); auto m = mk(x); bool mx = CHOICE("max", 0, 1); auto k = mx ? susa::max(m) : susa::min(m); CHECK(k.no_rows() == 1 && k.no_cols() == g, "min/max: shape");
  for (size_t j = 0; j < g; j++) { size_t e = k(j); CHECK(e < n, "min/max: an index of the group"); for (size_t i = 0; i < n; i++) { int p = x.a[j * n + i], v = x.a[j * n + e]; if (mx) { CHECK(i < e ? p < v : p <= v, "first index of the maximum"); } else CHECK(i < e ? p > v : p >= v, "first index of the minimum"); } } eq(m, x, "argument unchanged"); REACH("done");
}
// @h h_mean_w reach=done shards=2
HARNESS h_mean_w() { // wider shapes, unsigned
  static const int S[][2] = {{2, 5}, {2, 6}, {5, 1}, {1, 6}, {3, 4}}; const int *q = S[CHOICE("S", 0, 4)]; size_t r = (size_t)q[0], c = (size_t)q[1], n = r == 1 ? c : r, g = r == 1 ? 1 : c; auto x = symref<unsigned>("x", r, c); for (size_t i = 0; i < r * c; i++) ASSUME(x.a[i] <= 1u << 20); auto m = mk(x); auto a = susa::mean(m); CHECK(a.no_rows() == 1 && a.no_cols() == g, "mean: shape"); for (size_t j = 0; j < g; j++) { unsigned t = 0; for (size_t i = 0; i < n; i++) t += x.a[j * n + i]; CHECK((a(j) * n <= t) & (t - a(j) * n < n), "unsigned mean"); } eq(m, x, "argument unchanged"); REACH("done");
}
// @h h_ext_u reach=done shards=8 tier=thorough
HARNESS h_ext_u() { ext<unsigned char>(); }
// @h h_ext_d mode=ieee reach=done shards=8
HARNESS h_ext_d() { ext<double>(); }
// standard vectors
// @h h_diff reach=done
HARNESS h_diff() { size_t n = (size_t)CHOICE("n", 0, NS); std::vector<int> v; Ref<int> x(1, n); for (size_t i = 0; i < n; i++) { x.a[i] = sym<int>("x"); v.push_back(x.a[i]); } auto d = susa::diff(v); CHECK(d.size() == (n ? n - 1 : 0), "differences: length"); for (size_t i = 0; i + 1 < n; i++) CHECK(d[i] == x.a[i + 1] - x.a[i], "differences"); CHECK(v.size() == n, "argument unchanged"); int s = 0; for (size_t i = 0; i < n; i++) { CHECK(v[i] == x.a[i], "argument unchanged"); s += x.a[i]; } CHECK(susa::sum(v) == s, "vector sum"); REACH("done"); }
// @h h_vmean reach=done qtimeout=60000
HARNESS h_vmean() { size_t n = (size_t)CHOICE("n", 1, NS); std::vector<int> v; int s = 0; for (size_t i = 0; i < n; i++) { int x = sym<int>("x"); ASSUME((x <= 1 << LIM) & (x >= -(1 << LIM))); v.push_back(x); s += x; } CHECK(quot(susa::mean(v), s, n), "integer mean of a vector truncates toward zero"); REACH("done"); }
template <class T> static void stat(size_t n) {
  std::vector<T> v; double x[8], s = 0, q = 0; for (size_t i = 0; i < n; i++) { T t = sym<T>("x"); if constexpr (std::is_integral<T>::value) ASSUME((t <= 1 << 24) & (t >= -(1 << 24))); v.push_back(t); x[i] = (double)t; s += x[i]; } s /= (double)n; for (size_t i = 0; i < n; i++) q += (x[i] - s) * (x[i] - s); q /= (double)n;
  BEFORE(std::vector<T> u(n, T(2)); u.push_back(T(5)); susa::var(u); susa::stdv(u); susa::mean(u)); close(susa::var(v), q, 1e-9, "variance"); close(susa::stdv(v), std::sqrt(q), 1e-9, "standard deviation"); if constexpr (!std::is_integral<T>::value) close(susa::mean(v), s, 1e-12, "mean"); for (size_t i = 0; i < n; i++) CHECK((double)v[i] == x[i], "argument unchanged"); REACH("done");
}
// @h h_stat mode=real reach=done
HARNESS h_stat() { stat<double>((size_t)CHOICE("n", 1, NS)); }
// @h h_stat_i mode=real reach=done
HARNESS h_stat_i() { stat<int>((size_t)CHOICE("n", 1, 3)); }
// lengths beyond 128 and 256, one symbolic element
// @h h_ext_v reach=done shards=4
HARNESS h_ext_v() {
  static const int S[][2] = {{66, 1}, {1, 130}, {257, 1}, {130, 2}, {3, 40}, {34, 9}}; const int *q = S[CHOICE("S", 0, 5)]; size_t r = (size_t)q[0], c = (size_t)q[1], n = r == 1 ? c : r, g = r == 1 ? 1 : c; Ref<int, 320> x(r, c); for (size_t i = 0; i < r * c; i++) x.a[i] = (int)(i * 37 % 101) * 3 - 150;
  size_t a = (size_t)CHOICE("at", 0, 3); a = a == 0 ? 0 : a == 1 ? r * c / 2 + 1 : a == 2 ? r * c - 2 : r * c - 1; x.a[a] = sym<int>("x"); auto m = mk(x); bool mx = CHOICE("max", 0, 1); auto k = mx ? susa::max(m) : susa::min(m); CHECK(k.no_rows() == 1 && k.no_cols() == g, "min/max: shape");
  for (size_t j = 0; j < g; j++) { size_t e = k(j); CHECK(e < n, "min/max: an index of the group"); bool ok = true; for (size_t i = 0; i < n; i++) { int p = x.a[j * n + i], v = x.a[j * n + e]; if (mx) ok = ok & (i < e ? p < v : p <= v); else ok = ok & (i < e ? p > v : p >= v); } CHECK(ok, "first index of the extremum"); } REACH("done");
}
// long standard vectors
// @h h_vec_l reach=done
HARNESS h_vec_l() {
  static const int L[] = {9, 17, 33, 66, 130, 257, 300}; size_t n = (size_t)L[CHOICE("L", 0, 6)]; std::vector<int> v; Ref<int, 300> x(1, n); for (size_t i = 0; i < n; i++) { x.a[i] = sym<int>("x"); v.push_back(x.a[i]); } auto d = susa::diff(v); CHECK(d.size() == n - 1, "differences: length"); int s = 0; bool ok = true; for (size_t i = 0; i < n; i++) { if (i + 1 < n) ok = ok & (d[i] == x.a[i + 1] - x.a[i]); ok = ok & (v[i] == x.a[i]); s += x.a[i]; } CHECK(ok, "differences"); CHECK(susa::sum(v) == s, "vector sum"); REACH("done");
}
// @h h_stat_l mode=real reach=done
HARNESS h_stat_l() {
  static const int L[] = {9, 17, 33, 66, 130}; size_t n = (size_t)L[CHOICE("L", 0, 4)]; std::vector<double> v; double s = 0, q = 0; for (size_t i = 0; i < n; i++) { v.push_back(sym<double>("x")); s += v[i]; } s /= (double)n; for (size_t i = 0; i < n; i++) q += (v[i] - s) * (v[i] - s); q /= (double)n; close(susa::mean(v), s, 1e-12, "mean"); close(susa::var(v), q, 1e-9, "variance"); close(susa::stdv(v), std::sqrt(q), 1e-9, "standard deviation"); REACH("done");
}
