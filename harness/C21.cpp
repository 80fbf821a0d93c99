// @bounds 300 int elements of three fixed patterns with one symbolic element at three positions, rows and columns of 2..5 (thorough ..6) elements, int8 and double ones of 2..4, and of 6, 8, 9 (thorough also 17) int elements in five fixed patterns with two (from 8 elements on: one) symbolic elements anywhere, of 16, 33 and 66 int elements in a scrambled order (distinct or with repeats) with one symbolic element at the first, middle, last but one or last place: every int, every 8-bit integer including both extremes, every finite double (IEEE)
#define SYM_CAP 140
#include "sym.h"
#ifdef THOROUGH
#define NV 6
#define LN 3
#else
#define NV 5
#define LN 2
#endif
using susa::matrix;
template <class T> static Ref<T> vec(int lo, int hi) { size_t n = (size_t)CHOICE("n", lo, hi); bool row = CHOICE("row", 0, 1); auto x = row ? symref<T>("x", 1, n) : symref<T>("x", n, 1); if constexpr (std::is_floating_point<T>::value) for (size_t i = 0; i < n; i++) ASSUME(x.a[i] == x.a[i]); return x; }
// longer inputs: a fixed pattern (increasing, decreasing, constant, two-valued, saw-tooth) with two symbolic elements anywhere (one in those of 8 and more)
static int pat(int k, size_t n, size_t i) { switch (k) { case 0: return (int)i * 3 - 7; case 1: return (int)(n - i) * 2; case 2: return 4; case 3: return (i & 2) ? 5 : -1; default: return (int)(i * 5 % 9) - 4; } }
template <class T> static Ref<T> lvec() {
  static const int L[] = {6, 8, 9, 17}; size_t n = (size_t)L[CHOICE("n", 0, LN)]; int k = (int)CHOICE("pattern", 0, 4); bool row = (n + (size_t)k) & 1; Ref<T> x = row ? Ref<T>(1, n) : Ref<T>(n, 1); for (size_t i = 0; i < n; i++) x.a[i] = (T)pat(k, n, i);
  size_t a = (size_t)CHOICE("a", 0, (int)n - 1), b = n < 8 ? (size_t)CHOICE("b", (int)a, (int)n - 1) : a; x.a[a] = sym<T>("x"); x.a[b] = sym<T>("y"); return x;
}
template <class T> static void srt(int hi) {
  auto x = hi ? vec<T>(2, hi) : lvec<T>(); size_t n = x.n(); auto m = mk(x); BEFORE(susa::sort(fixed<T>(1, n)); susa::sort_indices(fixed<T>(n + 1, 1))); auto y = susa::sort(m); eq(m, x, "argument unchanged"); CHECK(y.no_rows() == x.r && y.no_cols() == x.c, "same shape"); if (y.size() != n) return;
  for (size_t i = 0; i + 1 < n; i++) CHECK(y(i) <= y(i + 1), "non-decreasing order");
  for (size_t i = 0; i < n; i++) { int a = 0, b = 0; for (size_t k = 0; k < n; k++) { a += x.a[k] == x.a[i]; b += y(k) == x.a[i]; } CHECK(a == b, "every value as often as in the input"); } REACH("done");
}
// @h h_sort reach=done shards=4
HARNESS h_sort() { srt<int>(NV); }
// @h h_sort8 reach=done shards=4
HARNESS h_sort8() { srt<int8_t>(4); }
// @h h_sort_d mode=ieee reach=done shards=8
HARNESS h_sort_d() { srt<double>(4); }
template <class T> static void idx(int hi) {
  auto x = hi ? vec<T>(2, hi) : lvec<T>(); size_t n = x.n(); auto m = mk(x); if (n < 5) BEFORE(susa::sort_indices(fixed<T>(1, n)); susa::sort(fixed<T>(n + 1, 1))); auto y = susa::sort_indices(m); eq(m, x, "argument unchanged"); CHECK(y.size() == n, "one index per element"); if (y.size() != n) return;
  unsigned seen = 0; for (size_t i = 0; i < n; i++) { unsigned e = y(i); CHECK(e < n, "an index of the input"); CHECK(!((seen >> e) & 1), "a permutation of all positions"); seen |= 1u << e; } for (size_t i = 0; i + 1 < n; i++) CHECK(x.a[y(i)] <= x.a[y(i + 1)], "lists the elements in non-decreasing order"); REACH("done");
}
// @h h_idx reach=done shards=8
HARNESS h_idx() { idx<int>(NV); }
// @h h_idx8 reach=done shards=8
HARNESS h_idx8() { idx<uint8_t>(4); }
// @h h_idx_d mode=ieee reach=done shards=8
HARNESS h_idx_d() { idx<double>(4); }
// @h h_sort_l reach=done shards=8
HARNESS h_sort_l() { srt<int>(0); }
// @h h_idx_l reach=done shards=8
HARNESS h_idx_l() { idx<int>(0); }
// long inputs with one symbolic element: the others, sorted by the harness, with it inserted
// @h h_sort_v reach=done shards=16
HARNESS h_sort_v() {
  static const int L[] = {16, 33, 66}; size_t n = (size_t)L[CHOICE("n", 0, 2)]; bool dup = CHOICE("dup", 0, 1); Ref<int> x = CHOICE("row", 0, 1) ? Ref<int>(1, n) : Ref<int>(n, 1); for (size_t i = 0; i < n; i++) x.a[i] = dup ? (int)(i * 37 % 11) * 2 : (int)(i * 37 % n) * 3 - 40; size_t p = (size_t)CHOICE("p", 0, 3); p = p == 0 ? 0 : p == 1 ? n / 2 : p == 2 ? n - 2 : n - 1;
  int s[140]; size_t k = 0; for (size_t i = 0; i < n; i++) if (i != p) { size_t j = k++; for (; j && s[j - 1] > x.a[i]; j--) s[j] = s[j - 1]; s[j] = x.a[i]; } int v = sym<int>("x"); x.a[p] = v; auto m = mk(x); bool ok = true;
  if (CHOICE("indices", 0, 1)) { auto y = susa::sort_indices(m); CHECK(y.size() == n, "one index per element"); if (y.size() != n) return; static bool seen[140]; for (size_t i = 0; i < n; i++) seen[i] = false; for (size_t i = 0; i < n; i++) { unsigned e = y(i); CHECK(e < n, "an index of the input"); CHECK(!seen[e], "a permutation of all positions"); seen[e] = true; } for (size_t i = 0; i + 1 < n; i++) ok = ok & (x.a[y(i)] <= x.a[y(i + 1)]); CHECK(ok, "lists the elements in non-decreasing order"); }
  else { auto y = susa::sort(m); CHECK(y.no_rows() == x.r && y.no_cols() == x.c, "same shape"); if (y.size() != n) return; for (size_t i = 0; i < n; i++) { bool lo = i ? v <= s[i - 1] : false, hi = i < n - 1 ? v > s[i] : false; ok = ok & ((lo & (i ? y(i) == s[i - 1] : true)) | (hi & (i < n - 1 ? y(i) == s[i] : true)) | (!lo & !hi & (y(i) == v))); } CHECK(ok, "non-decreasing order, every value as often as in the input"); }
  eq(m, x, "argument unchanged"); REACH("done");
}
// more than 256 elements: a non-decreasing base with one symbolic element anywhere
// @h h_sort_w reach=done shards=8
HARNESS h_sort_w() {
  const size_t n = 300; int k = (int)CHOICE("base", 0, 2); size_t p = (size_t)CHOICE("p", 0, 2) * 140 + 10; Ref<int, 300> x(n, 1); for (size_t i = 0; i < n; i++) x.a[i] = k == 0 ? 4 : k == 1 ? (i >= 258 ? -3 : 7) : (int)(i / 100) * 5; int v = sym<int>("x"); x.a[p] = v; auto m = mk(x);
  int s[300]; size_t c = 0; for (size_t i = 0; i < n; i++) if (i != p) { size_t j = c++; for (; j && s[j - 1] > x.a[i]; j--) s[j] = s[j - 1]; s[j] = x.a[i]; } bool ok = true;
  if (CHOICE("indices", 0, 1)) { auto y = susa::sort_indices(m); CHECK(y.size() == n, "one index per element"); if (y.size() != n) return; static bool seen[300]; for (size_t i = 0; i < n; i++) seen[i] = false; for (size_t i = 0; i < n; i++) { unsigned e = y(i); CHECK(e < n, "an index of the input"); CHECK(!seen[e], "a permutation of all positions"); seen[e] = true; } for (size_t i = 0; i + 1 < n; i++) ok = ok & (x.a[y(i)] <= x.a[y(i + 1)]); CHECK(ok, "lists the elements in non-decreasing order"); }
  else { auto y = susa::sort(m); CHECK(y.size() == n, "same size"); if (y.size() != n) return; for (size_t i = 0; i < n; i++) { bool lo = i ? v <= s[i - 1] : false, hi = i < n - 1 ? v > s[i] : false; ok = ok & ((lo & (i ? y(i) == s[i - 1] : true)) | (hi & (i < n - 1 ? y(i) == s[i] : true)) | (!lo & !hi & (y(i) == v))); } CHECK(ok, "non-decreasing order, every value as often as in the input"); }
  REACH("done");
}
