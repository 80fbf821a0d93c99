// @bounds 300 elements with one symbolic element at five positions, rows and columns of 2..4 (thorough ..5) elements, selection also of 5 and of 6 and 8 (thorough also 9) elements in five fixed patterns with two (from 8 elements on: one) symbolic elements anywhere, lookups also of up to 70 elements with at most two matches anywhere; every k from 1 to their number, index lists of up to 4 entries in any order (repeats included): every int and 8-bit integer, doubles (IEEE) up to 3 elements; lookups of every key
#define SYM_CAP 140
#include "sym.h"
#ifdef THOROUGH
#define NV 5
#define LN 2
#else
#define NV 4
#define LN 1
#endif
using susa::matrix;
template <class T> static Ref<T> vec(int lo, int hi) { size_t n = (size_t)CHOICE("n", lo, hi); bool row = CHOICE("row", 0, 1); auto x = row ? symref<T>("x", 1, n) : symref<T>("x", n, 1); if constexpr (std::is_floating_point<T>::value) for (size_t i = 0; i < n; i++) ASSUME(x.a[i] == x.a[i]); return x; }
// longer inputs: a fixed pattern (increasing, decreasing, constant, two-valued, saw-tooth) with two symbolic elements anywhere (one in those of 8 and more)
static int pat(int k, size_t n, size_t i) { switch (k) { case 0: return (int)i * 3 - 7; case 1: return (int)(n - i) * 2; case 2: return 4; case 3: return (i & 2) ? 5 : -1; default: return (int)(i * 5 % 9) - 4; } }
template <class T> static Ref<T> lvec() {
  static const int L[] = {6, 8, 9, 17}; size_t n = (size_t)L[CHOICE("n", 0, LN)]; int k = (int)CHOICE("pattern", 0, 4); bool row = (n + (size_t)k) & 1; Ref<T> x = row ? Ref<T>(1, n) : Ref<T>(n, 1); for (size_t i = 0; i < n; i++) x.a[i] = (T)pat(k, n, i);
  size_t a = (size_t)CHOICE("a", 0, (int)n - 1), b = n < 8 ? (size_t)CHOICE("b", (int)a, (int)n - 1) : a; x.a[a] = sym<T>("x"); x.a[b] = sym<T>("y"); return x;
}
// y lists k distinct indices of the k least (most) among the allowed
template <class T> static void sel(const matrix<unsigned> &y, const Ref<T> &x, unsigned k, unsigned allowed, bool most) {
  size_t n = x.n(); CHECK(y.size() == k, "k indices"); if (y.size() != k) return; unsigned seen = 0; for (unsigned i = 0; i < k; i++) { unsigned e = y(i); CHECK(e < n, "an index of the input"); CHECK((allowed >> e) & 1, "an allowed index"); CHECK(!((seen >> e) & 1), "distinct indices"); seen |= 1u << e; if (i) { T p = x.a[y(i - 1)], q = x.a[e]; if (most) CHECK(p >= q, "in order"); else CHECK(p <= q, "in order"); } }
  T last = x.a[y(k - 1)]; for (size_t j = 0; j < n; j++) if (((allowed >> j) & 1) && !((seen >> j) & 1)) { if (most) CHECK(x.a[j] <= last, "no larger element is left out"); else CHECK(x.a[j] >= last, "no smaller element is left out"); } REACH("done");
}
template <class T> static void select(int hi) { auto x = hi ? vec<T>(2, hi) : lvec<T>(); auto m = mk(x); unsigned k = (unsigned)CHOICE("k", 1, (int)x.n()); bool most = CHOICE("most", 0, 1); if (hi) BEFORE(auto u = fixed<T>(1, x.n()), v = fixed<T>(x.n() + 1, 1); susa::select_most(u, k); susa::select_least(v, k)); sel(most ? susa::select_most(m, k) : susa::select_least(m, k), x, k, ~0u, most); eq(m, x, "argument unchanged"); }
// @h h_select reach=done shards=8
HARNESS h_select() { select<int>(NV); }
// @h h_select8 reach=done shards=8
HARNESS h_select8() { select<uint8_t>(NV); }
// @h h_select_d mode=ieee reach=done shards=8
HARNESS h_select_d() { select<double>(NV - 1); }
template <class T> static void limited(int hi) {
  auto x = vec<T>(2, hi); size_t n = x.n(); auto m = mk(x); size_t c = (size_t)CHOICE("entries", 1, 3); Ref<unsigned> l(c, 1); unsigned al = 0; for (size_t i = 0; i < c; i++) { l.a[i] = (unsigned)CHOICE("index", 0, (int)n - 1); al |= 1u << l.a[i]; } unsigned d = 0; for (size_t i = 0; i < n; i++) d += (al >> i) & 1; auto ml = mk(l); unsigned k = (unsigned)CHOICE("k", 1, (int)d);
  sel(susa::select_limited_least(m, ml, k), x, k, al, false); eq(m, x, "argument unchanged"); eq(ml, l, "index list unchanged");
}
// @h h_limited reach=done shards=8
HARNESS h_limited() { limited<int>(NV); }
// @h h_limited8 reach=done shards=8 tier=thorough
HARNESS h_limited8() { limited<int8_t>(NV); }
template <class T> static void lookup(int hi) { auto x = hi ? vec<T>(2, hi) : lvec<T>(); size_t n = x.n(); auto m = mk(x); T key = sym<T>("key"); BEFORE(auto u = fixed<T>(1, n), v = fixed<T>(n + 1, 1); T k1 = T(1), k2 = T(2); susa::find(u, k1); susa::find(v, k2)); auto s = susa::find(m, key); bool any = false; for (size_t i = 0; i < n; i++) { bool h = x.a[i] == key; CHECK(s.exists(i) == h, "exactly the indices whose element equals the key"); any = any | h; } CHECK(s.any() == any, "no other index"); eq(m, x, "argument unchanged"); REACH("done"); }
// @h h_find reach=done shards=4
HARNESS h_find() { lookup<int>(NV + 1); }
// @h h_find_d mode=ieee reach=done shards=4
HARNESS h_find_d() { lookup<double>(NV - 1); }
// more than there are: refused
// @h h_refuse
HARNESS h_refuse() { auto x = vec<int>(2, 3); auto m = mk(x); unsigned k = (unsigned)CHOICE("k", 1, 6); int w = (int)CHOICE("which", 0, 1); MUST_ABORT_IF(k > x.n(), w ? susa::select_most(m, k) : susa::select_least(m, k), "selecting more elements than there are must be refused"); }
// @h h_select5 reach=done shards=8
HARNESS h_select5() { auto x = symref<int>("x", 5, 1); auto m = mk(x); unsigned k = (unsigned)CHOICE("k", 1, 5); bool most = CHOICE("most", 0, 1); sel(most ? susa::select_most(m, k) : susa::select_least(m, k), x, k, ~0u, most); }
// @h h_select_l reach=done shards=8
HARNESS h_select_l() { select<int>(0); }
// @h h_limited_l reach=done shards=8
HARNESS h_limited_l() {
  auto x = lvec<int>(); size_t n = x.n(); auto m = mk(x); static const int I[][5] = {{5, 3, 1, 0, 4}, {0, 1, 2, 3, 4}, {5, 0, 5, 2, 2}, {4, 4, 1, 5, 3}}; const int *q = I[CHOICE("list", 0, 3)]; Ref<unsigned> l(1, 5); unsigned al = 0, d = 0; for (size_t i = 0; i < 5; i++) { l.a[i] = (unsigned)q[i]; al |= 1u << q[i]; } for (size_t i = 0; i < n; i++) d += (al >> i) & 1; auto ml = mk(l); unsigned k = (unsigned)CHOICE("k", 1, (int)d); sel(susa::select_limited_least(m, ml, k), x, k, al, false); eq(m, x, "argument unchanged"); eq(ml, l, "index list unchanged");
}
// @h h_find_l reach=done shards=4
HARNESS h_find_l() { lookup<int>(0); }
// @h h_find_n reach=done shards=4
HARNESS h_find_n() { // any elements, longer inputs: at most two equal the key
  static const int L[] = {8, 9, 16, 17, 33, 70}; size_t n = (size_t)L[CHOICE("n", 0, 5)], h = (size_t)CHOICE("hit", 0, (int)n), g = (size_t)CHOICE("second", 0, (int)n); ASSUME(g >= h); if (n == 70) { ASSUME((h < 2) | (h == 33) | (h > 62)); ASSUME((g < 2) | (g == 33) | (g > 62)); ASSUME((h + g) % 3 == 1); } auto x = CHOICE("row", 0, 1) ? symref<int>("x", 1, n) : symref<int>("x", n, 1); int key = sym<int>("key"); for (size_t i = 0; i < n; i++) ASSUME((x.a[i] == key) == ((i == h) | (i == g))); auto s = susa::find(mk(x), key); for (size_t i = 0; i < n; i++) CHECK(s.exists(i) == ((i == h) | (i == g)), "exactly the indices whose element equals the key"); CHECK(s.any() == (h < n), "no other index"); REACH("done");
}
// long inputs, distinct elements in an arbitrary-looking order with one symbolic element: the least and the most
// @h h_select_v reach=done shards=8
HARNESS h_select_v() {
  static const int L[] = {16, 33, 65, 130}; size_t n = (size_t)L[CHOICE("n", 0, 3)]; Ref<int> x = CHOICE("row", 0, 1) ? Ref<int>(1, n) : Ref<int>(n, 1); for (size_t i = 0; i < n; i++) x.a[i] = (int)(i * 37 % n) * 3 - 40; size_t p = (size_t)CHOICE("p", 0, 3); p = p == 0 ? 0 : p == 1 ? n / 2 : p == 2 ? n - 2 : n - 1; x.a[p] = sym<int>("x");
  unsigned k = (unsigned)CHOICE("k", 1, 3); bool most = CHOICE("most", 0, 1); auto m = mk(x); auto y = most ? susa::select_most(m, k) : susa::select_least(m, k); CHECK(y.size() == k, "k indices"); if (y.size() != k) return;
  bool ok = true; for (unsigned i = 0; i < k; i++) { ok = ok & (y(i) < n); for (unsigned j = 0; j < i; j++) ok = ok & (y(i) != y(j)); } CHECK(ok, "distinct indices of the input");
  for (unsigned i = 1; i < k; i++) { int p = x.a[y(i - 1)], q = x.a[y(i)]; ok = ok & (most ? p >= q : p <= q); } int last = x.a[y(k - 1)]; for (size_t j = 0; j < n; j++) { bool in = false; for (unsigned i = 0; i < k; i++) in = in | (y(i) == j); ok = ok & (in | (most ? x.a[j] <= last : x.a[j] >= last)); } CHECK(ok, "in order, and no better element is left out"); eq(m, x, "argument unchanged"); REACH("done");
}
// indices beyond eight bits
// @h h_far reach=done shards=4
HARNESS h_far() {
  static const int P[] = {3, 255, 256, 259, 299}; const size_t n = 300; size_t p = (size_t)P[CHOICE("p", 0, 4)]; int w = (int)CHOICE("what", 0, 3); Ref<int, 300> x(1, n); for (size_t i = 0; i < n; i++) x.a[i] = (int)(i % 5); int v = sym<int>("v"); x.a[p] = v; auto m = mk(x); bool ok = true;
  if (w == 0) { int key = sym<int>("key"); ASSUME((key < 0) | (key > 4)); auto s = susa::find(m, key); for (size_t i = 0; i < n; i++) ok = ok & (s.exists(i) == ((i == p) & (v == key))); CHECK(ok, "exactly the indices whose element equals the key"); CHECK(s.any() == (v == key), "no other index"); }
  else if (w == 1) { ASSUME(v < 0); auto y = susa::select_least(m, 2); CHECK(y.size() == 2 && y(0) == p && y(1) < n && y(1) != p && y(1) % 5 == 0, "the two least"); }
  else if (w == 2) { ASSUME(v > 4); auto y = susa::select_most(m, 2); CHECK(y.size() == 2 && y(0) == p && y(1) < n && y(1) != p && y(1) % 5 == 4, "the two most"); }
  else { ASSUME(v < 0); Ref<unsigned> l(3, 1); l.a[0] = 9; l.a[1] = (unsigned)p; l.a[2] = 270; auto y = susa::select_limited_least(m, mk(l), 2); CHECK(y.size() == 2 && y(0) == p && y(1) == 270, "the two least of those allowed"); } REACH("done");
}
