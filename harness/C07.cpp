// @bounds set sizes 0..19 (quick) / 0..40 (thorough); every sequence of 3 (quick) / 4 (thorough) operations from insert, push, remove, pop, fill-all, clear-all with symbolic 64-bit indices, from an arbitrary initial membership, on a set or on a copy of it; sets of up to 530000 elements with one member; eight larger sets of 63..257 bits, one operation from a membership with twelve symbolic bits (word boundaries included), with a copy
#include "sym.h"
#ifdef THOROUGH
#define MS 40
#define STEPS 4
#else
#define MS 19
#define STEPS 3
#endif
using susa::bitset;
static uint64_t bit(uint64_t i, uint64_t n) { return i < n ? (uint64_t)1 << (i & 63) : 0; }
static void verify(bitset &b, uint64_t m, uint64_t n, const char *msg) { uint64_t q = sym<uint64_t>("q"); CHECK(b.exists(q) == ((m & bit(q, n)) != 0), msg); CHECK(b.any() == (m != 0), "any()"); for (uint64_t k = 0; k < n + 9; k++) CHECK(b.exists(k) == ((m & bit(k, n)) != 0), msg); }
static void start(bitset &b, uint64_t &m, uint64_t n) { uint64_t init = sym<uint64_t>("init"); for (uint64_t k = 0; k < n; k++) { if ((init >> k) & 1) b.set(k); } m = n ? init & (~(uint64_t)0 >> (64 - n)) : 0; }
static void oper(bitset &b, uint64_t &m, uint64_t n) {
  int op = (int)CHOICE("op", 0, 5); uint64_t i = op < 3 ? sym<uint64_t>("i") : 0; uint64_t all = n ? ~(uint64_t)0 >> (64 - n) : 0;
  switch (op) { case 0: b.set(i); m |= bit(i, n); break; case 1: b.push(i); m |= bit(i, n); break; case 2: b.reset(i); m &= ~bit(i, n); break;
  case 3: { uint64_t least = n; for (uint64_t k = n; k-- > 0;) least = (m >> k) & 1 ? k : least; uint64_t g = b.pop(); CHECK(g == least, "pop returns the least member, or the size"); m &= ~bit(least, n); break; }
  case 4: b.set(); m = all; break; default: b.reset(); m = 0; break; }
}
// @h h_hist reach=done merge=1 shards=16 timeout=200 t_timeout=2000
HARNESS h_hist() {
  uint64_t live0 = __sym_heap_live(); { uint64_t n = (uint64_t)CHOICE("n", 0, MS), m; bitset b(n); verify(b, 0, n, "a new set is empty"); start(b, m, n); for (int s = 0; s < STEPS; s++) oper(b, m, n); verify(b, m, n, "membership"); }
  CHECK(__sym_heap_live() == live0, "released"); REACH("done");
}
// @h h_copy reach=done merge=1 shards=8
HARNESS h_copy() {
  uint64_t live0 = __sym_heap_live(); { uint64_t n = (uint64_t)CHOICE("n", 1, 17), m, m2; bitset b(n); start(b, m, n); bool asg = CHOICE("assign", 0, 1); bitset d(n); if (asg) d = b; bitset e(b); bitset &c = asg ? d : e; m2 = m; b = b; oper(b, m, n); verify(c, m2, n, "a copy is independent"); oper(c, m2, n); verify(b, m, n, "the original is independent"); verify(c, m2, n, "membership of the copy"); }
  CHECK(__sym_heap_live() == live0, "released"); REACH("done");
}
// assignment between sets of different sizes
// @h h_assign reach=done merge=1 shards=4
HARNESS h_assign() { uint64_t n = (uint64_t)CHOICE("n", 1, 17), n2 = (uint64_t)CHOICE("n2", 1, 3) * 7, m, m2; bitset b(n), c(n2); start(b, m, n); start(c, m2, n2); c = b; m2 = m; oper(c, m2, n); verify(c, m2, n, "assigned set"); verify(b, m, n, "source unchanged"); REACH("done"); }
// larger sets: one operation from an arbitrary membership
// @h h_large reach=done merge=1 shards=4
HARNESS h_large() { uint64_t n = CHOICE("n", 0, 1) ? 64 : 33, m; bitset b(n); start(b, m, n); oper(b, m, n); verify(b, m, n, "membership"); REACH("done"); }
// sets of several words: one operation from an arbitrary membership, the set or a copy of it
// @h h_wide reach=done merge=1 shards=8
HARNESS h_wide() {
  static const int L[] = {63, 65, 100, 128, 129, 130, 256, 257}; const size_t n = (size_t)L[CHOICE("n", 0, 7)]; bool m[260]; bitset b0(n); for (size_t k = 0; k < n; k++) { m[k] = k % 7 == 3; if (m[k]) b0.set(k); }
  static const int at[] = {0, 1, 31, 32, 62, 63, 64, 65, 127, 128, 255, 256}; for (int a : at) if ((size_t)a < n) { bool v = sym<bool>("member"); m[a] = v; if (v) b0.set((size_t)a); else b0.reset((size_t)a); }
  bitset b(b0); int op = (int)CHOICE("op", 0, 5); uint64_t i = op < 3 ? sym<uint64_t>("i") : 0;
  switch (op) { case 0: b.set(i); break; case 1: b.push(i); break; case 2: b.reset(i); break; case 3: { uint64_t least = n; for (size_t k = n; k-- > 0;) least = m[k] ? k : least; uint64_t g = b.pop(); CHECK(g == least, "pop returns the least member, or the size"); i = least; break; } case 4: b.set(); break; default: b.reset(); break; }
  bool ok = true, all = true, any = false; for (size_t k = 0; k < n; k++) { all = all & (b0.exists(k) == m[k]); bool e = m[k]; if (op < 2) e = e | (i == k); else if (op < 4) e = e & (i != k); else e = op == 4; ok = ok & (b.exists(k) == e); any = any | e; }
  CHECK(all, "the original is independent"); CHECK(ok, "membership"); CHECK(b.any() == any, "any()"); CHECK(!b.exists(n) & !b.exists(n + 1) & !b.exists(n + 70), "no index at or above the size"); REACH("done");
}
// sets of thousands of elements: one member, inserted and removed
// @h h_far reach=done shards=4
HARNESS h_far() {
  static const int N[] = {300, 2049, 3000, 70000, 530000}, I[] = {5, 255, 256, 263, 299, 2047, 2048, 2053, 2999, 65535, 65536, 69999, 524288, 524293, 529999}; size_t n = (size_t)N[CHOICE("n", 0, 4)], i = (size_t)I[CHOICE("i", 0, 14)]; ASSUME(i < n); bitset b(n); bool v = sym<bool>("member"); if (v) b.set(i);
  bool ok = true; for (int k : I) ok = ok & (b.exists((size_t)k) == (v & ((size_t)k == i))); for (size_t d : {1, 7, 8, 256, 2048, 65536, 524288}) ok = ok & !b.exists(i + d) & (d > i || !b.exists(i - d)); CHECK(ok, "membership"); CHECK(b.any() == v, "any()"); if (n <= 3000) { bitset c(b); CHECK(c.pop() == (v ? i : n), "pop returns the least member, or the size"); CHECK(!c.any(), "and removes it"); }
  b.reset(i); CHECK(!b.any() & !b.exists(i), "removed"); if (n <= 3000) { b.set(); ok = true; for (size_t k = 0; k < n; k++) ok = ok & b.exists(k); CHECK(ok & !b.exists(n), "fill-all"); b.reset(i); ok = true; for (size_t k = 0; k < n; k++) ok = ok & (b.exists(k) == (k != i)); CHECK(ok, "all but one"); } REACH("done");
}
