// @bounds two blocks of 0..4 objects (int, 24-byte struct), every history of 3 (quick) / 4 (thorough) operations from resize to 0..4, release, copy, copy-assign, self-assign, move, write, with symbolic contents; a block of 33 bytes resized to 0..40 and five of up to 300 bytes resized to up to 290, with copies; blocks of 70000 bytes and 72000 bytes of structs with eight symbolic places, copied, assigned, moved, grown and cut
#include "sym.h"
#ifdef THOROUGH
#define STEPS 4
#else
#define STEPS 3
#endif
template <class T> struct Mem : public susa::memory<T> {
  Mem() {} Mem(const Mem &o) : susa::memory<T>(o) {} Mem(Mem &&o) noexcept : susa::memory<T>(std::move(o)) {} Mem &operator=(const Mem &o) { susa::memory<T>::operator=(o); return *this; }
  void alloc(size_t n) { this->allocate(n); } void release() { this->deallocate(); } T &at(size_t i) { return this->_matrix[i]; } size_t bytes() { return this->sizet_bytes; } T *ptr() { return this->_matrix; }
};
struct Big { int a; double pad; int b; };
template <class T> struct V { static void put(T &t, int v) { t = v; } static int get(T &t) { return t; } };
template <> struct V<Big> { static void put(Big &t, int v) { t.a = v; t.pad = 0; t.b = ~v; } static int get(Big &t) { return t.b == ~t.a ? t.a : t.a + 1; } };
struct Md { bool known; size_t n; int v[5]; bool def[5]; };
template <class T> static void verify(Mem<T> &x, Md &m, const char *msg) {
  if (!m.known) return; CHECK(x.size() == m.n, "reported size"); if (x.size() != m.n) return; CHECK(x.bytes() == m.n * sizeof(T), "reported bytes"); CHECK((x.ptr() != nullptr) == (m.n != 0), "storage exactly for a non-empty block");
  for (size_t k = 0; k < m.n; k++) if (m.def[k]) CHECK(V<T>::get(x.at(k)) == m.v[k], msg);
}
template <class T> static void fill(Mem<T> &x, Md &m) { for (size_t k = 0; k < m.n; k++) { m.v[k] = sym<int>("x"); m.def[k] = true; V<T>::put(x.at(k), m.v[k]); } }
template <class T> static void hist(int steps) {
  uint64_t live0 = __sym_heap_live(); { Mem<T> *p[2]; Md m[2];
  for (int j = 0; j < 2; j++) { p[j] = new Mem<T>; m[j].known = true; for (auto &d : m[j].def) d = false; m[j].n = (size_t)CHOICE(j ? "n1" : "n0", 0, j ? 3 : 2); p[j]->alloc(m[j].n); verify(*p[j], m[j], "initial"); fill(*p[j], m[j]); }
  for (int s = 0; s < steps; s++) {
    int op = (int)CHOICE("op", 0, 6), i = (int)CHOICE("i", 0, 1), j = 1 - i; if ((op == 1 || op == 2 || op == 3) && !m[j].known) { ASSUME(false); } if ((op == 0 || op == 4 || op == 6) && !m[i].known) { ASSUME(false); }
    switch (op) {
    case 0: { size_t n = (size_t)CHOICE("n", 0, 4); p[i]->alloc(n); for (size_t k = m[i].n; k < n; k++) m[i].def[k] = false; m[i].n = n; verify(*p[i], m[i], "resizing keeps the common prefix"); for (size_t k = 0; k < n; k++) if (!m[i].def[k]) { m[i].v[k] = sym<int>("y"); m[i].def[k] = true; V<T>::put(p[i]->at(k), m[i].v[k]); } break; }
    case 1: *p[i] = *p[j]; m[i] = m[j]; break;
    case 2: delete p[i]; p[i] = new Mem<T>(*p[j]); m[i] = m[j]; break;
    case 3: delete p[i]; p[i] = new Mem<T>(std::move(*p[j])); m[i] = m[j]; m[j].n = 0; break;
    case 4: { Mem<T> &r = *p[i]; *p[i] = r; break; }
    case 5: p[i]->release(); m[i].known = true; m[i].n = 0; break;
    default: { if (!m[i].n) { ASSUME(false); } size_t k = (size_t)CHOICE("k", 0, 3); ASSUME(k < m[i].n); int v = sym<int>("w"); V<T>::put(p[i]->at(k), v); m[i].v[k] = v; }
    }
    for (int q = 0; q < 2; q++) verify(*p[q], m[q], "every block keeps its own contents");
  }
  delete p[0]; delete p[1]; } CHECK(__sym_heap_live() == live0, "every block is released exactly once"); REACH("done");
}
// @h h_int reach=done shards=16 t_timeout=1800
HARNESS h_int() { hist<int>(STEPS); }
// @h h_big reach=done shards=8
HARNESS h_big() { hist<Big>(2); }
// long blocks
// @h h_long reach=done
HARNESS h_long() { static const int L[][2] = {{33, 17}, {64, 65}, {130, 129}, {300, 257}, {5, 290}, {256, 16}}; int s = (int)CHOICE("s", 0, 46); Mem<uint8_t> a; size_t n = s < 41 ? 33 : (size_t)L[s - 41][0], k = s < 41 ? (size_t)s : (size_t)L[s - 41][1]; a.alloc(n); uint8_t v[300]; for (size_t i = 0; i < n; i++) { v[i] = sym<uint8_t>("v"); a.at(i) = v[i]; } Mem<uint8_t> b(a), c; c.alloc(5); c = a; a.alloc(k); CHECK(a.size() == k && b.size() == n && c.size() == n, "sizes"); for (size_t i = 0; i < n; i++) { CHECK(b.at(i) == v[i] && c.at(i) == v[i], "copies"); if (i < k) CHECK(a.at(i) == v[i], "common prefix"); } REACH("done"); }
// blocks beyond 64 KiB
template <class T> static void huge(size_t n) {
  uint64_t live0 = __sym_heap_live(); { size_t at[8] = {0, 1, n / 3, n / 2, 65535 % n, 65536 % n, n - 2, n - 1}; int v[8]; Mem<T> a; a.alloc(n); for (size_t i = 0; i < n; i++) V<T>::put(a.at(i), (int)(i % 101)); for (int q = 0; q < 8; q++) { v[q] = sym<uint8_t>("v"); V<T>::put(a.at(at[q]), v[q]); }
  Mem<T> b(a), c; c.alloc(7); c = a; Mem<T> d(std::move(b)); b = d; bool ok = (a.size() == n) & (b.size() == n) & (c.size() == n) & (d.size() == n) & (a.bytes() == n * sizeof(T)); CHECK(ok, "sizes of large blocks");
  a.alloc(2 * n); CHECK(a.size() == 2 * n && a.bytes() == 2 * n * sizeof(T), "grown"); V<T>::put(a.at(2 * n - 1), 5); d.alloc(n / 2 + 1);
  for (size_t i = 0; i < n; i += 37) { bool sp = false; for (size_t k : at) sp |= k == i; int e = (int)(i % 101); if (!sp) ok = ok & (V<T>::get(a.at(i)) == e) & (V<T>::get(b.at(i)) == e) & (V<T>::get(c.at(i)) == e) & (i > n / 2 || V<T>::get(d.at(i)) == e); }
  for (int q = 0; q < 8; q++) { int e = v[q]; for (int p = q; p < 8; p++) if (at[p] == at[q]) e = v[p]; ok = ok & (V<T>::get(a.at(at[q])) == e) & (V<T>::get(b.at(at[q])) == e) & (V<T>::get(c.at(at[q])) == e) & (at[q] > n / 2 || V<T>::get(d.at(at[q])) == e); } CHECK(ok, "large blocks keep their contents"); }
  CHECK(__sym_heap_live() == live0, "every block is released exactly once"); REACH("done");
}
// @h h_huge reach=done shards=2
HARNESS h_huge() { if (CHOICE("big", 0, 1)) huge<Big>(3000); else huge<uint8_t>(70000); }
