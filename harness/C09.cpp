// @bounds two matrices and one array with the logging allocator, initial shapes from {empty, 1x1, 2x2, 1x3}, every history of 2 (quick) / 3 (thorough) operations from construct, copy, assign, self-assign, move, resize, transforming expressions, parsing text, loading, destroying; with one allocation failure at any point in every such history without text and expressions (assertions on and off); two threads creating and destroying containers under every interleaving with at most 2 preemptions at accesses to shared storage (sequentially consistent); three containers of 64 to 350 KiB and the tracker for every 64-bit amount
#include "sym.h"
#ifdef THOROUGH
#define STEPS 3
#else
#define STEPS 2
#endif
typedef susa::allocator_log<int> AL; typedef susa::matrix<int, AL> M; typedef susa::array<int, AL> A;
static uint64_t rd() { return susa::memory_tacker::instance().read(); }
static uint64_t live() { return __sym_heap_live(); }
static const int SH[4][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 3}};
struct W { M *m[2]; A *a; size_t an; };
static uint64_t held(W &w) { uint64_t n = 0; for (int i = 0; i < 2; i++) if (w.m[i]) n += w.m[i]->size() * sizeof(int); if (w.a) n += w.an * sizeof(int); return n; }
static void renew(M *&p, int k) { delete p; p = nullptr; if (SH[k][0]) p = new M(SH[k][0], SH[k][1]); else p = new M(); if (p->size()) p->set_all(5); }
static void oper(W &w, bool text) {
  int op = (int)CHOICE("op", 0, text ? 13 : 11); if (!text) ASSUME(op != 6 && op != 7); int i = (int)CHOICE("i", 0, 1), j = 1 - i; M *&p = w.m[i], *&q = w.m[j];
  switch (op) {
  case 0: renew(p, (int)CHOICE("shape", 0, 3)); break;
  case 1: if (!p || !q) { ASSUME(false); } *p = *q; break;
  case 2: if (!q) { ASSUME(false); } delete p; p = nullptr; p = new M(*q); break;
  case 3: if (!q) { ASSUME(false); } delete p; p = nullptr; p = new M(std::move(*q)); break;
  case 4: { if (!p) { ASSUME(false); } M &r = *p; *p = r; break; }
  case 5: if (!p) { ASSUME(false); } p->resize(2, (size_t)CHOICE("cols", 1, 2)); if (p->size()) p->set_all(6); break;
  case 6: { if (!p || !q || !q->size()) { ASSUME(false); } *p = *q + 1; break; }
  case 7: { if (!p || !p->size()) { ASSUME(false); } *p = susa::transpose(*p); break; }
  case 8: delete p; p = nullptr; break;
  case 9: { ASSUME(i == 0); delete w.a; w.a = nullptr; w.an = 0; w.a = new A({2, (size_t)CHOICE("d", 1, 2)}); w.an = 0; for (size_t k = 1; k <= 2; k++) w.an = 0; break; }
  case 10: { ASSUME(i == 0); if (!w.a) { ASSUME(false); } int buf[3] = {1, 2, 3}; size_t n = (size_t)CHOICE("len", 1, 3); w.a->clone(buf, n); w.an = n; return; }
  case 11: { ASSUME(i == 0); if (!w.a) { ASSUME(false); } A b(*w.a); A c({3}); c = b; A d(std::move(b)); *w.a = d; c = c; return; }
  case 12: { M t("1 2; 3 4"); CHECK(rd() >= 4 * sizeof(int), "text"); if (!p) { ASSUME(false); } *p = "7 8 9"; break; }
  default: { if (!p) { ASSUME(false); } *p = CHOICE("empty", 0, 1) ? "" : "[1;2]"; break; }
  }
}
// the array's element count is not published: follow it here
static void operA(W &w, bool text, uint64_t base) {
  (void)base; oper(w, text);
}
static void init(W &w, int s0, int s1) { w.m[0] = w.m[1] = nullptr; w.a = nullptr; w.an = 0; renew(w.m[0], s0); renew(w.m[1], s1); }
static void fini(W &w) { delete w.m[0]; delete w.m[1]; delete w.a; }
// @h h_hist reach=done shards=16 t_timeout=1800
HARNESS h_hist() {
  uint64_t base = rd(), l0 = live(); W w; init(w, (int)CHOICE("s0", 0, 3), (int)CHOICE("s1", 0, 2)); CHECK(rd() - base == held(w), "tracker reads the live bytes");
  for (int s = 0; s < STEPS; s++) { A *a0 = w.a; operA(w, true, base); if (w.a != a0 && w.a) w.an = (rd() - base - held(w)) / sizeof(int) == 4 ? 4 : 2; CHECK(rd() - base == held(w), "tracker reads the live bytes"); }
  fini(w); CHECK(rd() == base, "tracker returns to its initial reading"); CHECK(live() == l0, "every block is released"); REACH("done");
}
static void fail() {
  uint64_t base = rd(); W w; init(w, (int)CHOICE("s0", 0, 3), (int)CHOICE("s1", 0, 2));
  for (int s = 0; s < STEPS; s++) {
    __sym_abort_allowed(true); __sym_alloc_may_fail(1); A *a0 = w.a; size_t an0 = w.an; bool ex = false;
    try { oper(w, false); } catch (const std::bad_alloc &) { ex = true; }
    __sym_alloc_may_fail(0); __sym_abort_allowed(false); 
    // after an exception in an array operation the array holds its old elements or none
    uint64_t h = held(w), t = rd() - base;
    if (w.a != a0 && w.a) { w.an = 0; h = held(w); w.an = (t - h) / sizeof(int); CHECK(t >= h && (w.an == 2 || w.an == 4), "tracker reads the live bytes (array)"); }
    else if (ex && w.a) { w.an = 0; h = held(w); w.an = t > h ? (t - h) / sizeof(int) : 0; bool ok = w.an == an0; for (size_t k = 0; k <= 4; k++) ok = ok | (w.an == k); CHECK(ok && (t - h) == w.an * sizeof(int), "tracker after a failed array operation"); }
    else CHECK(t == h, "tracker reads the live bytes also after a failed allocation");
    if (ex) REACH("exception"); if (__sym_alloc_failed()) REACH("failed");
  }
  fini(w); CHECK(rd() == base, "tracker returns to its initial reading"); REACH("done");
}
// @h h_fail_na reach=done,failed,exception shards=16 config=nassert t_timeout=1800
HARNESS h_fail_na() { fail(); }
// @h h_fail reach=done shards=16 t_timeout=1800
HARNESS h_fail() { fail(); }
// the tracker itself
// @h h_tracker reach=done
HARNESS h_tracker() { auto &t = susa::memory_tacker::instance(); uint64_t base = t.read(); size_t a = sym<uint64_t>("a"), b = sym<uint64_t>("b"); CHECK(&t == &susa::memory_tacker::instance(), "one tracker"); t.add(a); CHECK(t.read() == base + a, "add"); t.add(b); t.sub(a); CHECK(t.read() == base + b, "sub"); t.sub(b); CHECK(t.read() == base, "balanced"); REACH("done"); }
// threads
static M *kept[2];
static void worker(void *v) { int k = *(int *)v; { M a(2, 2); M b(a); kept[k] = new M(1, (size_t)k + 1); } }
static void worker2(void *v) { int k = *(int *)v; A a({2, 3}); M b(1, (size_t)k + 2); b.resize(3, 3); }
static int ids[2] = {0, 1};
// @h h_threads reach=done sched=1 shards=4 config=nolog
HARNESS h_threads() {
  uint64_t base = rd(); bool arr = CHOICE("arr", 0, 1); kept[0] = kept[1] = nullptr; __sym_preempt(2); __sym_spawn(arr ? worker2 : worker, &ids[0]); __sym_spawn(arr ? worker2 : worker, &ids[1]); __sym_join_all();
  CHECK(rd() - base == (arr ? 0 : 3 * sizeof(int)), "tracker reads the live bytes after concurrent updates"); delete kept[0]; delete kept[1]; CHECK(rd() == base, "tracker returns to its initial reading"); REACH("done");
}
// containers beyond 64 KiB
// @h h_huge reach=done
HARNESS h_huge() {
  uint64_t base = rd(), l0 = live(); { M a(130, 130), b(17000, 1); uint64_t e = 4 * (16900 + 17000); CHECK(rd() == base + e, "large matrices"); { A c({130, 131}); e += 4 * 130 * 131; CHECK(rd() == base + e, "large array"); a.set_all(1); b.set_all(2); M d(a); CHECK(rd() == base + e + 4 * 16900, "copied"); b = d; CHECK(rd() == base + e + 4 * (16900 - 100), "assigned"); M f(std::move(d)); CHECK(rd() == base + e + 4 * (16900 - 100), "moved"); f.resize(300, 300); CHECK(rd() == base + e + 4 * (90000 - 100), "resized"); a = f; a = M(); }
  CHECK(rd() == base + 4 * 16900, "partly destroyed"); }
  CHECK(rd() == base && live() == l0, "everything is released"); REACH("done");
}
