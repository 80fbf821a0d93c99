// @bounds arrays of 72000 elements with eight symbolic ones; twelve larger arrays of up to 7 dimensions, extents up to 300 and 300 elements; 1 to 4 dimensions of 1..3 (quick) / 1..4 elements (thorough) each with the total up to 24 / 64; symbolic index tuples (in range: all; past the end: every index below 64); accesses with fewer indices than dimensions after others of every rank (2 to 4 dimensions); all sequences of 2 (quick) / 3 (thorough) copy/assign/self-assign/move/load/write operations over two arrays of symbolic shape
#include "sym.h"
#ifdef THOROUGH
#define MD 4
#define CAPT 64
#define STEPS 3
#else
#define MD 3
#define CAPT 24
#define STEPS 2
#endif
using susa::array;
struct A4 { int n; size_t d[4]; size_t total; };
static A4 dims(const char *pfx, int nlo, int nhi, int md, size_t cap) { A4 a; a.n = (int)CHOICE((std::string(pfx) + "n").c_str(), nlo, nhi); a.total = 1; for (int i = 0; i < 4; i++) { a.d[i] = i < a.n ? (size_t)CHOICE((std::string(pfx) + "d").c_str(), 1, md) : 1; a.total *= a.d[i]; } ASSUME(a.total <= cap); return a; }
template <class T> static array<T> *make(const A4 &a) { switch (a.n) { case 1: return new array<T>({a.d[0]}); case 2: return new array<T>({a.d[0], a.d[1]}); case 3: return new array<T>({a.d[0], a.d[1], a.d[2]}); default: return new array<T>({a.d[0], a.d[1], a.d[2], a.d[3]}); } }
template <class T> static T &at(array<T> &x, int n, const size_t *i) { switch (n) { case 1: return x(i[0]); case 2: return x(i[0], i[1]); case 3: return x(i[0], i[1], i[2]); default: return x(i[0], i[1], i[2], i[3]); } }
template <class T> static T cat(const array<T> &x, int n, const size_t *i) { switch (n) { case 1: return x(i[0]); case 2: return x(i[0], i[1]); case 3: return x(i[0], i[1], i[2]); default: return x(i[0], i[1], i[2], i[3]); } }
template <class T> static T gat(const array<T> &x, int n, const size_t *i) { switch (n) { case 1: return x.get(i[0]); case 2: return x.get(i[0], i[1]); case 3: return x.get(i[0], i[1], i[2]); default: return x.get(i[0], i[1], i[2], i[3]); } }
template <class T> static T lat(const array<T> &x, int n, const size_t *i) { switch (n) { case 1: return x.get({i[0]}); case 2: return x.get({i[0], i[1]}); case 3: return x.get({i[0], i[1], i[2]}); default: return x.get({i[0], i[1], i[2], i[3]}); } }
template <class T> static size_t raw(const array<T> &x, int n, const size_t *i) { switch (n) { case 1: return x.get_raw_index(i[0]); case 2: return x.get_raw_index(i[0], i[1]); case 3: return x.get_raw_index(i[0], i[1], i[2]); default: return x.get_raw_index(i[0], i[1], i[2], i[3]); } }
// write every element with a symbolic value, read it back in every form
template <class T> static void forms() {
  uint64_t live0 = __sym_heap_live(); { A4 a = dims("", 1, 4, MD, CAPT); array<T> *p = make<T>(a); array<T> &x = *p; const array<T> &k = x; T v[CAPT]; size_t q = 0, i[4];
  for (size_t e = 0; e < a.total; e++) v[e] = sym<T>("v");
  for (i[3] = 0; i[3] < a.d[3]; i[3]++) for (i[2] = 0; i[2] < a.d[2]; i[2]++) for (i[1] = 0; i[1] < a.d[1]; i[1]++) for (i[0] = 0; i[0] < a.d[0]; i[0]++) at(x, a.n, i) = v[q++];
  q = 0; for (i[3] = 0; i[3] < a.d[3]; i[3]++) for (i[2] = 0; i[2] < a.d[2]; i[2]++) for (i[1] = 0; i[1] < a.d[1]; i[1]++) for (i[0] = 0; i[0] < a.d[0]; i[0]++) {
    CHECK(same(at(x, a.n, i), v[q]), "element written through () is read back"); CHECK(same(cat(k, a.n, i), v[q]), "const ()"); CHECK(same(gat(k, a.n, i), v[q]), "get(list)"); CHECK(same(lat(k, a.n, i), v[q]), "get({list})");
    std::vector<size_t> l(i, i + a.n); CHECK(same(k.get(l), v[q]), "get(vector)"); CHECK(same(k.get(q), v[q]), "get(raw)"); CHECK(same(x(q), v[q]), "(raw)"); CHECK(raw(k, a.n, i) == q, "raw index: first index fastest"); q++; }
  delete p; } CHECK(__sym_heap_live() == live0, "released"); REACH("done");
}
// @h h_forms reach=done shards=4
HARNESS h_forms() { forms<int>(); }
// @h h_forms_cd reach=done shards=8 tier=thorough
HARNESS h_forms_cd() { forms<std::complex<double>>(); }
// a symbolic index tuple
// @h h_index reach=in,done shards=8 timeout=120
HARNESS h_index() {
  A4 a = dims("", 1, 4, 3, CAPT < 36 ? CAPT : 36); array<int> *p = make<int>(a); array<int> &x = *p; const array<int> &k = x; for (size_t e = 0; e < a.total; e++) x(e) = (int)e * 3 + 1; size_t i[4] = {0, 0, 0, 0}, lin = 0, f = 1; bool bad = false;
  for (int d = 0; d < a.n; d++) { i[d] = sym<uint64_t>("i"); ASSUME(i[d] < 64); lin += i[d] * f; f *= a.d[d]; bad = bad | (i[d] >= a.d[d]); } bool past = lin >= a.total; ASSUME(past || !bad); // tuples that overflow one index but stay inside the block are unspecified
  int form = (int)CHOICE("form", 0, 4); int g = 0; std::vector<size_t> l(i, i + a.n);
  MUST_ABORT_IF(past, switch (form) { case 0: g = at(x, a.n, i); break; case 1: g = cat(k, a.n, i); break; case 2: g = gat(k, a.n, i); break; case 3: g = lat(k, a.n, i); break; default: g = k.get(l); }, "an index tuple past the end must abort");
  for (size_t e = 0; e < a.total; e++) CHECK(lin != e || g == (int)e * 3 + 1, "the element at the index tuple"); REACH("in");
  if (form == 0) { int v = sym<int>("v"); at(x, a.n, i) = v; for (size_t e = 0; e < a.total; e++) CHECK(x(e) == (e == lin ? v : (int)e * 3 + 1), "a write changes one element"); }
  CHECK(raw(k, a.n, i) == lin, "raw index"); delete p; REACH("done");
}
// more indices than dimensions
// @h h_toomany
HARNESS h_toomany() {
  A4 a = dims("", 1, 2, 3, 9); array<int> *p = make<int>(a); array<int> &x = *p; for (size_t e = 0; e < a.total; e++) x(e) = 1; size_t i[3]; for (int q = 0; q < 3; q++) { i[q] = sym<uint64_t>("i"); ASSUME(i[q] >= 1 && i[q] < 64); } int form = (int)CHOICE("form", 0, 2); std::vector<size_t> l(i, i + 3); int g = 0;
  MUST_ABORT_IF(true, switch (form) { case 0: g = x(i[0], i[1], i[2]); break; case 1: g = x.get({i[0], i[1], i[2]}); break; default: g = x.get(l); }, "more indices than dimensions must abort");
}
// access to an empty array
// @h h_empty
HARNESS h_empty() { array<int> x; const array<int> &k = x; size_t i = sym<uint64_t>("i"); int form = (int)CHOICE("form", 0, 3); int g = 0; std::vector<size_t> l(1, i); MUST_ABORT_IF(true, switch (form) { case 0: x(i) = 3; break; case 1: g = k(i); break; case 2: g = k.get({i}); break; default: g = k.get(l); }, "access to an empty array must abort"); }
// histories
struct Md { bool known; A4 a; int v[16]; };
static void same(const array<int> &x, const Md &m, const char *msg) {
  if (!m.known || m.a.total == 0) return; size_t i[4], q = 0;
  for (i[3] = 0; i[3] < m.a.d[3]; i[3]++) for (i[2] = 0; i[2] < m.a.d[2]; i[2]++) for (i[1] = 0; i[1] < m.a.d[1]; i[1]++) for (i[0] = 0; i[0] < m.a.d[0]; i[0]++) { CHECK(cat(x, m.a.n, i) == m.v[q], msg); q++; }
}
static void hist(int steps, int md) {
  uint64_t live0 = __sym_heap_live(); { array<int> *p[2]; Md m[2];
  for (int j = 0; j < 2; j++) { m[j].known = true; if (j == 1 && CHOICE("empty", 0, 1)) { m[1].a.n = 0; m[1].a.total = 0; p[1] = new array<int>(); continue; } m[j].a = dims(j ? "B" : "A", j ? 1 : 2, j ? 3 : 2, md, 8); p[j] = make<int>(m[j].a); for (size_t e = 0; e < m[j].a.total; e++) { m[j].v[e] = sym<int>("x"); (*p[j])(e) = m[j].v[e]; } }
  for (int s = 0; s < steps; s++) {
    int op = (int)CHOICE("op", 0, 5), i = (int)CHOICE("i", 0, 1), j = 1 - i;
    switch (op) {
    case 0: if (!m[j].known) { ASSUME(false); } *p[i] = *p[j]; m[i] = m[j]; break;
    case 1: if (!m[j].known) { ASSUME(false); } delete p[i]; p[i] = new array<int>(*p[j]); m[i] = m[j]; break;
    case 2: if (!m[j].known) { ASSUME(false); } delete p[i]; p[i] = new array<int>(std::move(*p[j])); m[i] = m[j]; m[j].known = false; break;
    case 3: if (!m[i].known) { ASSUME(false); } { array<int> &r = *p[i]; *p[i] = r; } break;
    case 4: { if (!m[i].known || !m[i].a.total) { ASSUME(false); } size_t k = sym<uint64_t>("k"); ASSUME(k < m[i].a.total); int v = sym<int>("v"); (*p[i])(k) = v; for (size_t q = 0; q < m[i].a.total; q++) if (q == k) m[i].v[q] = v; break; }
    default: { if (!m[i].known || !m[i].a.total) { ASSUME(false); } int buf[16]; for (size_t q = 0; q < m[i].a.total; q++) { buf[q] = sym<int>("b"); m[i].v[q] = buf[q]; } p[i]->clone(buf, m[i].a.total); buf[0] = 0; break; }
    }
    for (int q = 0; q < 2; q++) same(*p[q], m[q], "after the operation every array has its own contents");
  }
  delete p[0]; delete p[1]; } CHECK(__sym_heap_live() == live0, "every block is released"); REACH("done");
}
// @h h_hist reach=done shards=8 t_shards=16 t_timeout=1500
HARNESS h_hist() { hist(STEPS, 2); }
// loading a raw block of another length
// @h h_clone reach=done
HARNESS h_clone() {
  uint64_t live0 = __sym_heap_live(); { A4 a = dims("", 1, 3, 2, 8); array<int> *p = make<int>(a); size_t n = (size_t)CHOICE("len", 1, 10); int buf[10]; for (size_t q = 0; q < n; q++) buf[q] = sym<int>("b"); p->clone(buf, n); for (size_t q = 0; q < n; q++) CHECK((*p)(q) == buf[q] && p->get(q) == buf[q], "loaded elements"); int keep = (*p)(0); buf[0] = sym<int>("w"); CHECK((*p)(0) == keep, "the block is copied");
  size_t i = sym<uint64_t>("i"); if (CHOICE("past", 0, 1)) { int g = 0; ASSUME(i >= n); MUST_ABORT_IF(true, g = p->get(i), "past the loaded block"); }
  delete p; } CHECK(__sym_heap_live() == live0, "released"); REACH("done");
}
// more dimensions and larger extents: every form at every element, copies and a loaded block
template <size_t... D, size_t... K> static void deep1(std::index_sequence<K...>, bool at_end) {
  uint64_t live0 = __sym_heap_live(); { const size_t d[] = {D...}; const int n = (int)sizeof...(D); size_t total = 1; for (size_t v : d) total *= v; array<int> x({D...}); const array<int> &k = x; static int v[400]; size_t i[sizeof...(D)] = {};
  auto next = [&]() { for (int q = 0; q < n; q++) { if (++i[q] < d[q]) return; i[q] = 0; } };
  for (size_t e = 0; e < total; e++) { v[e] = sym<int>("v"); x(i[K]...) = v[e]; next(); }
  bool a = true, b = true, c = true, f = true, g = true, h = true, r = true; for (size_t e = 0; e < total; e++) { a = a & (x(i[K]...) == v[e]); b = b & (k(i[K]...) == v[e]); c = c & (k.get(i[K]...) == v[e]); f = f & (k.get({i[K]...}) == v[e]); std::vector<size_t> l(i, i + n); g = g & (k.get(l) == v[e]); h = h & (k.get(e) == v[e]) & (x(e) == v[e]); r = r & (k.get_raw_index(i[K]...) == e); next(); }
  CHECK(a, "element written through () is read back"); CHECK(b, "const ()"); CHECK(c, "get(list)"); CHECK(f, "get({list})"); CHECK(g, "get(vector)"); CHECK(h, "raw index"); CHECK(r, "raw index: first index fastest");
  array<int> y(x), z({2}); z = x; size_t w = at_end ? total - 1 : total / 2; int nv = sym<int>("w"); x(w) = nv; bool ok = true; for (size_t e = 0; e < total; e++) { ok = ok & (y(i[K]...) == v[e]) & (z(i[K]...) == v[e]) & (k(i[K]...) == (e == w ? nv : v[e])); next(); } CHECK(ok, "copies are independent");
  z(w) = nv; y.clone(&z(0), total); z(0) = nv; ok = true; for (size_t e = 0; e < total; e++) { ok = ok & (y(i[K]...) == (e == w ? nv : v[e])); next(); } CHECK(ok, "loaded block"); array<int> t(std::move(y)); ok = true; for (size_t e = 0; e < total; e++) { ok = ok & (t(i[K]...) == (e == w ? nv : v[e])); next(); } CHECK(ok, "moved array");
  if (CHOICE("past", 0, 1)) { int q = 0; size_t p = sym<uint64_t>("p"); ASSUME(p >= total); MUST_ABORT_IF(true, q = CHOICE("form", 0, 1) ? x(p) : k.get(p), "an index past the end must abort"); }
  } CHECK(__sym_heap_live() == live0, "released"); REACH("done");
}
template <size_t... D> static void deep(bool at_end) { deep1<D...>(std::make_index_sequence<sizeof...(D)>(), at_end); }
// @h h_deep reach=done shards=4
HARNESS h_deep() {
  bool e = CHOICE("at", 0, 1); switch (CHOICE("shape", 0, 11)) { case 0: deep<5, 17>(e); break; case 1: deep<3, 40>(e); break; case 2: deep<130>(e); break; case 3: deep<2, 3, 41>(e); break; case 4: deep<7, 2, 9, 2>(e); break; case 5: deep<2, 3, 2, 3, 2>(e); break; case 6: deep<2, 2, 2, 2, 2, 2>(e); break; case 7: deep<1, 1, 7, 1, 3>(e); break; case 8: deep<300>(e); break; case 9: deep<65, 4>(e); break; case 10: deep<2, 3, 1, 2, 4, 3, 2>(e); break; default: deep<17, 17>(e); }
}
// accesses of differing numbers of indices on one array: the indices left out are zero, whatever was read before
// @h h_fewer reach=done shards=4
HARNESS h_fewer() {
  const size_t d[4] = {2, 3, 2, 2}; int nd = (int)CHOICE("dims", 2, 4); A4 s; s.n = nd; s.total = 1; for (int q = 0; q < 4; q++) { s.d[q] = q < nd ? d[q] : 1; s.total *= s.d[q]; }
  array<int> *p = make<int>(s); array<int> &x = *p; const array<int> &k = x; int v[24]; for (size_t e = 0; e < s.total; e++) { v[e] = sym<int>("v"); x(e) = v[e]; }
  size_t i2 = (size_t)CHOICE("i", 0, 1);
  for (int t = 0; t < 3; t++) { // single indices address the block directly
    int r = (int)CHOICE("rank", 1, nd); size_t i[4] = {0, 0, 0, 0}, lin = 0, f = 1; for (int q = 0; q < r; q++) { i[q] = t == 0 ? s.d[q] - 1 : t == 1 ? (s.d[q] > 2 ? 1 : 0) + (q == 0) : i2 + (q == 1); lin += i[q] * f; f *= s.d[q]; }
    switch (t < 2 ? (int)CHOICE("by", 0, 1) * 2 : (int)CHOICE("form", 0, 5)) { case 0: CHECK(at(x, r, i) == v[lin], "() with fewer indices"); break; case 1: CHECK(cat(k, r, i) == v[lin], "const () with fewer indices"); break; case 2: CHECK(gat(k, r, i) == v[lin], "get with fewer indices"); break; case 3: CHECK(lat(k, r, i) == v[lin], "get({list}) with fewer indices"); break; case 4: { std::vector<size_t> l(i, i + r); CHECK(k.get(l) == v[lin], "get(vector) with fewer indices"); break; } default: CHECK(raw(k, r, i) == lin, "raw index with fewer indices"); }
    if (t == 2) { int w = sym<int>("w"); at(x, r, i) = w; bool ok = true; for (size_t e = 0; e < s.total; e++) ok = ok & (k.get(e) == (e == lin ? w : v[e])); CHECK(ok, "a write with fewer indices changes one element"); }
  }
  delete p; REACH("done");
}
// more than 65536 elements
// @h h_huge reach=done shards=2
HARNESS h_huge() {
  uint64_t live0 = __sym_heap_live(); { bool three = CHOICE("three", 0, 1); const size_t R = three ? 30 : 300, S = three ? 40 : 240, n = 72000; array<int8_t> x = three ? array<int8_t>({30, 40, 60}) : array<int8_t>({300, 240}); const array<int8_t> &k = x; for (size_t i = 0; i < n; i++) x(i) = 0;
  size_t at[8] = {0, 299, 300, n / 2, 65535, 65536, n - 2, n - 1}; int8_t v[8]; for (int q = 0; q < 8; q++) { v[q] = sym<int8_t>("v"); size_t i = at[q] % R, j = at[q] / R % S, l = at[q] / R / S; (three ? x(i, j, l) : x(i, j)) = v[q]; }
  array<int8_t> y(x), z({2}); z = x; y(at[4]) = 1; array<int8_t> w(std::move(y)); bool ok = true;
  for (int q = 0; q < 8; q++) { size_t i = at[q] % R, j = at[q] / R % S, l = at[q] / R / S; ok = ok & (x(at[q]) == v[q]) & (k(at[q]) == v[q]) & (z.get(at[q]) == v[q]) & ((three ? k.get(i, j, l) : k.get(i, j)) == v[q]) & ((three ? z.get({i, j, l}) : z.get({i, j})) == v[q]) & (k.get(three ? std::vector<size_t>{i, j, l} : std::vector<size_t>{i, j}) == v[q]) & (w.get(at[q]) == (q == 4 ? 1 : v[q])) & ((three ? k.get_raw_index(i, j, l) : k.get_raw_index(i, j)) == at[q]); } CHECK(ok, "elements far into a large array are distinct"); }
  CHECK(__sym_heap_live() == live0, "released"); REACH("done");
}
