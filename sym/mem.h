// Memory model of the symbolic executor.
#pragma once
#include "term.h"
#include <cstring>
#include <map>

enum LK : uint8_t { L_INT = 0, L_PTR = 1, L_F32 = 2, L_F64 = 3 };
struct Leaf { LK k; uint8_t w; uint32_t off; }; // w bits, byte offset inside an aggregate
inline unsigned leafBytes(const Leaf &l) { return l.k == L_INT ? (l.w + 7u) / 8u : l.k == L_F32 ? 4u : 8u; }
static const T UNINIT = 0xFFFFFFFFu;
struct Val { uint64_t c; T t; }; // t == 0: the concrete value c
inline Val CV(uint64_t c) { return Val{c, 0}; }

extern bool realMode;
Sort leafSort(const Leaf &l);
T vTerm(const Val &v, const Leaf &l);
Val fromTerm(T t, const Leaf &l);
Val freshVal(const Leaf &l, const char *nm);

enum OKind : uint8_t { OK_GLOBAL, OK_CONST, OK_STACK, OK_HEAP };
enum AKind : uint8_t { AK_NONE, AK_MALLOC, AK_NEW, AK_NEWARR, AK_EXC };
struct Cell { T t; uint8_t idx, w; };
struct Obj {
  int rc = 0; uint64_t base = 0; uint32_t size = 0; OKind kind; AKind ak = AK_NONE; bool shared = false;
  std::vector<uint8_t> data, shape; std::vector<Cell> sym; // sym empty: everything concrete
  void ensureSym() { if (sym.empty()) sym.resize(size ? size : 1, Cell{0, 0, 0}); }
};
struct ORef { // intrusive, single-threaded
  Obj *p = nullptr;
  ORef() {} explicit ORef(Obj *q) : p(q) { if (p) p->rc++; }
  ORef(const ORef &o) : p(o.p) { if (p) p->rc++; }
  ORef(ORef &&o) noexcept : p(o.p) { o.p = nullptr; }
  ORef &operator=(ORef o) noexcept { std::swap(p, o.p); return *this; }
  ~ORef() { if (p && --p->rc == 0) delete p; }
  Obj *operator->() const { return p; }
};
struct OVec { // sorted by address
  std::vector<ORef> v; mutable size_t last = 0;
  int find(uint64_t a) const {
    if (last < v.size()) { const Obj *o = v[last].p; if (a >= o->base && a < o->base + (o->size ? o->size : 1)) return (int)last; }
    size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].p->base <= a) lo = m + 1; else hi = m; }
    if (!lo) return -1; const Obj *o = v[lo - 1].p; if (a < o->base + (o->size ? o->size : 1)) { last = lo - 1; return (int)(lo - 1); } return -1;
  }
  Obj *write(size_t i) { ORef &r = v[i]; if (r.p->rc > 1) { Obj *n = new Obj(*r.p); n->rc = 0; r = ORef(n); } return r.p; }
};
Val readCells(Obj *(*wr)(void *), void *ctx, const Obj *o, uint32_t off, const Leaf &l);
void writeCells(Obj *o, uint32_t off, const Leaf &l, const Val &v);
Val byteAt(const Obj *o, uint32_t off); // 8-bit value (UNINIT possible)
