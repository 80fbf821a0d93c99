#include "mem.h"
#include <cmath>
bool realMode = false;
Sort leafSort(const Leaf &l) { if (l.k == L_F32) return realMode ? S_REAL : S_F32; if (l.k == L_F64) return realMode ? S_REAL : S_F64; return S_BV; }
T vTerm(const Val &v, const Leaf &l) {
  if (v.t) return v.t;
  if (l.k == L_INT || l.k == L_PTR) return TD.bv(v.c, l.w);
  if (realMode) { double d; if (l.k == L_F32) { float f; uint32_t u = (uint32_t)v.c; memcpy(&f, &u, 4); d = f; } else memcpy(&d, &v.c, 8); return rFromDouble(d); }
  return TD.fconst(v.c, l.k == L_F32 ? S_F32 : S_F64);
}
Val fromTerm(T t, const Leaf &l) {
  const Node &n = TD[t];
  if (n.op == O_CONST) return CV(n.k);
  if (n.op == O_RCONST) {
    double d = nearD(TD.rq(t));
    if (l.k == L_F32) { float f = (float)d; if (std::isfinite(f) && mpq_class(f) == TD.rq(t)) { uint32_t u; memcpy(&u, &f, 4); return CV(u); } }
    else if (std::isfinite(d) && mpq_class(d) == TD.rq(t)) { uint64_t u; memcpy(&u, &d, 8); return CV(u); }
  }
  if (n.op == O_BITSR && TD.isC(n.a)) { uint64_t b = TD.cv(n.a); double d; memcpy(&d, &b, 8); if (l.k == L_F32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return CV(u); } return CV(b); }
  return Val{0, t};
}
Val freshVal(const Leaf &l, const char *nm) { Sort s = leafSort(l); return Val{0, TD.newVar(nm, s, s == S_REAL ? 64 : l.w, true)}; }

static T cellBits(const Cell &c) { // bits of the whole cell, width 8*c.w
  T b = toBits(c.t); unsigned w = TD[b].w;
  if (w == 8u * c.w) return b;
  if (w < 8u * c.w) return tZext(b, 8 * c.w);
  return tExtract(b, 0, 8 * c.w); // 4-byte reals: opaque
}
Val byteAt(const Obj *o, uint32_t off) {
  if (o->sym.empty()) return CV(o->data[off]);
  const Cell &c = o->sym[off]; if (!c.t) return CV(o->data[off]); if (c.t == UNINIT) return Val{0, UNINIT};
  T b = tExtract(cellBits(c), 8 * c.idx, 8); return TD.isC(b) ? CV(TD.cv(b)) : Val{0, b};
}
Val readCells(Obj *(*wr)(void *), void *ctx, const Obj *o, uint32_t off, const Leaf &l) {
  unsigned n = leafBytes(l); uint64_t m = maskw(l.k == L_F32 ? 32 : l.w);
  auto conc = [&] { uint64_t r = 0; memcpy(&r, o->data.data() + off, n); return CV(r & m); };
  if (o->sym.empty()) return conc();
  bool anySym = false, allUn = true; for (unsigned i = 0; i < n; i++) { T t = o->sym[off + i].t; if (t) anySym = true; if (t != UNINIT) allUn = false; }
  if (!anySym) return conc();
  if (allUn) {
    if (!wr) return Val{0, UNINIT};
    Val v = freshVal(l, "uninit"); Obj *w = wr(ctx); writeCells(w, off, l, v); return v;
  }
  const Cell c0 = o->sym[off];
  if (c0.t && c0.t != UNINIT && c0.idx == 0 && c0.w == n) {
    bool whole = true; for (unsigned i = 1; i < n; i++) { const Cell &c = o->sym[off + i]; if (c.t != c0.t || c.idx != i || c.w != n) { whole = false; break; } }
    if (whole) {
      Sort want = leafSort(l); T t = c0.t; Sort have = TD[t].sort;
      if (want == S_BV) { if (have != S_BV) t = toBits(t); if (TD[t].w > l.w) t = tExtract(t, 0, l.w); else if (TD[t].w < l.w) t = tZext(t, l.w); return fromTerm(t, l); }
      if (have == want) return fromTerm(t, l);
      if (have != S_BV) t = toBits(t);
      return fromTerm(fromBits(t, want), l);
    }
  }
  T acc = 0;
  for (unsigned i = 0; i < n; i++) {
    // consecutive bytes of one cell in one piece
    { const Cell c = o->sym[off + i]; if (c.t && c.t != UNINIT) { unsigned k = 1; while (i + k < n && o->sym[off + i + k].t == c.t && o->sym[off + i + k].w == c.w && o->sym[off + i + k].idx == c.idx + k) k++; T bt = tExtract(cellBits(c), 8 * c.idx, 8 * k); acc = acc ? tConcat(bt, acc) : bt; i += k - 1; continue; } }
    Val b = byteAt(o, off + i);
    if (b.t == UNINIT) { if (!wr) return Val{0, UNINIT}; Leaf l8{L_INT, 8, 0}; b = freshVal(l8, "uninit"); Obj *w = wr(ctx); writeCells(w, off + i, l8, b); o = w; }
    T bt = b.t ? b.t : TD.bv(b.c, 8); acc = acc ? tConcat(bt, acc) : bt;
  }
  Sort want = leafSort(l);
  if (want == S_BV) { if (TD[acc].w > l.w) acc = tExtract(acc, 0, l.w); return fromTerm(acc, l); }
  return fromTerm(fromBits(acc, want), l);
}
void writeCells(Obj *o, uint32_t off, const Leaf &l, const Val &v) {
  unsigned n = leafBytes(l);
  o->shape[off] = (uint8_t)(n | (l.k << 4)); for (unsigned i = 1; i < n; i++) o->shape[off + i] = 0xFF;
  if (!v.t) { memcpy(o->data.data() + off, &v.c, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = Cell{0, 0, 0}; return; }
  o->ensureSym();
  T t = v.t;
  if (t != UNINIT && TD[t].sort == S_BV && TD[t].w < 8 * n) t = tZext(t, 8 * n);
  for (unsigned i = 0; i < n; i++) o->sym[off + i] = Cell{t, (uint8_t)i, (uint8_t)n};
}
