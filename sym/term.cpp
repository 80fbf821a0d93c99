#include "term.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>

TermDB TD;

static inline size_t hashNode(const Node &x) {
  uint64_t h = (uint64_t)x.op * 0x9E3779B97F4A7C15ull ^ ((uint64_t)x.sort << 8) ^ ((uint64_t)x.w << 16);
  auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(x.a); mix(x.b); mix(x.c); mix(x.k);
  return h;
}
TermDB::TermDB() {
  n.reserve(1 << 16);
  n.push_back(Node{O_NONE, S_BV, 0, 0, 0, 0, 0, 0});
  table.assign(1 << 16, 0); mask_ = table.size() - 1;
}
void TermDB::grow() {
  std::vector<T> t(table.size() * 2, 0); size_t m = t.size() - 1;
  for (T i = 1; i < n.size(); i++) { size_t h = hashNode(n[i]) & m; while (t[h]) h = (h + 1) & m; t[h] = i; }
  table.swap(t); mask_ = m;
}
T TermDB::mk(Op op, Sort s, unsigned w, T a, T b, T c, uint64_t k) {
  Node x{op, s, (uint8_t)w, 0, a, b, c, k};
  size_t h = hashNode(x) & mask_;
  while (table[h]) {
    const Node &y = n[table[h]];
    if (y.op == op && y.sort == s && y.w == w && y.a == a && y.b == b && y.c == c && y.k == k) return table[h];
    h = (h + 1) & mask_;
  }
  T id = n.size(); n.push_back(x); table[h] = id;
  if (n.size() * 2 > table.size()) grow();
  return id;
}
T TermDB::newVar(const std::string &name, Sort s, unsigned w, bool havoc) {
  uint64_t i = vars.size(); vars.push_back({name, s, (uint8_t)w, havoc});
  T t = mk(O_VAR, s, w, 0, 0, 0, i); varTerm.push_back(t); return t;
}
T TermDB::rconst(const mpq_class &q0) {
  mpq_class q = q0; q.canonicalize();
  std::string s = q.get_str(62);
  auto it = ratIdx.find(s); uint64_t i;
  if (it == ratIdx.end()) { i = rats.size(); rats.push_back(q); ratIdx[s] = i; } else i = it->second;
  return mk(O_RCONST, S_REAL, 64, 0, 0, 0, i);
}

// ---------------------------------------------------------------- BV polynomials
typedef std::vector<T> Mono;
struct MonoLess { bool operator()(const Mono &a, const Mono &b) const { if (a.size() != b.size()) return a.size() < b.size(); return a < b; } };
typedef std::map<Mono, uint64_t, MonoLess> PolyB;
typedef std::shared_ptr<PolyB> PolyBP;
static std::unordered_map<T, PolyBP> nfbMemo;
static const size_t NFB_LIM = 4000;
static Mono mmul(const Mono &a, const Mono &b) { Mono r(a.size() + b.size()); std::merge(a.begin(), a.end(), b.begin(), b.end(), r.begin()); return r; }
static bool isPolyOp(T t) { Op o = TD[t].op; return o == O_ADD || o == O_MUL || (o == O_SHL && TD.isC(TD[t].b)); }
static PolyBP nfB(T t) {
  auto it = nfbMemo.find(t); if (it != nfbMemo.end()) return it->second;
  const Node x = TD[t]; uint64_t M = maskw(x.w);
  PolyBP r;
  if (x.op == O_CONST) { r = std::make_shared<PolyB>(); if (x.k) (*r)[{}] = x.k; return r; }
  if (x.op == O_ADD) {
    PolyBP p = nfB(x.a), q = nfB(x.b);
    if (p && q) {
      r = std::make_shared<PolyB>(*p);
      for (auto &kv : *q) { uint64_t &c = (*r)[kv.first]; c = (c + kv.second) & M; if (!c) r->erase(kv.first); }
      if (r->size() > NFB_LIM) r = nullptr;
    }
  } else if (x.op == O_MUL) {
    PolyBP p = nfB(x.a), q = nfB(x.b);
    if (p && q && p->size() * q->size() <= NFB_LIM * 4) {
      r = std::make_shared<PolyB>();
      for (auto &u : *p) for (auto &v : *q) {
        Mono m = mmul(u.first, v.first); uint64_t &c = (*r)[m]; c = (c + u.second * v.second) & M; if (!c) r->erase(m);
      }
      if (r->size() > NFB_LIM) r = nullptr;
    }
  } else if (x.op == O_SHL && TD.isC(x.b)) {
    PolyBP p = nfB(x.a); uint64_t s = TD.cv(x.b);
    if (p) { r = std::make_shared<PolyB>(); if (s < x.w) for (auto &u : *p) { uint64_t c = (u.second << s) & M; if (c) (*r)[u.first] = c; } }
  } else { r = std::make_shared<PolyB>(); (*r)[{t}] = 1; }
  nfbMemo[t] = r; return r;
}
static int nfEqualB(T a, T b) {
  PolyBP p = nfB(a), q = nfB(b);
  if (!p || !q) return -1;
  if (*p == *q) return 1;
  // constant difference?
  PolyB d = *p; uint64_t M = maskw(TD[a].w);
  for (auto &kv : *q) { uint64_t &c = d[kv.first]; c = (c - kv.second) & M; if (!c) d.erase(kv.first); }
  if (d.empty()) return 1;
  if (d.size() == 1 && d.begin()->first.empty()) return 0;
  return -1;
}

// ---------------------------------------------------------------- unsigned ranges
static void urange(T t, uint64_t &lo, uint64_t &hi, int depth = 4) {
  const Node x = TD[t]; lo = 0; hi = maskw(x.w);
  if (x.op == O_CONST) { lo = hi = x.k; return; }
  if (depth == 0) return;
  uint64_t l, h, l2, h2;
  switch (x.op) {
  case O_ZEXT: urange(x.a, lo, hi, depth - 1); break;
  case O_AND: urange(x.a, l, h, depth - 1); urange(x.b, l2, h2, depth - 1); hi = std::min(h, h2); break;
  case O_UREM: urange(x.a, l, h, depth - 1); urange(x.b, l2, h2, depth - 1); hi = h; if (h2 && l2) hi = std::min(hi, h2 - 1); break;
  case O_UDIV: urange(x.a, l, h, depth - 1); urange(x.b, l2, h2, depth - 1); if (l2) { hi = h / l2; lo = l / h2; } break;
  case O_LSHR: if (TD.isC(x.b) && TD.cv(x.b) < x.w) { urange(x.a, l, h, depth - 1); lo = l >> TD.cv(x.b); hi = h >> TD.cv(x.b); } break;
  case O_ITE: urange(x.b, l, h, depth - 1); urange(x.c, l2, h2, depth - 1); lo = std::min(l, l2); hi = std::max(h, h2); break;
  case O_ADD: urange(x.a, l, h, depth - 1); urange(x.b, l2, h2, depth - 1);
    if (h <= hi && h2 <= hi - h) { lo = l + l2; hi = h + h2; } break;
  case O_MUL: urange(x.a, l, h, depth - 1); urange(x.b, l2, h2, depth - 1);
    if (h == 0 || h2 <= hi / h) { lo = l * l2; hi = h * h2; } break;
  case O_EXTRACT: urange(x.a, l, h, depth - 1); if (x.k == 0 && h <= maskw(x.w)) { lo = l; hi = h; } break;
  case O_CONCAT: { urange(x.a, l, h, depth - 1); unsigned wl = TD[x.b].w; lo = l << wl; hi = (h << wl) | maskw(wl); break; }
  default: break;
  }
}

// ---------------------------------------------------------------- BV constructors
static bool C(T t) { return TD.isC(t); }
static uint64_t V(T t) { return TD.cv(t); }
static bool iteConst(T t) { const Node &x = TD[t]; return x.op == O_ITE && C(x.b) && C(x.c); }
template <class F> static T mapIte(T t, F f) { const Node x = TD[t]; T p = f(x.b), q = f(x.c); return tIte(x.a, p, q); }

T tAdd(T a, T b) {
  unsigned w = TD[a].w;
  if (C(a) && C(b)) return TD.bv(V(a) + V(b), w);
  if (C(a)) std::swap(a, b);
  if (C(b)) {
    if (V(b) == 0) return a;
    const Node x = TD[a];
    if (x.op == O_ADD && C(x.b)) return tAdd(x.a, TD.bv(V(x.b) + V(b), w));
    if (iteConst(a)) return mapIte(a, [&](T z) { return tAdd(z, b); });
    if (w == 1) return tXor(a, b);
    return TD.mk(O_ADD, S_BV, w, a, b);
  }
  if (w == 1) return tXor(a, b);
  // pull constants out
  const Node x = TD[a], y = TD[b];
  if (x.op == O_ADD && C(x.b)) return tAdd(tAdd(x.a, b), x.b);
  if (y.op == O_ADD && C(y.b)) return tAdd(tAdd(a, y.a), y.b);
  // x + (-1)*x
  if (y.op == O_MUL && C(y.b) && V(y.b) == maskw(w) && y.a == a) return TD.bv(0, w);
  if (x.op == O_MUL && C(x.b) && V(x.b) == maskw(w) && x.a == b) return TD.bv(0, w);
  // (p + (-1)*b) + b = p
  if (x.op == O_ADD) {
    const Node u = TD[x.a], v = TD[x.b];
    if (v.op == O_MUL && C(v.b) && V(v.b) == maskw(w) && v.a == b) return x.a;
    if (u.op == O_MUL && C(u.b) && V(u.b) == maskw(w) && u.a == b) return x.b;
    if (y.op == O_MUL && C(y.b) && V(y.b) == maskw(w)) { if (x.a == y.a) return x.b; if (x.b == y.a) return x.a; }
  }
  if (y.op == O_ADD && x.op == O_MUL && C(x.b) && V(x.b) == maskw(w)) { if (y.a == x.a) return y.b; if (y.b == x.a) return y.a; }
  if (a > b) std::swap(a, b);
  return TD.mk(O_ADD, S_BV, w, a, b);
}
T tNeg(T a) { return tMul(a, TD.bv(~0ull, TD[a].w)); }
T tSub(T a, T b) {
  unsigned w = TD[a].w;
  if (a == b) return TD.bv(0, w);
  if (C(b)) return tAdd(a, TD.bv(0 - V(b), w));
  return tAdd(a, tNeg(b));
}
T tMul(T a, T b) {
  unsigned w = TD[a].w;
  if (C(a) && C(b)) return TD.bv(V(a) * V(b), w);
  if (C(a)) std::swap(a, b);
  if (w == 1) return tAnd(a, b);
  if (C(b)) {
    if (V(b) == 0) return b;
    if (V(b) == 1) return a;
    const Node x = TD[a];
    if (x.op == O_MUL && C(x.b)) return tMul(x.a, TD.bv(V(x.b) * V(b), w));
    if (x.op == O_ADD && C(x.b)) return tAdd(tMul(x.a, b), TD.bv(V(x.b) * V(b), w));
    if (iteConst(a)) return mapIte(a, [&](T z) { return tMul(z, b); });
    return TD.mk(O_MUL, S_BV, w, a, b);
  }
  const Node x = TD[a], y = TD[b];
  if (x.op == O_MUL && C(x.b)) return tMul(tMul(x.a, b), x.b);
  if (y.op == O_MUL && C(y.b)) return tMul(tMul(a, y.a), y.b);
  if (a > b) std::swap(a, b);
  return TD.mk(O_MUL, S_BV, w, a, b);
}
T tUDiv(T a, T b) {
  unsigned w = TD[a].w;
  if (C(b)) {
    uint64_t d = V(b);
    if (d == 0) return TD.bv(~0ull, w);
    if (C(a)) return TD.bv(V(a) / d, w);
    if (d == 1) return a;
    if ((d & (d - 1)) == 0) return tLshr(a, TD.bv(__builtin_ctzll(d), w));
    uint64_t lo, hi; urange(a, lo, hi); if (hi < d) return TD.bv(0, w);
    if (iteConst(a)) return mapIte(a, [&](T z) { return tUDiv(z, b); });
  }
  return TD.mk(O_UDIV, S_BV, w, a, b);
}
T tURem(T a, T b) {
  unsigned w = TD[a].w;
  if (C(b)) {
    uint64_t d = V(b);
    if (d == 0) return a;
    if (C(a)) return TD.bv(V(a) % d, w);
    if ((d & (d - 1)) == 0) return tAnd(a, TD.bv(d - 1, w));
    uint64_t lo, hi; urange(a, lo, hi); if (hi < d) return a;
    if (iteConst(a)) return mapIte(a, [&](T z) { return tURem(z, b); });
  }
  return TD.mk(O_UREM, S_BV, w, a, b);
}
static bool nonNeg(T a) { uint64_t lo, hi; urange(a, lo, hi); return hi < (1ull << (TD[a].w - 1)); }
T tSDiv(T a, T b) {
  unsigned w = TD[a].w;
  if (C(a) && C(b) && V(b)) {
    int64_t x = sextw(V(a), w), y = sextw(V(b), w);
    if (y == -1) return TD.bv(0 - (uint64_t)x, w);
    return TD.bv(x / y, w);
  }
  if (C(b) && V(b) == 1) return a;
  if (nonNeg(a) && nonNeg(b) && C(b) && V(b)) return tUDiv(a, b);
  return TD.mk(O_SDIV, S_BV, w, a, b);
}
T tSRem(T a, T b) {
  unsigned w = TD[a].w;
  if (C(a) && C(b) && V(b)) {
    int64_t x = sextw(V(a), w), y = sextw(V(b), w);
    if (y == -1) return TD.bv(0, w);
    return TD.bv(x % y, w);
  }
  if (nonNeg(a) && nonNeg(b) && C(b) && V(b)) return tURem(a, b);
  return TD.mk(O_SREM, S_BV, w, a, b);
}
T tShl(T a, T b) {
  unsigned w = TD[a].w;
  if (C(b)) {
    if (V(b) == 0) return a;
    if (V(b) >= w) return TD.bv(0, w);
    if (C(a)) return TD.bv(V(a) << V(b), w);
    if (iteConst(a)) return mapIte(a, [&](T z) { return tShl(z, b); });
    const Node x = TD[a];
    if (x.op == O_ZEXT && TD[x.a].w == 1) return tIte(x.a, TD.bv(1ull << V(b), w), TD.bv(0, w));
  } else if (C(a) && iteConst(b)) return mapIte(b, [&](T z) { return tShl(a, z); });
  return TD.mk(O_SHL, S_BV, w, a, b);
}
T tLshr(T a, T b) {
  unsigned w = TD[a].w;
  if (C(b)) {
    if (V(b) == 0) return a;
    if (V(b) >= w) return TD.bv(0, w);
    if (C(a)) return TD.bv(V(a) >> V(b), w);
    const Node x = TD[a];
    if (x.op == O_LSHR && C(x.b)) return tLshr(x.a, TD.bv(std::min<uint64_t>(V(x.b) + V(b), w), w));
    uint64_t lo, hi; urange(a, lo, hi); if ((hi >> V(b)) == 0) return TD.bv(0, w);
    if (iteConst(a)) return mapIte(a, [&](T z) { return tLshr(z, b); });
  }
  return TD.mk(O_LSHR, S_BV, w, a, b);
}
T tAshr(T a, T b) {
  unsigned w = TD[a].w;
  if (C(b)) {
    if (V(b) == 0) return a;
    if (C(a)) return TD.bv((uint64_t)(sextw(V(a), w) >> std::min<uint64_t>(V(b), 63)), w);
    if (nonNeg(a)) return tLshr(a, b);
  }
  return TD.mk(O_ASHR, S_BV, w, a, b);
}
static bool isNotOf(T a, T b) { const Node &x = TD[a]; return x.op == O_XOR && TD.isC(x.b) && TD.cv(x.b) == maskw(x.w) && x.a == b; }
T tNot(T a) { return tXor(a, TD.bv(~0ull, TD[a].w)); }
T tAnd(T a, T b) {
  unsigned w = TD[a].w; uint64_t M = maskw(w);
  if (C(a)) std::swap(a, b);
  if (C(b)) {
    if (V(b) == 0) return b;
    if (V(b) == M) return a;
    if (C(a)) return TD.bv(V(a) & V(b), w);
    const Node x = TD[a];
    if (x.op == O_AND && C(x.b)) return tAnd(x.a, TD.bv(V(x.b) & V(b), w));
    uint64_t lo, hi; urange(a, lo, hi);
    if ((V(b) & (V(b) + 1)) == 0 && hi <= V(b)) return a; // low mask covers
    if (x.op == O_ZEXT && V(b) <= M) {
      unsigned sw = TD[x.a].w;
      if ((V(b) & maskw(sw)) == maskw(sw)) return a;
      return tZext(tAnd(x.a, TD.bv(V(b), sw)), w);
    }
    if (iteConst(a)) return mapIte(a, [&](T z) { return tAnd(z, b); });
    if (x.op == O_OR && C(x.b)) return tOr(tAnd(x.a, b), TD.bv(V(x.b) & V(b), w));
    return TD.mk(O_AND, S_BV, w, a, b);
  }
  if (a == b) return a;
  if (isNotOf(a, b) || isNotOf(b, a)) return TD.bv(0, w);
  {
    const Node x = TD[a], y = TD[b];
    if (x.op == O_AND && (x.a == b || x.b == b)) return a;
    if (y.op == O_AND && (y.a == a || y.b == a)) return b;
    if (w == 1) {
      if (x.op == O_AND && (isNotOf(x.a, b) || isNotOf(x.b, b) || isNotOf(b, x.a) || isNotOf(b, x.b))) return TD.bv(0, 1);
      if (y.op == O_AND && (isNotOf(y.a, a) || isNotOf(y.b, a) || isNotOf(a, y.a) || isNotOf(a, y.b))) return TD.bv(0, 1);
    }
    if (x.op == O_ZEXT && y.op == O_ZEXT && TD[x.a].w == TD[y.a].w) return tZext(tAnd(x.a, y.a), w);
  }
  if (a > b) std::swap(a, b);
  return TD.mk(O_AND, S_BV, w, a, b);
}
T tOr(T a, T b) {
  unsigned w = TD[a].w; uint64_t M = maskw(w);
  if (C(a)) std::swap(a, b);
  if (C(b)) {
    if (V(b) == 0) return a;
    if (V(b) == M) return b;
    if (C(a)) return TD.bv(V(a) | V(b), w);
    const Node x = TD[a];
    if (x.op == O_OR && C(x.b)) return tOr(x.a, TD.bv(V(x.b) | V(b), w));
    if (iteConst(a)) return mapIte(a, [&](T z) { return tOr(z, b); });
    return TD.mk(O_OR, S_BV, w, a, b);
  }
  if (a == b) return a;
  if (isNotOf(a, b) || isNotOf(b, a)) return TD.bv(M, w);
  const Node x = TD[a], y = TD[b];
  if (w == 1) {
    // absorption and complement
    if (x.op == O_AND && (x.a == b || x.b == b)) return b;
    if (y.op == O_AND && (y.a == a || y.b == a)) return a;
    if (x.op == O_AND && y.op == O_AND) { // (p&q)|(p&!q) = p
      T xs[2] = {x.a, x.b}, ys[2] = {y.a, y.b};
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
        if (xs[i] == ys[j] && (isNotOf(xs[1 - i], ys[1 - j]) || isNotOf(ys[1 - j], xs[1 - i]))) return xs[i];
    }
    if (x.op == O_AND) { if (isNotOf(x.a, b) || isNotOf(b, x.a)) return tOr(x.b, b); if (isNotOf(x.b, b) || isNotOf(b, x.b)) return tOr(x.a, b); }
    if (y.op == O_AND) { if (isNotOf(y.a, a) || isNotOf(a, y.a)) return tOr(y.b, a); if (isNotOf(y.b, a) || isNotOf(a, y.b)) return tOr(y.a, a); }
  }
  if (x.op == O_ZEXT && y.op == O_ZEXT && TD[x.a].w == TD[y.a].w) return tZext(tOr(x.a, y.a), w);
  if (a > b) std::swap(a, b);
  return TD.mk(O_OR, S_BV, w, a, b);
}
T tXor(T a, T b) {
  unsigned w = TD[a].w;
  if (C(a)) std::swap(a, b);
  if (C(b)) {
    if (V(b) == 0) return a;
    if (C(a)) return TD.bv(V(a) ^ V(b), w);
    const Node x = TD[a];
    if (x.op == O_XOR && C(x.b)) return tXor(x.a, TD.bv(V(x.b) ^ V(b), w));
    if (iteConst(a)) return mapIte(a, [&](T z) { return tXor(z, b); });
    if (w == 1 && V(b) == 1) { // not of comparison
      if (x.op == O_ULT) return tUle(x.b, x.a);
      if (x.op == O_ULE) return tUlt(x.b, x.a);
      if (x.op == O_SLT) return tSle(x.b, x.a);
      if (x.op == O_SLE) return tSlt(x.b, x.a);
      if (x.op == O_RLT) return TD.mk(O_RLE, S_BV, 1, x.b, x.a);
      if (x.op == O_RLE) return TD.mk(O_RLT, S_BV, 1, x.b, x.a);
    }
    return TD.mk(O_XOR, S_BV, w, a, b);
  }
  if (a == b) return TD.bv(0, w);
  const Node x = TD[a], y = TD[b];
  if (x.op == O_XOR && C(x.b)) return tXor(tXor(x.a, b), x.b);
  if (y.op == O_XOR && C(y.b)) return tXor(tXor(a, y.a), y.b);
  // flatten small xor chains so that parities normalise
  std::vector<T> xs; std::vector<T> st{a, b}; bool ok = true;
  while (!st.empty()) { T t = st.back(); st.pop_back(); const Node z = TD[t]; if (z.op == O_XOR && !C(z.b)) { st.push_back(z.a); st.push_back(z.b); } else xs.push_back(t); if (xs.size() + st.size() > 64) { ok = false; break; } }
  if (ok && xs.size() > 2) {
    std::sort(xs.begin(), xs.end());
    std::vector<T> ys; for (size_t i = 0; i < xs.size();) { size_t j = i; while (j < xs.size() && xs[j] == xs[i]) j++; if ((j - i) & 1) ys.push_back(xs[i]); i = j; }
    if (ys.empty()) return TD.bv(0, w);
    T r = ys[0]; for (size_t i = 1; i < ys.size(); i++) r = TD.mk(O_XOR, S_BV, w, r < ys[i] ? r : ys[i], r < ys[i] ? ys[i] : r);
    return r;
  }
  if (x.op == O_ZEXT && y.op == O_ZEXT && TD[x.a].w == TD[y.a].w) return tZext(tXor(x.a, y.a), w);
  if (a > b) std::swap(a, b);
  return TD.mk(O_XOR, S_BV, w, a, b);
}
T tConcat(T hi, T lo) {
  unsigned wh = TD[hi].w, wl = TD[lo].w;
  if (C(hi) && C(lo)) return TD.bv((V(hi) << wl) | V(lo), wh + wl);
  if (C(hi) && V(hi) == 0) return tZext(lo, wh + wl);
  const Node x = TD[hi], y = TD[lo];
  if (x.op == O_EXTRACT && y.op == O_EXTRACT && x.a == y.a && x.k == y.k + wl) return tExtract(x.a, y.k, wh + wl);
  return TD.mk(O_CONCAT, S_BV, wh + wl, hi, lo);
}
static T tExtract1(T a, unsigned lo, unsigned w);
T tExtract(T a, unsigned lo, unsigned w) { // memoised: the pushes below would otherwise unfold shared terms
  const Node x = TD[a];
  if (lo == 0 && w == x.w) return a;
  if (x.op == O_CONST) return TD.bv(x.k >> lo, w);
  static std::unordered_map<uint64_t, T> memo; uint64_t key = ((uint64_t)a << 16) | (lo << 8) | w;
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  T r = tExtract1(a, lo, w); return memo[key] = r;
}
static T tExtract1(T a, unsigned lo, unsigned w) {
  const Node x = TD[a];
  switch (x.op) {
  case O_EXTRACT: return tExtract(x.a, x.k + lo, w);
  case O_ZEXT: {
    unsigned sw = TD[x.a].w;
    if (lo >= sw) return TD.bv(0, w);
    if (lo + w <= sw) return tExtract(x.a, lo, w);
    return tZext(tExtract(x.a, lo, sw - lo), w);
  }
  case O_SEXT: {
    unsigned sw = TD[x.a].w;
    if (lo + w <= sw) return tExtract(x.a, lo, w);
    if (lo < sw) return tSext(tExtract(x.a, lo, sw - lo), w);
    break;
  }
  case O_CONCAT: {
    unsigned wl = TD[x.b].w;
    if (lo + w <= wl) return tExtract(x.b, lo, w);
    if (lo >= wl) return tExtract(x.a, lo - wl, w);
    return tConcat(tExtract(x.a, 0, lo + w - wl), tExtract(x.b, lo, wl - lo));
  }
  case O_AND: return tAnd(tExtract(x.a, lo, w), tExtract(x.b, lo, w));
  case O_OR: return tOr(tExtract(x.a, lo, w), tExtract(x.b, lo, w));
  case O_XOR: return tXor(tExtract(x.a, lo, w), tExtract(x.b, lo, w));
  case O_ADD: if (lo == 0) return tAdd(tExtract(x.a, 0, w), tExtract(x.b, 0, w)); break;
  case O_MUL: if (lo == 0) return tMul(tExtract(x.a, 0, w), tExtract(x.b, 0, w)); break;
  case O_ITE: { T p = tExtract(x.b, lo, w), q = tExtract(x.c, lo, w); return tIte(x.a, p, q); }
  case O_SHL: if (C(x.b)) { uint64_t s = V(x.b); if (lo >= s) return tExtract(x.a, lo - s, w); if (lo + w <= s) return TD.bv(0, w); if (lo == 0) { return tShl(tExtract(x.a, 0, w), TD.bv(s, w)); } } break;
  case O_LSHR: if (C(x.b)) { uint64_t s = V(x.b); if (lo + s + w <= x.w) return tExtract(x.a, lo + s, w); } break;
  default: break;
  }
  return TD.mk(O_EXTRACT, S_BV, w, a, 0, 0, lo);
}
T tZext(T a, unsigned w) {
  const Node x = TD[a];
  if (x.w == w) return a;
  if (x.op == O_CONST) return TD.bv(x.k, w);
  if (x.op == O_ZEXT) return tZext(x.a, w);
  if (iteConst(a)) return mapIte(a, [&](T z) { return tZext(z, w); });
  if (x.op == O_ADD && C(x.b)) { uint64_t l, h; urange(x.a, l, h); if (h <= maskw(x.w) - V(x.b)) return tAdd(tZext(x.a, w), TD.bv(V(x.b), w)); }
  return TD.mk(O_ZEXT, S_BV, w, a);
}
T tSext(T a, unsigned w) {
  const Node x = TD[a];
  if (x.w == w) return a;
  if (x.op == O_CONST) return TD.bv((uint64_t)sextw(x.k, x.w), w);
  if (x.op == O_SEXT) return tSext(x.a, w);
  if (x.op == O_ZEXT) return tZext(x.a, w);
  if (iteConst(a)) return mapIte(a, [&](T z) { return tSext(z, w); });
  if (x.op == O_ADD && C(x.b)) { uint64_t l, h, m = maskw(x.w) >> 1; urange(x.a, l, h); if (V(x.b) <= m && h <= m - V(x.b)) return tAdd(tZext(x.a, w), TD.bv(V(x.b), w)); }
  return TD.mk(O_SEXT, S_BV, w, a);
}
T tIte(T c, T a, T b) {
  if (a == b) return a;
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  const Node &cn = TD[c];
  if (cn.op == O_XOR && C(cn.b)) { T cc = cn.a; return tIte(cc, b, a); }
  const Node x = TD[a], y = TD[b];
  assert(x.sort == y.sort && (x.w == y.w || x.sort == S_REAL));
  if (x.sort == S_BV && x.w == 1) {
    if (C(a)) return V(a) ? tOr(c, b) : tAnd(tNot(c), b);
    if (C(b)) return V(b) ? tOr(tNot(c), a) : tAnd(c, a);
    if (a == c) return tOr(c, b);
    if (b == c) return tAnd(c, a);
  }
  if (x.op == O_ITE && x.a == c) return tIte(c, x.b, b);
  if (y.op == O_ITE && y.a == c) return tIte(c, a, y.c);
  if (y.op == O_ITE && y.b == a) return tIte(tOr(c, y.a), a, y.c);
  if (y.op == O_ITE && y.c == a && C(a)) return tIte(tAnd(tNot(c), y.a), y.b, a);
  if (x.op == O_ITE && x.c == b) return tIte(tAnd(c, x.a), x.b, b);
  if (x.op == O_ITE && x.b == b && C(b)) return tIte(tAnd(c, tNot(x.a)), x.c, b);
  return TD.mk(O_ITE, x.sort, x.w, c, a, b);
}
T tEq(T a, T b) {
  if (a == b) return tTrue();
  const Node x = TD[a], y = TD[b];
  assert(x.w == y.w);
  if (C(a) && C(b)) return tFalse();
  if (C(a)) return tEq(b, a);
  if (C(b)) {
    uint64_t v = V(b);
    if (x.w == 1) return v ? a : tNot(a);
    if (x.op == O_ADD && C(x.b)) return tEq(x.a, TD.bv(v - V(x.b), x.w));
    if (x.op == O_XOR && C(x.b)) return tEq(x.a, TD.bv(v ^ V(x.b), x.w));
    if (x.op == O_ZEXT) { unsigned sw = TD[x.a].w; if (v >> sw) return tFalse(); return tEq(x.a, TD.bv(v, sw)); }
    if (x.op == O_SEXT) { unsigned sw = TD[x.a].w; T tv = TD.bv(v, sw); if (tSext(tv, x.w) != b) return tFalse(); return tEq(x.a, tv); }
    if (x.op == O_CONCAT) { unsigned wl = TD[x.b].w; return tAnd(tEq(x.a, TD.bv(v >> wl, TD[x.a].w)), tEq(x.b, TD.bv(v, wl))); }
    if (x.op == O_ITE) {
      bool bc = C(x.b), cc = C(x.c);
      if (bc || cc || TD[x.b].op == O_ITE || TD[x.c].op == O_ITE) {
        T p = tEq(x.b, b), q = tEq(x.c, b);
        return tIte(x.a, p, q);
      }
    }
    if (x.op == O_MUL && C(x.b) && V(x.b) == maskw(x.w)) return tEq(x.a, TD.bv(0 - v, x.w));
    uint64_t lo, hi; urange(a, lo, hi); if (v < lo || v > hi) return tFalse();
  } else {
    if (x.w == 1) return tNot(tXor(a, b));
    if (x.op == O_ZEXT && y.op == O_ZEXT && TD[x.a].w == TD[y.a].w) return tEq(x.a, y.a);
    if (x.op == O_SEXT && y.op == O_SEXT && TD[x.a].w == TD[y.a].w) return tEq(x.a, y.a);
    if (x.op == O_CONCAT && y.op == O_CONCAT && TD[x.b].w == TD[y.b].w) return tAnd(tEq(x.a, y.a), tEq(x.b, y.b));
    if (x.op == O_ITE && y.op == O_ITE && x.a == y.a) { T p = tEq(x.b, y.b), q = tEq(x.c, y.c); return tIte(x.a, p, q); }
    if (isPolyOp(a) || isPolyOp(b)) { int r = nfEqualB(a, b); if (r == 1) return tTrue(); if (r == 0) return tFalse(); }
  }
  if (!C(b) && a > b) std::swap(a, b);
  return TD.mk(O_EQ, S_BV, 1, a, b);
}
T tUlt(T a, T b) {
  if (a == b) return tFalse();
  if (C(a) && C(b)) return TD.bv(V(a) < V(b), 1);
  uint64_t la, ha, lb, hb; urange(a, la, ha); urange(b, lb, hb);
  if (ha < lb) return tTrue();
  if (la >= hb) return tFalse();
  const Node x = TD[a], y = TD[b];
  if (x.w == 1) return tAnd(tNot(a), b);
  if (C(b) && V(b) == 1) return tEq(a, TD.bv(0, x.w));
  if (C(a) && V(a) == 0) return tNot(tEq(b, a));
  if (C(b) && x.op == O_ZEXT) return tUlt(x.a, TD.bv(V(b), TD[x.a].w));
  if (C(a) && y.op == O_ZEXT) return tUlt(TD.bv(V(a), TD[y.a].w), y.a);
  if (x.op == O_ZEXT && y.op == O_ZEXT && TD[x.a].w == TD[y.a].w) return tUlt(x.a, y.a);
  if (C(b) && iteConst(a)) return mapIte(a, [&](T z) { return tUlt(z, b); });
  if (C(a) && iteConst(b)) return mapIte(b, [&](T z) { return tUlt(a, z); });
  return TD.mk(O_ULT, S_BV, 1, a, b);
}
T tUle(T a, T b) {
  if (a == b) return tTrue();
  if (C(a) && C(b)) return TD.bv(V(a) <= V(b), 1);
  uint64_t la, ha, lb, hb; urange(a, la, ha); urange(b, lb, hb);
  if (ha <= lb) return tTrue();
  if (la > hb) return tFalse();
  if (C(b)) { if (V(b) == maskw(TD[a].w)) return tTrue(); return tUlt(a, TD.bv(V(b) + 1, TD[a].w)); }
  if (C(a)) { if (V(a) == 0) return tTrue(); return tUlt(TD.bv(V(a) - 1, TD[a].w), b); }
  const Node x = TD[a], y = TD[b];
  if (x.w == 1) return tOr(tNot(a), b);
  if (x.op == O_ZEXT && y.op == O_ZEXT && TD[x.a].w == TD[y.a].w) return tUle(x.a, y.a);
  return TD.mk(O_ULE, S_BV, 1, a, b);
}
T tSlt(T a, T b) {
  if (a == b) return tFalse();
  unsigned w = TD[a].w;
  if (C(a) && C(b)) return TD.bv(sextw(V(a), w) < sextw(V(b), w), 1);
  if (nonNeg(a) && nonNeg(b)) return tUlt(a, b);
  const Node x = TD[a], y = TD[b];
  if (x.op == O_SEXT && y.op == O_SEXT && TD[x.a].w == TD[y.a].w) return tSlt(x.a, y.a);
  if (x.op == O_SEXT && C(b)) { unsigned sw = TD[x.a].w; T v = TD.bv(V(b), sw); if (tSext(v, w) == b) return tSlt(x.a, v); return TD.bv(sextw(V(b), w) > 0, 1); }
  if (y.op == O_SEXT && C(a)) { unsigned sw = TD[y.a].w; T v = TD.bv(V(a), sw); if (tSext(v, w) == a) return tSlt(v, y.a); return TD.bv(sextw(V(a), w) < 0, 1); }
  if (C(b) && iteConst(a)) return mapIte(a, [&](T z) { return tSlt(z, b); });
  if (C(a) && iteConst(b)) return mapIte(b, [&](T z) { return tSlt(a, z); });
  return TD.mk(O_SLT, S_BV, 1, a, b);
}
T tSle(T a, T b) {
  if (a == b) return tTrue();
  unsigned w = TD[a].w;
  if (C(a) && C(b)) return TD.bv(sextw(V(a), w) <= sextw(V(b), w), 1);
  if (nonNeg(a) && nonNeg(b)) return tUle(a, b);
  if (C(b)) { if (V(b) == maskw(w) >> 1) return tTrue(); return tSlt(a, TD.bv(V(b) + 1, w)); }
  if (C(a)) { if (V(a) == 1ull << (w - 1)) return tTrue(); return tSlt(TD.bv(V(a) - 1, w), b); }
  const Node x = TD[a], y = TD[b];
  if (x.op == O_SEXT && y.op == O_SEXT && TD[x.a].w == TD[y.a].w) return tSle(x.a, y.a);
  return TD.mk(O_SLE, S_BV, 1, a, b);
}

// ---------------------------------------------------------------- exact reals: rational functions
#include "poly.h"

T rFromDouble(double d) {
  if (!std::isfinite(d)) { // infinities and NaN are not numbers of the exact domain: opaque
    return TD.mk(O_BITSR, S_REAL, 64, TD.bv(*(uint64_t *)&d, 64));
  }
  return TD.rconst(mpq_class(d));
}
static bool isOpaqueInf(T t, int &sign) {
  const Node &x = TD[t];
  if (x.op == O_BITSR && TD.isC(x.a)) { uint64_t v = TD.cv(x.a); double d; memcpy(&d, &v, 8); sign = std::isnan(d) ? 0 : (d > 0 ? 1 : -1); return true; }
  return false;
}
T rAdd(T a, T b) {
  if (TD.isRC(a)) std::swap(a, b);
  if (TD.isRC(b)) {
    if (TD.rq(b) == 0) return a;
    if (TD.isRC(a)) return TD.rconst(TD.rq(a) + TD.rq(b));
    const Node x = TD[a];
    if (x.op == O_RADD && TD.isRC(x.b)) return rAdd(x.a, TD.rconst(TD.rq(x.b) + TD.rq(b)));
    return TD.mk(O_RADD, S_REAL, 64, a, b);
  }
  if (a > b) std::swap(a, b);
  return TD.mk(O_RADD, S_REAL, 64, a, b);
}
T rNeg(T a) { return rMul(a, TD.rconst(-1)); }
T rSub(T a, T b) { if (a == b) return TD.rconst(0); return rAdd(a, rNeg(b)); }
T rMul(T a, T b) {
  if (TD.isRC(a)) std::swap(a, b);
  if (TD.isRC(b)) {
    if (TD.rq(b) == 0) return b;
    if (TD.rq(b) == 1) return a;
    if (TD.isRC(a)) return TD.rconst(TD.rq(a) * TD.rq(b));
    const Node x = TD[a];
    if (x.op == O_RMUL && TD.isRC(x.b)) return rMul(x.a, TD.rconst(TD.rq(x.b) * TD.rq(b)));
    if (x.op == O_ITE && TD.isRC(x.b) && TD.isRC(x.c)) { T p = rMul(x.b, b), q = rMul(x.c, b); return tIte(x.a, p, q); }
    return TD.mk(O_RMUL, S_REAL, 64, a, b);
  }
  if (a > b) std::swap(a, b);
  return TD.mk(O_RMUL, S_REAL, 64, a, b);
}
T rDiv(T a, T b) {
  if (TD.isRC(b) && TD.rq(b) != 0) return rMul(a, TD.rconst(1 / TD.rq(b)));
  if (TD.isRC(a) && TD.rq(a) == 0) return a;
  return TD.mk(O_RDIV, S_REAL, 64, a, b);
}
bool rConstVal(T t, mpq_class &q) {
  if (TD.isRC(t)) { q = TD.rq(t); return true; }
  RFP r = nfR(t);
  if (!r) return false;
  if (r->n.empty()) { q = 0; return true; }
  if (r->d.empty() && r->n.size() == 1 && r->n.begin()->first.empty()) { q = r->n.begin()->second; return true; }
  return false;
}
int nfEqual(T a, T b) {
  if (a == b) return 1;
  if (TD[a].sort == S_BV) return nfEqualB(a, b);
  if (TD[a].sort == S_REAL) {
    mpq_class q; T d = rSub(a, b);
    if (rConstVal(d, q)) return q == 0 ? 1 : 0;
  }
  return -1;
}
// sign of a rational function all of whose atoms are positive (exponentials) and whose coefficients agree in sign; 0 if not of that form
static bool posPoly(const PolyQ &p, int &sg) { sg = 0; for (auto &kv : p) { int c = kv.second > 0 ? 1 : -1; if (sg && c != sg) return false; sg = c; for (T m : kv.first) if (TD[m].op != O_RUF || (TD[m].k != F_EXP && TD[m].k != F_POW10)) return false; } return sg != 0; }
static int posSign(T d) { RFP r = nfR(d); if (!r || r->n.empty()) return 0; int sg, f; if (!posPoly(r->n, sg)) return 0; for (auto &fe : r->d) { if (!posPoly(factors[fe.first], f)) return 0; if (f < 0 && (fe.second & 1)) sg = -sg; } return sg; }
bool hugeAssumed = false;
static T rCmp(Op op, T a, T b) {
  if (a == b) return TD.bv(op != O_RLT, 1);
  int s;
  if (isOpaqueInf(a, s)) { if (s == 0) return tFalse(); if (op == O_REQ) return tFalse(); return TD.bv(s < 0, 1); }
  if (isOpaqueInf(b, s)) { if (s == 0) return tFalse(); if (op == O_REQ) return tFalse(); return TD.bv(s > 0, 1); }
  mpq_class q; T d = rSub(a, b);
  if (rConstVal(d, q)) return TD.bv(op == O_RLT ? q < 0 : op == O_RLE ? q <= 0 : q == 0, 1);
  { int sg = posSign(d); if (sg) return TD.bv(op == O_REQ ? false : sg < 0, 1); } // sums of positive quantities
  // a summand of the order of the largest double decides: symbolic quantities are assumed below 1e300 in the exact domain
  { RFP r = nfR(d); if (r && r->d.empty()) { auto it = r->n.find(Mono()); static const mpq_class huge(1e300); if (it != r->n.end() && abs(it->second) > huge) { bool ok = true; for (auto &kv : r->n) if (!kv.first.empty() && abs(kv.second) > huge / 1000000) ok = false; if (ok) { hugeAssumed = true; return TD.bv(op == O_REQ ? false : it->second < 0, 1); } } } }
  // positivity of atoms (exp, sqrt)
  const Node x = TD[a], y = TD[b];
  if (y.op == O_RUF && y.k == F_EXP && TD.isRC(a) && TD.rq(a) <= 0) return op == O_REQ ? tFalse() : tTrue();
  if (x.op == O_RUF && x.k == F_EXP && TD.isRC(b) && TD.rq(b) <= 0) return tFalse();
  if (x.op == O_RUF && y.op == O_RUF && x.k == F_SQRT && y.k == F_SQRT) return rCmp(op, x.a, y.a); // radicands are non-negative where a root is taken
  if (x.op == O_ITE && TD.isRC(b) && (TD.isRC(x.b) || TD.isRC(x.c))) { T p = rCmp(op, x.b, b), r = rCmp(op, x.c, b); return tIte(x.a, p, r); }
  if (y.op == O_ITE && TD.isRC(a) && (TD.isRC(y.b) || TD.isRC(y.c))) { T p = rCmp(op, a, y.b), r = rCmp(op, a, y.c); return tIte(y.a, p, r); }
  if (op == O_REQ && a > b) std::swap(a, b);
  return TD.mk(op, S_BV, 1, a, b);
}
T rLt(T a, T b) { return rCmp(O_RLT, a, b); }
T rLe(T a, T b) { return rCmp(O_RLE, a, b); }
T rEq(T a, T b) { return rCmp(O_REQ, a, b); }
double evalRealFn(uint64_t f, double x) {
  switch (f) {
  case F_SQRT: return std::sqrt(x); case F_EXP: return std::exp(x); case F_LOG: return std::log(x);
  case F_SIN: return std::sin(x); case F_COS: return std::cos(x); case F_TAN: return std::tan(x);
  case F_POW10: return std::pow(10.0, x); case F_ATAN: return std::atan(x); case F_LOG10: return std::log10(x); case F_POW2: return std::pow(2.0, x); case F_F32: return (double)(float)x;
  }
  return NAN;
}
T rUF(RFn f, T a) {
  mpq_class q;
  if (rConstVal(a, q)) {
    if (f == F_SQRT && q >= 0) { // exact roots stay exact
      mpz_class n = q.get_num(), d = q.get_den();
      if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) { mpz_class sn, sd; mpz_sqrt(sn.get_mpz_t(), n.get_mpz_t()); mpz_sqrt(sd.get_mpz_t(), d.get_mpz_t()); return TD.rconst(mpq_class(sn, sd)); }
    }
    return rFromDouble(evalRealFn(f, nearD(q)));
  }
  if (f == F_SQRT || f == F_EXP || f == F_POW10 || f == F_LOG || f == F_COS || f == F_SIN || f == F_F32) a = rCanon(a);
  if (f == F_POW10) { RFP r = nfR(a); if (r && r->d.empty() && !r->n.empty() && r->n.rbegin()->second < 0) return rDiv(TD.rconst(1), TD.mk(O_RUF, S_REAL, 64, rCanon(rNeg(a)), 0, 0, f)); } // 10^-x = 1/10^x
  return TD.mk(O_RUF, S_REAL, 64, a, 0, 0, f);
}
// rounding to single precision: |f - a| <= 2^-24 |a|, exact where certainly representable
static void sRange(T t, __int128 &lo, __int128 &hi, int depth = 12);
bool f32Used = false;
T rF32(T a) {
  const Node x = TD[a];
  if (x.op == O_RUF && x.k == F_F32) return a;
  if (x.op == O_ITE) return tIte(x.a, rF32(x.b), rF32(x.c));
  if (x.op == O_VAR && TD.vars[x.k].w == 32) return a;
  if (x.op == O_RFROMS || x.op == O_RFROMU) { if (TD[x.a].w <= 24) return a; if (x.op == O_RFROMS) { __int128 lo, hi; sRange(x.a, lo, hi); if (lo >= -(1 << 24) && hi <= 1 << 24) return a; } }
  f32Used = true; return rUF(F_F32, a);
}
double nearD(const mpq_class &q) {
  double d = q.get_d(); if (!std::isfinite(d)) return d; double u = std::nextafter(d, q > 0 ? INFINITY : -INFINITY); if (!std::isfinite(u)) return d;
  mpq_class x = abs(q - mpq_class(d)), y = abs(mpq_class(u) - q); return y < x ? u : d;
}
// signed range of a bit-vector term (conservative)
static void sRange(T t, __int128 &lo, __int128 &hi, int depth) {
  const Node x = TD[t]; __int128 H = (__int128)1 << (x.w - 1); lo = -H; hi = H - 1; if (depth == 0) return;
  __int128 a, b, c, d;
  switch (x.op) {
  case O_CONST: lo = hi = x.w >= 64 ? (int64_t)x.k : ((x.k >> (x.w - 1)) & 1) ? (__int128)x.k - 2 * H : (__int128)x.k; return;
  case O_ZEXT: sRange(x.a, a, b, depth - 1); if (a < 0) { a = 0; b = ((__int128)1 << TD[x.a].w) - 1; } lo = a; hi = b; return;
  case O_SEXT: sRange(x.a, lo, hi, depth - 1); return;
  case O_ADD: sRange(x.a, a, b, depth - 1); sRange(x.b, c, d, depth - 1); if (a + c >= -H && b + d < H) { lo = a + c; hi = b + d; } return;
  case O_MUL: { sRange(x.a, a, b, depth - 1); sRange(x.b, c, d, depth - 1); long double m = std::max(fabsl((long double)a), fabsl((long double)b)) * std::max(fabsl((long double)c), fabsl((long double)d)); if (m > 1e30L) return; __int128 p[4] = {a * c, a * d, b * c, b * d}; __int128 l = p[0], h = p[0]; for (auto v : p) { l = std::min(l, v); h = std::max(h, v); } if (l >= -H && h < H) { lo = l; hi = h; } return; }
  case O_ITE: sRange(x.b, a, b, depth - 1); sRange(x.c, c, d, depth - 1); lo = std::min(a, c); hi = std::max(b, d); return;
  case O_AND: if (TD.isC(x.b)) { sRange(x.b, c, d, 1); if (c >= 0) { lo = 0; hi = d; } } return;
  case O_UREM: if (TD.isC(x.b)) { sRange(x.b, c, d, 1); if (c > 0) { lo = 0; hi = d - 1; } } return;
  default: return;
  }
}
// the integer denoted by a bit vector, as a real; exact distribution over sums and products that cannot wrap
T rFromBV(T t, bool sg) {
  const Node x = TD[t]; if (x.op == O_CONST) { __int128 l, h; if (sg) { sRange(t, l, h); return TD.rconst(mpq_class(mpz_class((long)l))); } return TD.rconst(mpq_class(mpz_class((unsigned long)x.k))); }
  if (x.op == O_ITE) return tIte(x.a, rFromBV(x.b, sg), rFromBV(x.c, sg));
  if (x.op == O_ZEXT) return rFromBV(x.a, false);
  if (x.op == O_SEXT && sg) return rFromBV(x.a, true);
  __int128 l, h; sRange(t, l, h); __int128 H = (__int128)1 << (x.w - 1);
  if (x.op == O_ADD || x.op == O_MUL) {
    __int128 a, b, c, d; sRange(x.a, a, b); sRange(x.b, c, d);
    bool fit; if (x.op == O_ADD) fit = a + c >= -H && b + d < H; else { long double m = std::max(fabsl((long double)a), fabsl((long double)b)) * std::max(fabsl((long double)c), fabsl((long double)d)); fit = m < (long double)H; }
    if (fit && (sg || (a >= 0 && c >= 0))) return x.op == O_ADD ? rAdd(rFromBV(x.a, true), rFromBV(x.b, true)) : rMul(rFromBV(x.a, true), rFromBV(x.b, true));
  }
  if (sg && l >= 0) sg = false;
  if (isPolyOp(t)) { // one representative per polynomial
    PolyBP p = nfB(t);
    if (p && p->size() <= 64) { T r = TD.bv(0, x.w); for (auto &kv : *p) { T m = TD.bv(kv.second, x.w); for (T f : kv.first) m = tMul(m, f); r = tAdd(r, m); } t = r; if (TD.isC(t)) return rFromBV(t, sg); }
  }
  return TD.mk(sg ? O_RFROMS : O_RFROMU, S_REAL, 64, t);
}
T rFloor(T a) {
  mpq_class q; if (rConstVal(a, q)) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return TD.rconst(mpq_class(z)); }
  if (TD[a].op == O_RFLOOR || TD[a].op == O_RFROMS || TD[a].op == O_RFROMU) return a;
  return TD.mk(O_RFLOOR, S_REAL, 64, rCanon(a));
}
T rTrunc(T a) { T z = TD.rconst(0); return tIte(rLt(a, z), rNeg(rFloor(rNeg(a))), rFloor(a)); }
T rRoundAway(T a) { T z = TD.rconst(0), h = TD.rconst(mpq_class(1, 2)); return tIte(rLt(a, z), rNeg(rFloor(rAdd(rNeg(a), h))), rFloor(rAdd(a, h))); }
T rAbs(T a) { mpq_class q; if (rConstVal(a, q)) return TD.rconst(abs(q)); return tIte(rLt(a, TD.rconst(0)), rNeg(a), a); }

// ---------------------------------------------------------------- IEEE floats
static float f32(uint64_t b) { float f; uint32_t v = b; memcpy(&f, &v, 4); return f; }
static double f64(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static uint64_t b32(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }
static uint64_t b64(double f) { uint64_t v; memcpy(&v, &f, 8); return v; }
static double fval(uint64_t b, Sort s) { return s == S_F32 ? (double)f32(b) : f64(b); }
static uint64_t fbits(double d, Sort s) { return s == S_F32 ? b32((float)d) : b64(d); }
static uint64_t fop2(Op op, uint64_t a, uint64_t b, Sort s) {
  if (s == S_F32) { float x = f32(a), y = f32(b), r = 0; switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; case O_FREM: r = fmodf(x, y); break; default: break; } return b32(r); }
  double x = f64(a), y = f64(b), r = 0; switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; case O_FREM: r = fmod(x, y); break; default: break; } return b64(r);
}
static double frnd(double x, uint64_t k) { switch (k) { case RND_FLOOR: return std::floor(x); case RND_CEIL: return std::ceil(x); case RND_TRUNC: return std::trunc(x); case RND_NEAREST_AWAY: return std::round(x); default: return std::nearbyint(x); } }
T fOp(Op op, T a, T b) {
  Sort s = TD[a].sort;
  if (C(a) && C(b)) return TD.fconst(fop2(op, V(a), V(b), s), s);
  if ((op == O_FADD || op == O_FMUL) && a > b) std::swap(a, b);
  if (op == O_FMUL || op == O_FDIV) { if (C(b) && fval(V(b), s) == 1.0) return a; if (op == O_FMUL && C(a) && fval(V(a), s) == 1.0) return b; }
  return TD.mk(op, s, TD[a].w, a, b);
}
T fUn(Op op, T a, uint64_t k) {
  Sort s = TD[a].sort; const Node x = TD[a];
  if (C(a)) {
    double d = fval(V(a), s);
    switch (op) { case O_FSQRT: return TD.fconst(s == S_F32 ? b32(sqrtf(f32(V(a)))) : b64(std::sqrt(d)), s);
      case O_FNEG: return TD.fconst(V(a) ^ (1ull << (s == S_F32 ? 31 : 63)), s);
      case O_FABS: return TD.fconst(V(a) & ~(1ull << (s == S_F32 ? 31 : 63)), s);
      case O_FRND: return TD.fconst(fbits(frnd(d, k), s), s);
      case O_FUF: return TD.fconst(fbits(evalRealFn(k, d), s), s);
      default: break; }
  }
  if (op == O_FNEG && x.op == O_FNEG) return x.a;
  if (op == O_FABS && (x.op == O_FABS)) return a;
  if (op == O_FABS && x.op == O_FNEG) return fUn(O_FABS, x.a);
  return TD.mk(op, s, TD[a].w, a, 0, 0, k);
}
// values that are certainly finite, or certainly no NaN
static bool fFinite(T t, int d = 0) {
  const Node x = TD[t]; if (d > 8) return false;
  switch (x.op) {
  case O_CONST: return std::isfinite(fval(x.k, x.sort));
  case O_SI2F: case O_UI2F: return true;
  case O_FNEG: case O_FABS: case O_FRND: return fFinite(x.a, d + 1);
  case O_FDIV: return TD[x.b].op == O_CONST && std::fabs(fval(TD[x.b].k, x.sort)) >= 1 && fFinite(x.a, d + 1);
  case O_FMUL: { for (int q = 0; q < 2; q++) { T c = q ? x.a : x.b, o = q ? x.b : x.a; if (TD[c].op == O_CONST && std::fabs(fval(TD[c].k, x.sort)) <= 1 && fFinite(o, d + 1)) return true; } return false; }
  default: return false; }
}
static bool fNonNaN(T t) {
  if (fFinite(t)) return true; const Node x = TD[t];
  switch (x.op) {
  case O_CONST: return !std::isnan(fval(x.k, x.sort));
  case O_FADD: case O_FSUB: case O_FMUL: return fFinite(x.a) && fFinite(x.b);
  case O_FDIV: return fFinite(x.a) && TD[x.b].op == O_CONST && fval(TD[x.b].k, x.sort) != 0 && fFinite(x.b);
  case O_FNEG: case O_FABS: case O_FRND: return fNonNaN(x.a);
  default: return false; }
}
T fCmp(Op op, T a, T b) {
  Sort s = TD[a].sort;
  if (C(a) && C(b)) { double x = fval(V(a), s), y = fval(V(b), s); bool r = op == O_FLT ? x < y : op == O_FLE ? x <= y : op == O_FEQ ? x == y : (std::isnan(x) || std::isnan(y)); return TD.bv(r, 1); }
  if (op == O_FUNO || op == O_FEQ) if (a > b) std::swap(a, b);
  if (a == b && op == O_FLT) return tFalse();
  if (op == O_FUNO || a == b) if (fNonNaN(a) && fNonNaN(b)) return op == O_FUNO ? tFalse() : tTrue();
  return TD.mk(op, S_BV, 1, a, b);
}
T fCvt(T a, Sort to) {
  Sort s = TD[a].sort; if (s == to) return a;
  if (C(a)) return TD.fconst(fbits(fval(V(a), s), to), to);
  if (to == S_F32 && TD[a].op == O_FCVT) return TD[a].a;
  return TD.mk(O_FCVT, to, to == S_F32 ? 32 : 64, a);
}
T toBits(T a) {
  const Node x = TD[a];
  if (x.sort == S_BV) return a;
  if (x.sort == S_REAL) {
    if (x.op == O_BITSR) return x.a;
    if (x.op == O_RCONST) return TD.bv(b64(nearD(TD.rq(a))), 64);
    return TD.mk(O_RBITS, S_BV, 64, a);
  }
  if (C(a)) return TD.bv(V(a), x.w);
  if (x.op == O_BITSF) return x.a;
  if (x.op == O_ITE) { T p = toBits(x.b), q = toBits(x.c); return tIte(x.a, p, q); }
  return TD.mk(O_FBITS, S_BV, x.w, a);
}
T fromBits(T a, Sort s) {
  const Node x = TD[a];
  if (s == S_BV) return a;
  if (s == S_REAL) {
    if (x.op == O_RBITS) return x.a;
    if (x.op == O_CONST) return rFromDouble(x.w == 32 ? (double)f32(x.k) : f64(x.k));
    if (x.op == O_ITE) { T p = fromBits(x.b, s), q = fromBits(x.c, s); return tIte(x.a, p, q); }
    return TD.mk(O_BITSR, S_REAL, 64, a);
  }
  if (C(a)) return TD.fconst(V(a), s);
  if (x.op == O_FBITS) return x.a;
  if (x.op == O_ITE) { T p = fromBits(x.b, s), q = fromBits(x.c, s); return tIte(x.a, p, q); }
  return TD.mk(O_BITSF, s, x.w, a);
}

// ---------------------------------------------------------------- evaluation
static std::vector<EVal> eMemo; static std::vector<uint32_t> eEpoch; static uint32_t curEpoch = 1;
void evalReset() { curEpoch++; }
static EVal ev(T t, const Model &m) {
  if (t < eEpoch.size() && eEpoch[t] == curEpoch) return eMemo[t];
  const Node x = TD[t]; EVal r{0, 0}; uint64_t M = maskw(x.w);
  auto A = [&] { return ev(x.a, m); }; auto B = [&] { return ev(x.b, m); };
  switch (x.op) {
  case O_CONST: r.b = x.k; break;
  case O_VAR: if (x.sort == S_REAL) r.r = x.k < m.re.size() ? m.re[x.k] : 0; else r.b = x.k < m.bv.size() ? m.bv[x.k] & M : 0; break;
  case O_ADD: r.b = (A().b + B().b) & M; break;
  case O_MUL: r.b = (A().b * B().b) & M; break;
  case O_UDIV: { uint64_t p = A().b, q = B().b; r.b = q ? p / q : M; break; }
  case O_UREM: { uint64_t p = A().b, q = B().b; r.b = q ? p % q : p; break; }
  case O_SDIV: { int64_t p = sextw(A().b, x.w), q = sextw(B().b, x.w); r.b = (q == 0 ? (p < 0 ? 1 : M) : q == -1 ? 0 - (uint64_t)p : (uint64_t)(p / q)) & M; break; }
  case O_SREM: { int64_t p = sextw(A().b, x.w), q = sextw(B().b, x.w); r.b = (q == 0 ? (uint64_t)p : q == -1 ? 0 : (uint64_t)(p % q)) & M; break; }
  case O_SHL: { uint64_t p = A().b, q = B().b; r.b = q >= x.w ? 0 : (p << q) & M; break; }
  case O_LSHR: { uint64_t p = A().b, q = B().b; r.b = q >= x.w ? 0 : p >> q; break; }
  case O_ASHR: { int64_t p = sextw(A().b, x.w); uint64_t q = B().b; r.b = (uint64_t)(p >> (q >= x.w ? 63 : q)) & M; break; }
  case O_AND: r.b = A().b & B().b; break;
  case O_OR: r.b = A().b | B().b; break;
  case O_XOR: r.b = A().b ^ B().b; break;
  case O_CONCAT: r.b = (A().b << TD[x.b].w) | B().b; break;
  case O_EXTRACT: r.b = (A().b >> x.k) & M; break;
  case O_ZEXT: r.b = A().b; break;
  case O_SEXT: r.b = (uint64_t)sextw(A().b, TD[x.a].w) & M; break;
  case O_ITE: r = A().b ? ev(x.b, m) : ev(x.c, m); break;
  case O_EQ: r.b = A().b == B().b; break;
  case O_ULT: r.b = A().b < B().b; break;
  case O_ULE: r.b = A().b <= B().b; break;
  case O_SLT: r.b = sextw(A().b, TD[x.a].w) < sextw(B().b, TD[x.b].w); break;
  case O_SLE: r.b = sextw(A().b, TD[x.a].w) <= sextw(B().b, TD[x.b].w); break;
  case O_RCONST: r.r = nearD(TD.rq(t)); break;
  case O_RADD: r.r = A().r + B().r; break;
  case O_RMUL: r.r = A().r * B().r; break;
  case O_RDIV: r.r = A().r / B().r; break;
  case O_RLT: r.b = A().r < B().r; break;
  case O_RLE: r.b = A().r <= B().r; break;
  case O_REQ: r.b = A().r == B().r; break;
  case O_RUF: r.r = evalRealFn(x.k, A().r); break;
  case O_RFROMS: r.r = (double)sextw(A().b, TD[x.a].w); break;
  case O_RFROMU: r.r = (double)A().b; break;
  case O_RFLOOR: r.r = std::floor(A().r); break;
  case O_RTOBV: { double d = A().r; r.b = (std::fabs(d) < 9e18 ? (uint64_t)(int64_t)d : (d > 0 && d < 1.8e19 ? (uint64_t)d : 0)) & M; break; }
  case O_RBITS: r.b = b64(A().r); break;
  case O_BITSR: { uint64_t v = A().b; r.r = TD[x.a].w == 32 ? f32(v) : f64(v); break; }
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: r.b = fop2(x.op, A().b, B().b, x.sort); break;
  case O_FSQRT: r.b = x.sort == S_F32 ? b32(sqrtf(f32(A().b))) : b64(std::sqrt(f64(A().b))); break;
  case O_FNEG: r.b = A().b ^ (1ull << (x.w - 1)); break;
  case O_FABS: r.b = A().b & ~(1ull << (x.w - 1)); break;
  case O_FRND: r.b = fbits(frnd(fval(A().b, x.sort), x.k), x.sort); break;
  case O_FUF: r.b = fbits(evalRealFn(x.k, fval(A().b, x.sort)), x.sort); break;
  case O_FLT: case O_FLE: case O_FEQ: case O_FUNO: { Sort s = TD[x.a].sort; double p = fval(A().b, s), q = fval(B().b, s); r.b = x.op == O_FLT ? p < q : x.op == O_FLE ? p <= q : x.op == O_FEQ ? p == q : (std::isnan(p) || std::isnan(q)); break; }
  case O_FCVT: r.b = fbits(fval(A().b, TD[x.a].sort), x.sort); break;
  case O_SI2F: { int64_t v = sextw(A().b, TD[x.a].w); r.b = x.sort == S_F32 ? b32((float)v) : b64((double)v); break; }
  case O_UI2F: { uint64_t v = A().b; r.b = x.sort == S_F32 ? b32((float)v) : b64((double)v); break; }
  case O_F2SI: { double d = fval(A().b, TD[x.a].sort); r.b = (d > -9.3e18 && d < 9.3e18) ? (uint64_t)(int64_t)d & M : 0; break; }
  case O_F2UI: { double d = fval(A().b, TD[x.a].sort); r.b = (d > -1 && d < 1.85e19) ? (d < 0 ? 0 : (uint64_t)d & M) : 0; break; }
  case O_FBITS: case O_BITSF: r.b = A().b; break;
  default: break;
  }
  if (t >= eEpoch.size()) { eEpoch.resize(TD.n.size() + 1024, 0); eMemo.resize(TD.n.size() + 1024); }
  eEpoch[t] = curEpoch; eMemo[t] = r; return r;
}
EVal evalTerm(T t, const Model &m) { return ev(t, m); }

static std::unordered_map<T, std::vector<uint32_t>> varMemo;
const std::vector<uint32_t> &termVars(T t) {
  auto it = varMemo.find(t); if (it != varMemo.end()) return it->second;
  std::vector<uint32_t> r; const Node x = TD[t];
  if (x.op == O_VAR) r.push_back((uint32_t)x.k);
  else for (T c : {x.a, x.b, x.c}) if (c) {
    const std::vector<uint32_t> &v = termVars(c);
    if (r.empty()) r = v; else { std::vector<uint32_t> u; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(u)); r.swap(u); }
  }
  return varMemo[t] = r;
}
static const char *opNames[] = {"none","const","var","add","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","rconst","radd","rmul","rdiv","rlt","rle","req","ruf","rfroms","rfromu","rfloor","rtobv","rbits","bitsr","fadd","fsub","fmul","fdiv","frem","fsqrt","fneg","fabs","frnd","flt","fle","feq","funo","fcvt","si2f","ui2f","f2si","f2ui","fbits","bitsf","fuf"};
std::string termStr(T t, int d) {
  if (!t) return "_"; const Node x = TD[t];
  if (x.op == O_CONST) return std::to_string(x.k) + ":" + std::to_string(x.w);
  if (x.op == O_RCONST) return TD.rq(t).get_str();
  if (x.op == O_VAR) return TD.vars[x.k].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + opNames[x.op];
  if (x.op == O_EXTRACT || x.op == O_RUF) s += "[" + std::to_string(x.k) + "]";
  for (T c : {x.a, x.b, x.c}) if (c) s += " " + termStr(c, d - 1);
  return s + ")";
}
