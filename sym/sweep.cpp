// SAT sweeping: decides equalities of large bit-vector DAGs bottom-up.  Nodes that agree on random inputs are
// candidates; a candidate pair is merged only when the solver proves it equal with the nodes below a cut replaced
// by unconstrained variables (which over-approximates, so a proof of equality carries over to the real nodes).
#include "sweep.h"
#include "solver.h"
#include <algorithm>
#include <array>
#include <map>
static const int LANES = 64; typedef std::array<uint64_t, LANES> Sig;
SweepStats SWS;
static std::unordered_map<T, Sig> sigMemo; static std::unordered_map<T, T> repMemo; static std::map<std::pair<unsigned, Sig>, std::vector<T>> buckets;
static uint64_t rs = 0x243F6A8885A308D3ull; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static bool bvOp(Op o) { return o >= O_CONST && o <= O_SLE; }
static uint64_t ev1(const Node &x, uint64_t a, uint64_t b, uint64_t c) {
  uint64_t M = maskw(x.w); unsigned wa = x.a ? TD[x.a].w : 0, wb = x.b ? TD[x.b].w : 0;
  switch (x.op) {
  case O_ADD: return (a + b) & M; case O_MUL: return (a * b) & M;
  case O_UDIV: return b ? a / b : M; case O_UREM: return b ? a % b : a;
  case O_SDIV: { int64_t p = sextw(a, x.w), q = sextw(b, x.w); return (q == 0 ? (p < 0 ? 1 : M) : q == -1 ? 0 - (uint64_t)p : (uint64_t)(p / q)) & M; }
  case O_SREM: { int64_t p = sextw(a, x.w), q = sextw(b, x.w); return (q == 0 ? (uint64_t)p : q == -1 ? 0 : (uint64_t)(p % q)) & M; }
  case O_SHL: return b >= x.w ? 0 : (a << b) & M; case O_LSHR: return b >= x.w ? 0 : a >> b;
  case O_ASHR: return (uint64_t)(sextw(a, x.w) >> (b >= x.w ? 63 : b)) & M;
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_CONCAT: return (a << wb) | b; case O_EXTRACT: return (a >> x.k) & M; case O_ZEXT: return a; case O_SEXT: return (uint64_t)sextw(a, wa) & M;
  case O_ITE: return a ? b : c; case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sextw(a, wa) < sextw(b, wb); case O_SLE: return sextw(a, wa) <= sextw(b, wb);
  default: return 0; }
}
T rebuildBV(const Node &x, T a, T b, T c) {
  switch (x.op) {
  case O_ADD: return tAdd(a, b); case O_MUL: return tMul(a, b); case O_UDIV: return tUDiv(a, b); case O_SDIV: return tSDiv(a, b);
  case O_UREM: return tURem(a, b); case O_SREM: return tSRem(a, b); case O_SHL: return tShl(a, b); case O_LSHR: return tLshr(a, b); case O_ASHR: return tAshr(a, b);
  case O_AND: return tAnd(a, b); case O_OR: return tOr(a, b); case O_XOR: return tXor(a, b); case O_CONCAT: return tConcat(a, b);
  case O_EXTRACT: return tExtract(a, x.k, x.w); case O_ZEXT: return tZext(a, x.w); case O_SEXT: return tSext(a, x.w); case O_ITE: return tIte(a, b, c);
  case O_EQ: return tEq(a, b); case O_ULT: return tUlt(a, b); case O_ULE: return tUle(a, b); case O_SLT: return tSlt(a, b); default: return tSle(a, b); }
}
// children first, without recursion
template <class Done, class F> static bool postorder(T root, Done done, F f) {
  std::vector<std::pair<T, bool>> st{{root, false}};
  while (!st.empty()) {
    auto p = st.back(); st.pop_back(); if (done(p.first)) continue; const Node x = TD[p.first];
    if (x.sort != S_BV || !bvOp(x.op)) return false;
    if (p.second) { f(p.first, x); continue; }
    st.push_back({p.first, true}); for (T c : {x.a, x.b, x.c}) if (c && !done(c)) st.push_back({c, false});
  }
  return true;
}
static bool sigOf(T t, Sig &out) {
  bool ok = postorder(t, [](T u) { return sigMemo.count(u) != 0; }, [](T u, const Node &x) {
    Sig s; if (x.op == O_CONST) s.fill(x.k); else if (x.op == O_VAR) { for (auto &v : s) v = rnd() & maskw(x.w); }
    else { const Sig z{}; const Sig &a = x.a ? sigMemo[x.a] : z, &b = x.b ? sigMemo[x.b] : z, &c = x.c ? sigMemo[x.c] : z; for (int i = 0; i < LANES; i++) s[i] = ev1(x, a[i], b[i], c[i]); }
    sigMemo.emplace(u, s); });
  if (ok) out = sigMemo[t]; return ok;
}
static std::map<unsigned, std::vector<T>> cutVars;
static T cutVar(unsigned w, size_t i) { auto &v = cutVars[w]; while (v.size() <= i) v.push_back(TD.newVar("cut" + std::to_string(w) + "_" + std::to_string(v.size()), S_BV, w, true)); return v[i]; }
static bool proveCut(T a, T b, int depth) {
  std::unordered_map<T, int> dist; std::vector<T> bfs{a, b}; dist[a] = dist[b] = 0; bool cut = false;
  for (size_t i = 0; i < bfs.size(); i++) { T t = bfs[i]; const Node x = TD[t]; if (dist[t] >= depth) { if (x.op != O_CONST && x.op != O_VAR) cut = true; continue; } for (T c : {x.a, x.b, x.c}) if (c && !dist.count(c)) { dist[c] = dist[t] + 1; bfs.push_back(c); } if (bfs.size() > 4000) return false; }
  (void)cut; std::unordered_map<T, T> sub; std::map<unsigned, size_t> used;
  for (T t : bfs) if (TD[t].op == O_CONST) sub[t] = t; else if (dist[t] >= depth || TD[t].op == O_VAR) sub[t] = cutVar(TD[t].w, used[TD[t].w]++);
  for (T r : {a, b}) if (!postorder(r, [&](T u) { return sub.count(u) != 0; }, [&](T u, const Node &x) { T y = rebuildBV(x, x.a ? sub[x.a] : 0, x.b ? sub[x.b] : 0, x.c ? sub[x.c] : 0); sub[u] = y; })) return false;
  T q = tNot(tEq(sub[a], sub[b])); if (isFalse(q)) return true; if (isTrue(q)) return false;
  SWS.queries++; return solveConj({q}, nullptr, nullptr, 1500, false) == R_UNSAT;
}
static bool proveEq(T a, T b) { for (int d : {3, 5, 8, 12}) { if (proveCut(a, b, d)) return true; if (nowSec() > solverDeadline) return false; } return false; }
T sweepRep(T t) {
  bool ok = postorder(t, [](T u) { return repMemo.count(u) != 0; }, [](T u, const Node &x) {
    if (x.op == O_CONST || x.op == O_VAR) { repMemo[u] = u; return; }
    T v = rebuildBV(x, x.a ? repMemo[x.a] : 0, x.b ? repMemo[x.b] : 0, x.c ? repMemo[x.c] : 0); SWS.nodes++;
    auto it = repMemo.find(v); if (v != u && it != repMemo.end()) { repMemo[u] = it->second; return; }
    if (TD[v].op == O_CONST || TD[v].op == O_VAR) { repMemo[u] = repMemo[v] = v; return; }
    Sig s; if (!sigOf(v, s)) { repMemo[u] = v; return; }
    if (TD[v].w > 1) { auto &bk = buckets[{TD[v].w, s}]; int tries = 0; for (T r : bk) { if (r == v) { repMemo[u] = repMemo[v] = v; return; } if (tries++ >= 4) break; if (proveEq(v, r)) { SWS.merged++; repMemo[u] = repMemo[v] = r; return; } } bk.push_back(v); }
    repMemo[u] = v; if (v != u) repMemo[v] = v; });
  return ok ? repMemo[t] : t;
}
