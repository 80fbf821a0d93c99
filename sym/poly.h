// Rational-function normal form of exact-real terms (included by term.cpp).
#pragma once
typedef std::map<Mono, mpq_class, MonoLess> PolyQ;
struct RF { PolyQ n; std::map<uint32_t, int> d; };
typedef std::shared_ptr<RF> RFP;
static const size_t NFR_LIM = 6000;
static std::vector<PolyQ> factors; static std::map<PolyQ, uint32_t> factorIdx; // factor id -> monic polynomial
static std::unordered_map<T, RFP> nfrMemo;

static void pAddTo(PolyQ &r, const PolyQ &q, const mpq_class &s) {
  for (auto &kv : q) { auto it = r.find(kv.first); if (it == r.end()) { mpq_class v = kv.second * s; if (v != 0) r.emplace(kv.first, v); } else { it->second += kv.second * s; if (it->second == 0) r.erase(it); } }
}
static bool pMul(const PolyQ &p, const PolyQ &q, PolyQ &r) {
  r.clear();
  if (p.size() * q.size() > NFR_LIM * 20) return false;
  for (auto &u : p) for (auto &v : q) {
    Mono m = mmul(u.first, v.first); mpq_class c = u.second * v.second;
    auto it = r.find(m); if (it == r.end()) r.emplace(std::move(m), c); else { it->second += c; if (it->second == 0) r.erase(it); }
  }
  return r.size() <= NFR_LIM;
}
// reduce squares of square-root atoms
static bool pReduceSqrt(PolyQ &p, bool &changed);
static uint32_t internFactor(const PolyQ &p) { auto it = factorIdx.find(p); if (it != factorIdx.end()) return it->second; uint32_t i = factors.size(); factors.push_back(p); factorIdx[p] = i; return i; }
static bool mdiv(const Mono &a, const Mono &b, Mono &r) { // a / b
  r.clear(); size_t i = 0, j = 0;
  while (i < a.size()) { if (j < b.size() && a[i] == b[j]) { i++; j++; } else if (j < b.size() && b[j] < a[i]) return false; else r.push_back(a[i++]); }
  return j == b.size();
}
static bool pDivExact(const PolyQ &n, const PolyQ &f, PolyQ &q) {
  if (n.size() * 1 > NFR_LIM) return false;
  PolyQ r = n; q.clear(); const Mono &lf = f.rbegin()->first; const mpq_class &cf = f.rbegin()->second; Mono m; size_t steps = 0;
  while (!r.empty()) {
    if (++steps > 5000) return false;
    if (!mdiv(r.rbegin()->first, lf, m)) return false;
    mpq_class c = r.rbegin()->second / cf; q[m] = c;
    for (auto &kv : f) { Mono mm = mmul(kv.first, m); mpq_class v = kv.second * c; auto it = r.find(mm); if (it == r.end()) r.emplace(std::move(mm), -v); else { it->second -= v; if (it->second == 0) r.erase(it); } }
  }
  return true;
}
static void rfReduce(RF &x) {
  if (x.n.empty()) { x.d.clear(); return; }
  for (auto it = x.d.begin(); it != x.d.end();) {
    PolyQ q; while (it->second > 0 && pDivExact(x.n, factors[it->first], q)) { x.n.swap(q); it->second--; }
    if (it->second == 0) it = x.d.erase(it); else ++it;
  }
}
static bool mulByFactors(PolyQ &p, const std::map<uint32_t, int> &d) {
  PolyQ t; for (auto &fe : d) for (int i = 0; i < fe.second; i++) { if (!pMul(p, factors[fe.first], t)) return false; p.swap(t); }
  return true;
}
static RFP nfR(T t);
static RFP rfAtom(T t) { RFP r = std::make_shared<RF>(); r->n[{t}] = 1; return r; }
static RFP rfAdd(const RFP &a, const RFP &b) {
  RFP r = std::make_shared<RF>();
  if (a->d == b->d) { r->n = a->n; pAddTo(r->n, b->n, 1); r->d = a->d; }
  else {
    std::map<uint32_t, int> l = a->d; for (auto &fe : b->d) l[fe.first] = std::max(l.count(fe.first) ? l[fe.first] : 0, fe.second);
    std::map<uint32_t, int> ma, mb;
    for (auto &fe : l) { auto i = a->d.find(fe.first); int e = i == a->d.end() ? 0 : i->second; if (fe.second > e) ma[fe.first] = fe.second - e; i = b->d.find(fe.first); e = i == b->d.end() ? 0 : i->second; if (fe.second > e) mb[fe.first] = fe.second - e; }
    PolyQ p = a->n, q = b->n; if (!mulByFactors(p, ma) || !mulByFactors(q, mb)) return nullptr;
    pAddTo(p, q, 1); r->n.swap(p); r->d = l;
  }
  if (r->n.size() > NFR_LIM) return nullptr;
  if (!r->d.empty()) rfReduce(*r);
  return r;
}
static RFP rfMul(const RFP &a, const RFP &b) {
  RFP r = std::make_shared<RF>();
  // cancel cross factors first
  RF x{a->n, b->d}, y{b->n, a->d};
  if (!x.d.empty()) rfReduce(x);
  if (!y.d.empty()) rfReduce(y);
  if (x.n.empty() || y.n.empty()) return r;
  if (!pMul(x.n, y.n, r->n)) return nullptr;
  r->d = x.d; for (auto &fe : y.d) r->d[fe.first] += fe.second;
  bool ch = true; while (ch) { ch = false; if (!pReduceSqrt(r->n, ch)) return nullptr; }
  return r;
}
static RFP rfInv(const RFP &b) { // 1/b ; b.n != 0
  RFP r = std::make_shared<RF>(); r->n[{}] = 1;
  if (!mulByFactors(r->n, b->d)) return nullptr;
  mpq_class lead = b->n.rbegin()->second;
  if (b->n.size() == 1) {
    for (T at : b->n.begin()->first) { PolyQ p; p[{at}] = 1; r->d[internFactor(p)]++; }
  } else {
    // pull out common atoms
    Mono common = b->n.begin()->first;
    for (auto &kv : b->n) { Mono c; std::set_intersection(common.begin(), common.end(), kv.first.begin(), kv.first.end(), std::back_inserter(c)); common.swap(c); if (common.empty()) break; }
    PolyQ p; for (auto &kv : b->n) { Mono m; mdiv(kv.first, common, m); p[m] = kv.second / lead; }
    for (T at : common) { PolyQ pp; pp[{at}] = 1; r->d[internFactor(pp)]++; }
    r->d[internFactor(p)]++;
  }
  for (auto &kv : r->n) kv.second /= lead;
  rfReduce(*r);
  return r;
}
static bool pReduceSqrt(PolyQ &p, bool &changed) {
  for (auto it = p.begin(); it != p.end(); ++it) {
    const Mono &m = it->first;
    for (size_t i = 0; i + 1 < m.size(); i++) if (m[i] == m[i + 1] && TD[m[i]].op == O_RUF && TD[m[i]].k == F_SQRT) {
      RFP rad = nfR(TD[m[i]].a); if (!rad || !rad->d.empty()) continue;
      Mono rest; for (size_t j = 0; j < m.size(); j++) if (j != i && j != i + 1) rest.push_back(m[j]);
      PolyQ one; one[rest] = it->second; PolyQ pr; if (!pMul(one, rad->n, pr)) return false;
      p.erase(it); pAddTo(p, pr, 1); changed = true; return p.size() <= NFR_LIM;
    }
  }
  return true;
}
static RFP nfR(T t) {
  auto it = nfrMemo.find(t); if (it != nfrMemo.end()) return it->second;
  const Node x = TD[t]; RFP r;
  switch (x.op) {
  case O_RCONST: r = std::make_shared<RF>(); if (TD.rq(t) != 0) r->n[{}] = TD.rq(t); break;
  case O_RADD: { RFP p = nfR(x.a), q = nfR(x.b); if (p && q) r = rfAdd(p, q); break; }
  case O_RMUL: { RFP p = nfR(x.a), q = nfR(x.b); if (p && q) r = rfMul(p, q); break; }
  case O_RDIV: { RFP p = nfR(x.a), q = nfR(x.b); if (p && q) { if (q->n.empty()) r = rfAtom(t); else { RFP i = rfInv(q); if (i) r = rfMul(p, i); } } break; }
  default: r = rfAtom(t);
  }
  nfrMemo[t] = r; return r;
}
static T polyTerm(const PolyQ &p) {
  T s = TD.rconst(0);
  for (auto &kv : p) { T m = TD.rconst(1); for (T a : kv.first) m = rMul(m, a); s = rAdd(s, rMul(m, TD.rconst(kv.second))); }
  return s;
}
// canonical term with the same value (used for arguments of uninterpreted functions)
static T rCanon(T t) {
  RFP r = nfR(t); if (!r) return t;
  T n = polyTerm(r->n);
  for (auto &fe : r->d) { T f = polyTerm(factors[fe.first]); for (int i = 0; i < fe.second; i++) n = rDiv(n, f); }
  return n;
}
// sign-equivalent polynomial of t: sign(t) = sign(result) provided denominators are non-zero
bool rSignPoly(T t, std::vector<std::pair<std::vector<T>, mpq_class>> &out, bool &hasDen) {
  RFP r = nfR(t); if (!r) return false;
  PolyQ n = r->n; hasDen = !r->d.empty();
  std::map<uint32_t, int> odd; for (auto &fe : r->d) if (fe.second & 1) odd[fe.first] = 1;
  if (!mulByFactors(n, odd)) return false;
  bool ch = true; while (ch) { ch = false; if (!pReduceSqrt(n, ch)) return false; }
  for (auto &kv : n) out.push_back({kv.first, kv.second});
  return true;
}
