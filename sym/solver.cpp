#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unistd.h>
SolverStats SST; int solverTimeoutMs = 20000; double solverDeadline = 1e300;
double nowSec() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static Z3_context cx; static std::unordered_map<T, Z3_ast> memo; static std::vector<Z3_ast> varAst; static bool z3err = false;
static std::unordered_map<T, Z3_ast> memoAbs, bmemoAbs; static bool absInt = false; // conversions of integers to reals as opaque reals
static std::unordered_map<T, std::vector<T>> sideMemo; // UF atoms below a term
static void eh(Z3_context, Z3_error_code) { z3err = true; }
static void init() { if (cx) return; Z3_config c = Z3_mk_config(); cx = Z3_mk_context(c); Z3_set_error_handler(cx, eh); }
static Z3_sort srt(Sort s, unsigned w) { switch (s) { case S_BV: return Z3_mk_bv_sort(cx, w); case S_REAL: return Z3_mk_real_sort(cx); case S_F32: return Z3_mk_fpa_sort_32(cx); default: return Z3_mk_fpa_sort_64(cx); } }
static Z3_ast ratAst(const mpq_class &q) { return Z3_mk_numeral(cx, q.get_str().c_str(), Z3_mk_real_sort(cx)); }
static Z3_ast b2bv(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(cx, 1); return Z3_mk_ite(cx, b, Z3_mk_unsigned_int64(cx, 1, s), Z3_mk_unsigned_int64(cx, 0, s)); }
static Z3_ast tr(T t);
static std::unordered_map<T, Z3_ast> bmemo;
static Z3_ast fresh(Sort s, unsigned w, const char *p) { return Z3_mk_fresh_const(cx, p, srt(s, w)); }
// translate a width-1 term to a z3 Boolean
static Z3_ast trB(T t) {
  auto it = bmemo.find(t); if (it != bmemo.end()) return it->second;
  const Node x = TD[t]; Z3_ast r = 0;
  switch (x.op) {
  case O_CONST: r = x.k ? Z3_mk_true(cx) : Z3_mk_false(cx); break;
  case O_AND: { Z3_ast a[2] = {trB(x.a), trB(x.b)}; r = Z3_mk_and(cx, 2, a); break; }
  case O_OR: { Z3_ast a[2] = {trB(x.a), trB(x.b)}; r = Z3_mk_or(cx, 2, a); break; }
  case O_XOR: if (TD.isC(x.b) && TD.cv(x.b) == 1) r = Z3_mk_not(cx, trB(x.a)); else r = Z3_mk_xor(cx, trB(x.a), trB(x.b)); break;
  case O_EQ: if (TD[x.a].w == 1 && TD[x.a].sort == S_BV) r = Z3_mk_iff(cx, trB(x.a), trB(x.b)); else r = Z3_mk_eq(cx, tr(x.a), tr(x.b)); break;
  case O_ULT: r = Z3_mk_bvult(cx, tr(x.a), tr(x.b)); break;
  case O_ULE: r = Z3_mk_bvule(cx, tr(x.a), tr(x.b)); break;
  case O_SLT: r = Z3_mk_bvslt(cx, tr(x.a), tr(x.b)); break;
  case O_SLE: r = Z3_mk_bvsle(cx, tr(x.a), tr(x.b)); break;
  case O_ITE: r = Z3_mk_ite(cx, trB(x.a), trB(x.b), trB(x.c)); break;
  case O_FLT: r = Z3_mk_fpa_lt(cx, tr(x.a), tr(x.b)); break;
  case O_FLE: r = Z3_mk_fpa_leq(cx, tr(x.a), tr(x.b)); break;
  case O_FEQ: r = Z3_mk_fpa_eq(cx, tr(x.a), tr(x.b)); break;
  case O_FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(cx, tr(x.a)), Z3_mk_fpa_is_nan(cx, tr(x.b))}; r = Z3_mk_or(cx, 2, a); break; }
  case O_RLT: case O_RLE: case O_REQ: {
    // compare the cleared numerator with zero where possible
    std::vector<std::pair<std::vector<T>, mpq_class>> p; bool den = false;
    bool rSignPoly(T, std::vector<std::pair<std::vector<T>, mpq_class>> &, bool &);
    T d = rSub(x.a, x.b); Z3_ast l = 0, z = ratAst(0);
    if (rSignPoly(d, p, den)) {
      std::vector<Z3_ast> sum;
      for (auto &m : p) { std::vector<Z3_ast> f; if (m.second != 1 || m.first.empty()) f.push_back(ratAst(m.second)); for (T a : m.first) f.push_back(tr(a)); sum.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(cx, f.size(), f.data())); }
      l = sum.empty() ? z : sum.size() == 1 ? sum[0] : Z3_mk_add(cx, sum.size(), sum.data());
    } else { l = tr(x.a); z = tr(x.b); }
    r = x.op == O_RLT ? Z3_mk_lt(cx, l, z) : x.op == O_RLE ? Z3_mk_le(cx, l, z) : Z3_mk_eq(cx, l, z);
    break;
  }
  default: { Z3_sort s = Z3_mk_bv_sort(cx, 1); r = Z3_mk_eq(cx, tr(t), Z3_mk_unsigned_int64(cx, 1, s)); }
  }
  Z3_inc_ref(cx, r); return bmemo[t] = r;
}
static Z3_ast rne() { return Z3_mk_fpa_round_nearest_ties_to_even(cx); }
static Z3_ast rtz() { return Z3_mk_fpa_round_toward_zero(cx); }
static Z3_ast tr(T t) {
  auto it = memo.find(t); if (it != memo.end()) return it->second;
  const Node x = TD[t]; Z3_ast r = 0; Z3_sort s = srt(x.sort, x.w);
  auto A = [&] { return tr(x.a); }; auto B = [&] { return tr(x.b); };
  switch (x.op) {
  case O_CONST:
    if (x.sort == S_BV) r = Z3_mk_unsigned_int64(cx, x.k, s);
    else r = Z3_mk_fpa_to_fp_bv(cx, Z3_mk_unsigned_int64(cx, x.k, Z3_mk_bv_sort(cx, x.w)), s);
    break;
  case O_VAR: {
    if (varAst.size() <= x.k) varAst.resize(x.k + 1, 0);
    std::string nm = "v" + std::to_string(x.k);
    varAst[x.k] = r = Z3_mk_const(cx, Z3_mk_string_symbol(cx, nm.c_str()), s); break; }
  case O_ADD: r = Z3_mk_bvadd(cx, A(), B()); break;
  case O_MUL: r = Z3_mk_bvmul(cx, A(), B()); break;
  case O_UDIV: r = Z3_mk_bvudiv(cx, A(), B()); break;
  case O_SDIV: r = Z3_mk_bvsdiv(cx, A(), B()); break;
  case O_UREM: r = Z3_mk_bvurem(cx, A(), B()); break;
  case O_SREM: r = Z3_mk_bvsrem(cx, A(), B()); break;
  case O_SHL: r = Z3_mk_bvshl(cx, A(), B()); break;
  case O_LSHR: r = Z3_mk_bvlshr(cx, A(), B()); break;
  case O_ASHR: r = Z3_mk_bvashr(cx, A(), B()); break;
  case O_AND: r = x.w == 1 ? b2bv(trB(t)) : Z3_mk_bvand(cx, A(), B()); break;
  case O_OR: r = x.w == 1 ? b2bv(trB(t)) : Z3_mk_bvor(cx, A(), B()); break;
  case O_XOR: r = x.w == 1 ? b2bv(trB(t)) : Z3_mk_bvxor(cx, A(), B()); break;
  case O_CONCAT: r = Z3_mk_concat(cx, A(), B()); break;
  case O_EXTRACT: r = Z3_mk_extract(cx, x.k + x.w - 1, x.k, A()); break;
  case O_ZEXT: r = Z3_mk_zero_ext(cx, x.w - TD[x.a].w, A()); break;
  case O_SEXT: r = Z3_mk_sign_ext(cx, x.w - TD[x.a].w, A()); break;
  case O_ITE: r = Z3_mk_ite(cx, trB(x.a), B(), tr(x.c)); break;
  case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FLT: case O_FLE: case O_FEQ: case O_FUNO: case O_RLT: case O_RLE: case O_REQ: r = b2bv(trB(t)); break;
  case O_RCONST: r = ratAst(TD.rq(t)); break;
  case O_RADD: { Z3_ast a[2] = {A(), B()}; r = Z3_mk_add(cx, 2, a); break; }
  case O_RMUL: { Z3_ast a[2] = {A(), B()}; r = Z3_mk_mul(cx, 2, a); break; }
  case O_RDIV: r = Z3_mk_div(cx, A(), B()); break;
  case O_RUF: r = fresh(S_REAL, 64, "uf"); break;
  case O_RFROMS: case O_RFROMU: if (absInt) { r = fresh(S_REAL, 64, "ri"); break; } { // sum of the bits (the bv2int of this z3 version yields wrong models)
    std::vector<Z3_ast> sum; unsigned w = TD[x.a].w; Z3_ast a = A(), one = Z3_mk_unsigned_int64(cx, 1, Z3_mk_bv_sort(cx, 1)); mpz_class p = 1;
    for (unsigned i = 0; i < w; i++, p *= 2) { mpz_class q = p; if (x.op == O_RFROMS && i == w - 1) q = -q; sum.push_back(Z3_mk_ite(cx, Z3_mk_eq(cx, Z3_mk_extract(cx, i, i, a), one), ratAst(mpq_class(q)), ratAst(0))); }
    r = sum.size() == 1 ? sum[0] : Z3_mk_add(cx, sum.size(), sum.data()); break; }
  case O_RFLOOR: r = Z3_mk_int2real(cx, Z3_mk_real2int(cx, A())); break;
  case O_RTOBV: r = Z3_mk_int2bv(cx, x.w, Z3_mk_real2int(cx, tr(rTrunc(x.a)))); break;
  case O_RBITS: r = fresh(S_BV, 64, "rb"); break;
  case O_BITSR: r = fresh(S_REAL, 64, "br"); break;
  case O_FADD: r = Z3_mk_fpa_add(cx, rne(), A(), B()); break;
  case O_FSUB: r = Z3_mk_fpa_sub(cx, rne(), A(), B()); break;
  case O_FMUL: r = Z3_mk_fpa_mul(cx, rne(), A(), B()); break;
  case O_FDIV: r = Z3_mk_fpa_div(cx, rne(), A(), B()); break;
  case O_FREM: r = fresh(x.sort, x.w, "frem"); break;
  case O_FSQRT: r = Z3_mk_fpa_sqrt(cx, rne(), A()); break;
  case O_FNEG: r = Z3_mk_fpa_neg(cx, A()); break;
  case O_FABS: r = Z3_mk_fpa_abs(cx, A()); break;
  case O_FRND: { Z3_ast m = x.k == RND_FLOOR ? Z3_mk_fpa_round_toward_negative(cx) : x.k == RND_CEIL ? Z3_mk_fpa_round_toward_positive(cx) : x.k == RND_TRUNC ? rtz() : x.k == RND_NEAREST_AWAY ? Z3_mk_fpa_round_nearest_ties_to_away(cx) : rne(); r = Z3_mk_fpa_round_to_integral(cx, m, A()); break; }
  case O_FCVT: r = Z3_mk_fpa_to_fp_float(cx, rne(), A(), s); break;
  case O_SI2F: r = Z3_mk_fpa_to_fp_signed(cx, rne(), A(), s); break;
  case O_UI2F: r = Z3_mk_fpa_to_fp_unsigned(cx, rne(), A(), s); break;
  case O_F2SI: r = Z3_mk_fpa_to_sbv(cx, rtz(), A(), x.w); break;
  case O_F2UI: r = Z3_mk_fpa_to_ubv(cx, rtz(), A(), x.w); break;
  case O_FBITS: r = Z3_mk_fpa_to_ieee_bv(cx, A()); break;
  case O_BITSF: r = Z3_mk_fpa_to_fp_bv(cx, A(), s); break;
  case O_FUF: r = fresh(x.sort, x.w, "fuf"); break;
  default: r = fresh(x.sort, x.w, "unk");
  }
  Z3_inc_ref(cx, r); return memo[t] = r;
}
// atoms with side conditions
static const std::vector<T> &sides(T t) {
  auto it = sideMemo.find(t); if (it != sideMemo.end()) return it->second;
  std::vector<T> r; const Node x = TD[t];
  for (T c : {x.a, x.b, x.c}) if (c) { const std::vector<T> &v = sides(c); if (r.empty()) r = v; else { std::vector<T> u; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(u)); r.swap(u); } }
  if (x.op == O_RUF) { auto p = std::lower_bound(r.begin(), r.end(), t); if (p == r.end() || *p != t) r.insert(p, t); }
  return sideMemo[t] = r;
}
static bool parseZ3Num(const char *s, mpq_class &q) { try { q = mpq_class(s); q.canonicalize(); return true; } catch (...) { return false; } }
static bool extractModel(Z3_model m, const std::vector<uint32_t> &vs, Model &out) {
  for (uint32_t v : vs) {
    const VarInfo &vi = TD.vars[v]; if (v >= varAst.size() || !varAst[v]) continue;
    Z3_ast e = varAst[v], r = 0; if (vi.sort == S_F32 || vi.sort == S_F64) e = Z3_mk_fpa_to_ieee_bv(cx, e);
    if (!Z3_model_eval(cx, m, e, true, &r)) return false;
    Z3_inc_ref(cx, r);
    if (vi.sort == S_REAL) {
      if (Z3_is_numeral_ast(cx, r)) { mpq_class q; parseZ3Num(Z3_get_numeral_string(cx, r), q); out.re[v] = nearD(q); }
      else if (Z3_is_algebraic_number(cx, r)) { std::string s = Z3_get_numeral_decimal_string(cx, r, 25); if (!s.empty() && s.back() == '?') s.pop_back(); out.re[v] = strtod(s.c_str(), 0); }
    } else { uint64_t b = 0; if (Z3_is_numeral_ast(cx, r) && Z3_get_numeral_uint64(cx, r, &b)) out.bv[v] = b; }
    Z3_dec_ref(cx, r);
  }
  return true;
}
static std::map<std::vector<T>, std::pair<SRes, ModelP>> qcache;
static SRes external(const std::string &smt, int ms) { // unsat / sat only; models are not read back
  char fn[] = "/tmp/symqXXXXXX"; int fd = mkstemp(fn); if (fd < 0) return R_UNK;
  if (write(fd, smt.data(), smt.size()) < 0) {} close(fd);
  SRes res = R_UNK; int sec = std::max(1, ms / 1000);
  std::string cmds[2] = {"timeout " + std::to_string(sec + 2) + " z3-new -smt2 -T:" + std::to_string(sec) + " " + fn + " 2>/dev/null", "timeout " + std::to_string(sec + 2) + " cvc5 --tlimit=" + std::to_string(sec * 1000) + " " + fn + " 2>/dev/null"};
  for (auto &c : cmds) {
    FILE *p = popen(c.c_str(), "r"); if (!p) continue; char buf[256]; std::string o; while (fgets(buf, sizeof buf, p)) o += buf; pclose(p);
    if (o.find("error") != std::string::npos) continue;
    if (o.rfind("unsat", 0) == 0) { res = R_UNSAT; break; }
    if (o.rfind("sat", 0) == 0) { res = R_SAT; break; }
  }
  unlink(fn); return res;
}
// only linear comparisons of real variables below a width-1 term
static bool isLinear(T t) {
  static std::unordered_map<T, char> mms[2]; auto &mm = mms[absInt]; auto it = mm.find(t); if (it != mm.end()) return it->second; const Node x = TD[t]; bool r = false;
  switch (x.op) {
  case O_CONST: r = true; break;
  case O_AND: case O_OR: case O_XOR: r = x.w == 1 && isLinear(x.a) && isLinear(x.b); break;
  case O_ITE: r = x.w == 1 && x.sort == S_BV && isLinear(x.a) && isLinear(x.b) && isLinear(x.c); break;
  case O_EQ: r = TD[x.a].sort == S_BV && TD[x.a].w == 1 && isLinear(x.a) && isLinear(x.b); break;
  case O_RLT: case O_RLE: case O_REQ: { bool rSignPoly(T, std::vector<std::pair<std::vector<T>, mpq_class>> &, bool &); std::vector<std::pair<std::vector<T>, mpq_class>> p; bool den; r = rSignPoly(rSub(x.a, x.b), p, den); if (r) for (auto &m : p) if (m.first.size() > 1 || (m.first.size() == 1 && TD[m.first[0]].op != O_VAR && !(absInt && (TD[m.first[0]].op == O_RFROMS || TD[m.first[0]].op == O_RFROMU)))) r = false; break; }
  default: break;
  }
  return mm[t] = r;
}
static SRes solveCore(const std::vector<T> &cs, const std::vector<uint32_t> &vs, int tmo, bool fb, ModelP &qm);
SRes solveConj(const std::vector<T> &cs0, const Model *base, ModelP *out, int tmo, bool fb) {
  init();
  std::vector<T> cs; for (T c : cs0) { if (isTrue(c)) continue; if (isFalse(c)) return R_UNSAT; cs.push_back(c); }
  std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  auto mergeModel = [&](const Model &q, const std::vector<uint32_t> &vs) { if (!out) return; ModelP m = std::make_shared<Model>(base ? *base : Model()); m->bv.resize(TD.vars.size()); m->re.resize(TD.vars.size()); for (uint32_t v : vs) { m->bv[v] = q.bv[v]; m->re[v] = q.re[v]; } *out = m; };
  if (cs.empty()) { if (out) *out = std::make_shared<Model>(base ? *base : Model()); return R_SAT; }
  std::set<uint32_t> vset; for (T c : cs) for (uint32_t v : termVars(c)) vset.insert(v); std::vector<uint32_t> vs(vset.begin(), vset.end());
  auto ci = qcache.find(cs);
  if (ci != qcache.end()) { SST.cached++; if (ci->second.first == R_SAT && ci->second.second) mergeModel(*ci->second.second, vs); if (ci->second.first != R_SAT || ci->second.second || !out) return ci->second.first; }
  if (!tmo) tmo = solverTimeoutMs;
  double t0 = nowSec(); double left = solverDeadline - t0; if (left < 0.05) { SST.unk++; return R_UNK; }
  tmo = (int)std::min<double>(tmo, left * 1000);
  ModelP qm; SRes res = R_UNK; bool conv = false, real = false;
  { std::vector<T> st(cs); std::set<T> seen; while (!st.empty() && !conv) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; const Node &x = TD[t]; if (x.sort == S_REAL) real = true; if ((x.op == O_RFROMS || x.op == O_RFROMU) && TD[x.a].w >= 16) conv = true; for (T c : {x.a, x.b, x.c}) if (c) st.push_back(c); } }
  if (conv) { // first with converted integers as arbitrary reals of their range: unsatisfiability carries over
    std::swap(memo, memoAbs); std::swap(bmemo, bmemoAbs); absInt = true; ModelP dummy; res = solveCore(cs, vs, std::max(500, tmo / 2), false, dummy); absInt = false; std::swap(memo, memoAbs); std::swap(bmemo, bmemoAbs); if (res != R_UNSAT) res = R_UNK;
  }
  if (res == R_UNK) res = solveCore(cs, vs, tmo, fb, qm);
  if (res == R_SAT && qm) mergeModel(*qm, vs);
  if (qcache.size() < 200000) qcache[cs] = {res, qm};
  return res;
}
static SRes solveCore(const std::vector<T> &cs, const std::vector<uint32_t> &vs, int tmo, bool fb, ModelP &qm) {
  double t0 = nowSec();
  SST.queries++; z3err = false;
  bool hasReal = false, hasBV = false, hasFP = false, hasInt = false;
  { // theory scan
    std::vector<T> st(cs); std::set<T> seen; while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; const Node &x = TD[t];
      if (x.sort == S_REAL) hasReal = true; else if (x.sort != S_BV) hasFP = true; else if (x.w > 1) hasBV = true;
      if (x.op == O_RFLOOR || x.op == O_RTOBV) hasInt = true;
      if (absInt && (x.op == O_RFROMS || x.op == O_RFROMU)) continue;
      for (T c : {x.a, x.b, x.c}) if (c) st.push_back(c); } }
  std::vector<Z3_ast> as; for (T c : cs) as.push_back(trB(c));
  std::set<T> ufs; for (T c : cs) for (T u : sides(c)) ufs.insert(u);
  for (T u : ufs) {
    const Node x = TD[u]; Z3_ast a = tr(u), z = ratAst(0);
    if (x.k == F_SQRT) { Z3_ast m[2] = {a, a}; as.push_back(Z3_mk_ge(cx, a, z)); as.push_back(Z3_mk_implies(cx, trB(rLe(TD.rconst(0), x.a)), Z3_mk_eq(cx, Z3_mk_mul(cx, 2, m), tr(x.a)))); }
    else if (x.k == F_EXP || x.k == F_POW10 || x.k == F_POW2) { as.push_back(Z3_mk_gt(cx, a, z)); as.push_back(Z3_mk_iff(cx, trB(rLt(TD.rconst(0), x.a)), Z3_mk_gt(cx, a, ratAst(1)))); as.push_back(Z3_mk_iff(cx, trB(rEq(TD.rconst(0), x.a)), Z3_mk_eq(cx, a, ratAst(1)))); }
    else if (x.k == F_LOG || x.k == F_LOG10) { as.push_back(Z3_mk_implies(cx, trB(rLt(TD.rconst(0), x.a)), Z3_mk_iff(cx, trB(rLt(x.a, TD.rconst(1))), Z3_mk_lt(cx, a, z)))); as.push_back(Z3_mk_iff(cx, trB(rEq(x.a, TD.rconst(1))), Z3_mk_eq(cx, a, z))); }
    else if (x.k == F_F32) { Z3_ast y = tr(x.a), e = ratAst(mpq_class(1, 16777216)); Z3_ast m[2] = {y, e}; Z3_ast u = Z3_mk_mul(cx, 2, m); Z3_ast hi[2] = {y, u}, lo[2] = {y, u}; Z3_ast H = Z3_mk_add(cx, 2, hi), L = Z3_mk_sub(cx, 2, lo); Z3_ast pos = Z3_mk_ge(cx, y, z); Z3_ast c1[2] = {Z3_mk_le(cx, L, a), Z3_mk_le(cx, a, H)}, c2[2] = {Z3_mk_le(cx, H, a), Z3_mk_le(cx, a, L)}; as.push_back(Z3_mk_implies(cx, pos, Z3_mk_and(cx, 2, c1))); as.push_back(Z3_mk_implies(cx, Z3_mk_not(cx, pos), Z3_mk_and(cx, 2, c2))); }
    else if (x.k == F_SIN || x.k == F_COS) { as.push_back(Z3_mk_le(cx, a, ratAst(1))); as.push_back(Z3_mk_ge(cx, a, ratAst(-1))); }
  }
  if (absInt) { // ranges of the converted integers
    std::vector<T> st(cs); std::set<T> seen; while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; const Node x = TD[t];
      if (x.op == O_RFROMS || x.op == O_RFROMU) { unsigned w = TD[x.a].w; mpz_class lo = 0, hi = (mpz_class(1) << w) - 1; if (x.op == O_RFROMS) { lo = -(mpz_class(1) << (w - 1)); hi = (mpz_class(1) << (w - 1)) - 1; } as.push_back(Z3_mk_ge(cx, tr(t), ratAst(mpq_class(lo)))); as.push_back(Z3_mk_le(cx, tr(t), ratAst(mpq_class(hi)))); continue; }
      for (T c : {x.a, x.b, x.c}) if (c) st.push_back(c); } }
  // monotonicity of pairs of applications of the same function
  if (ufs.size() <= 40) for (auto i = ufs.begin(); i != ufs.end(); ++i) for (auto j = std::next(i); j != ufs.end(); ++j) {
    const Node p = TD[*i], q = TD[*j]; if (p.k != q.k) continue;
    if (p.k == F_EXP || p.k == F_POW10 || p.k == F_LOG || p.k == F_LOG10 || p.k == F_ATAN) as.push_back(Z3_mk_iff(cx, trB(rLt(p.a, q.a)), Z3_mk_lt(cx, tr(*i), tr(*j))));
  }
  Z3_solver sv;
  bool lin = hasReal && !hasBV && !hasFP && !hasInt && ufs.empty(); if (lin) for (T c : cs) if (!isLinear(c)) { lin = false; break; }
  if (lin) sv = Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, "QF_LRA"));
  else if (hasReal && !hasBV && !hasFP && !hasInt) sv = Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, "QF_NRA"));
  else if (hasFP && !hasReal) sv = Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, "QF_FPBV"));
  else if (!hasReal) sv = Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, "QF_BV"));
  else sv = Z3_mk_solver(cx);
  Z3_solver_inc_ref(cx, sv);
  Z3_params pr = Z3_mk_params(cx); Z3_params_inc_ref(cx, pr); Z3_params_set_uint(cx, pr, Z3_mk_string_symbol(cx, "timeout"), (unsigned)tmo); Z3_solver_set_params(cx, sv, pr); Z3_params_dec_ref(cx, pr);
  for (Z3_ast a : as) Z3_solver_assert(cx, sv, a);
  Z3_lbool lb = Z3_solver_check(cx, sv); SRes res = lb == Z3_L_TRUE ? R_SAT : lb == Z3_L_FALSE ? R_UNSAT : R_UNK;
  if (z3err) { res = R_UNK; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(cx, Z3_get_error_code(cx))); }
  if (res == R_SAT && !absInt) {
    Z3_model m = Z3_solver_get_model(cx, sv);
    if (m) { Z3_model_inc_ref(cx, m); qm = std::make_shared<Model>(); qm->bv.resize(TD.vars.size()); qm->re.resize(TD.vars.size()); extractModel(m, vs, *qm); Z3_model_dec_ref(cx, m); }
  } else if (res == R_UNK && fb && solverDeadline - nowSec() > 2) {
    SST.fallback++;
    std::string smt = "(set-logic ALL)\n"; smt += Z3_solver_to_string(cx, sv); smt += "\n(check-sat)\n";
    SRes e = external(smt, (int)std::min<double>(tmo, (solverDeadline - nowSec()) * 500)); if (e != R_UNK) res = e;
  }
  Z3_solver_dec_ref(cx, sv);
  double dt = nowSec() - t0; SST.secs += dt; if (getenv("SYM_SLOW") && dt > 1) { fprintf(stderr, "[slow %.1fs res=%d real=%d bv=%d fp=%d int=%d n=%zu ufs=%zu]\n", dt, res, hasReal, hasBV, hasFP, hasInt, cs.size(), ufs.size()); if (const char *df = getenv("SYM_DUMPF")) { FILE *f = fopen(df, "w"); fprintf(f, "; lin=%d\n", lin); for (Z3_ast a : as) fprintf(f, "(assert %s)\n", Z3_ast_to_string(cx, a)); fclose(f); } if (getenv("SYM_SLOWQ")) for (T c : cs) fprintf(stderr, "   %s\n", termStr(c, 12).c_str()); }
  if (res == R_SAT) SST.sat++; else if (res == R_UNSAT) SST.unsat++; else SST.unk++;
  return res;
}
