// calls and modelled functions
static const char *stdTI[] = {"_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt12out_of_range", "_ZTISt11logic_error", "_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt16invalid_argument", "_ZTISt11range_error", "_ZTISt12system_error", "_ZTISt17bad_function_call", "_ZTISt13runtime_error", "_ZTISt8bad_cast"};
static std::string cstr(State *s, uint64_t a) { std::string r; for (int i = 0; i < 400; i++) { Val v = loadC(s, a + i, L8); if (v.t || !v.c) break; r += (char)v.c; } return r; }
static std::string uniqName(State *s, const std::string &n) { int &k = s->names[n]; std::string r = k ? n + "#" + std::to_string(k) : n; k++; return r; }
static std::map<std::pair<std::string, int>, T_t> symVars; // harness inputs: the same name is the same variable on every path
static T_t symVar(const std::string &n, Sort so, unsigned w) { auto key = std::make_pair(n, (int)so * 100 + (int)w); auto it = symVars.find(key); if (it != symVars.end()) return it->second; return symVars[key] = TD.newVar(n, so, w); }
static double math1(int k, double x) {
  switch (k) { case 0: return std::sqrt(x); case 1: return std::exp(x); case 2: return std::log(x); case 3: return std::sin(x); case 4: return std::cos(x); case 5: return std::tan(x); case 6: return std::pow(10, x); case 7: return std::atan(x); case 8: return std::log10(x); case 9: return std::exp2(x); case 10: return std::log2(x); case 11: return std::asin(x); case 12: return std::acos(x); case 13: return std::sinh(x); case 14: return std::cosh(x); case 15: return std::tanh(x); case 16: return std::cbrt(x); case 17: return std::erf(x); case 18: return std::erfc(x); case 19: return std::tgamma(x); case 20: return std::lgamma(x); case 21: return std::expm1(x); case 22: return std::log1p(x); case 23: return std::asinh(x); case 24: return std::acosh(x); default: return std::atanh(x); }
}
static float math1f(int k, float x) { switch (k) { case 0: return sqrtf(x); case 1: return expf(x); case 2: return logf(x); case 3: return sinf(x); case 4: return cosf(x); case 5: return tanf(x); case 8: return log10f(x); case 9: return exp2f(x); case 10: return log2f(x); default: return (float)math1(k, x); } }
static double math2(int k, double x, double y) { switch (k) { case 0: return std::pow(x, y); case 1: return std::atan2(x, y); case 2: return std::fmod(x, y); case 3: return std::remainder(x, y); default: return std::fdim(x, y); } }
static Val mathV(State *s, int k, const Val &x, const Leaf &l) {
  if (!x.t) return CV(l.k == L_F32 ? Bf(math1f(k, Fl(x.c))) : B(math1(k, D(x.c))));
  if (realMode) {
    mpq_class q; if (k && rConstVal(x.t, q)) return fromD(math1(k, nearD(q)), l);
    if (k == 0) { T_t nn = rLe(TD.rconst(0), x.t); if (!isTrue(nn)) { bool t, f; ModelP a, b; sides(s, nn, t, f, a, b); if (f && t) { /* negative radicand gives NaN */ cut("square root of a negative number excluded in " + demangle(s->F().f->name)); } if (!t) return CV(B(NAN)); if (!constrain(s, nn)) endPath(s); } }
    if (k == 2 || k == 8 || k == 10) { T_t p = rLt(TD.rconst(0), x.t); if (!isTrue(p)) { cut("logarithm of a non-positive number excluded"); if (!constrain(s, p)) endPath(s); } }
    return fromTerm(rUF((RFn)k, x.t), l);
  }
  if (k == 0) return fromTerm(fUn(O_FSQRT, x.t), l);
  return fromTerm(fUn(O_FUF, x.t, k), l);
}
static Val roundV(const Val &x, int k, const Leaf &l) {
  if (!x.t) { double d = cd(x, l); switch (k) { case RND_FLOOR: d = std::floor(d); break; case RND_CEIL: d = std::ceil(d); break; case RND_TRUNC: d = std::trunc(d); break; case RND_NEAREST_AWAY: d = std::round(d); break; default: d = std::nearbyint(d); } return fromD(d, l); }
  if (realMode) { T_t t = x.t; switch (k) { case RND_FLOOR: return fromTerm(rFloor(t), l); case RND_CEIL: return fromTerm(rNeg(rFloor(rNeg(t))), l); case RND_TRUNC: return fromTerm(rTrunc(t), l); default: return fromTerm(rRoundAway(t), l); } }
  return fromTerm(fUn(O_FRND, x.t, k), l);
}
static Val fabsV(const Val &x, const Leaf &l) { if (!x.t) return CV(x.c & ~(1ull << (l.k == L_F32 ? 31 : 63))); return fromTerm(realMode ? rAbs(x.t) : fUn(O_FABS, x.t), l); }
static Val sqrtSum(State *s, const Val &a, const Val &b, const Leaf &l) { // sqrt(a^2+b^2)
  if (!a.t && !b.t) return fromD(std::hypot(cd(a, l), cd(b, l)), l);
  if (realMode) { if (!a.t && cd(a, l) == 0) return fabsV(b, l); if (!b.t && cd(b, l) == 0) return fabsV(a, l); T_t x = vTerm(a, l), y = vTerm(b, l); return fromTerm(rUF(F_SQRT, rAdd(rMul(x, x), rMul(y, y))), l); }
  T_t x = vTerm(a, l), y = vTerm(b, l); cut("hypot modelled without its exact rounding"); return fromTerm(fUn(O_FSQRT, fOp(O_FADD, fOp(O_FMUL, x, x), fOp(O_FMUL, y, y))), l);
}
static void clearMem(State *s, uint64_t a, uint64_t n, const Val &v) {
  if (!n) return; Ref r = lookup(s, a, n, true, "write"); Obj *o = r.v->write(r.i);
  if (!v.t) { memset(o->data.data() + r.off, (int)v.c, n); memset(o->shape.data() + r.off, 0, n); if (!o->sym.empty()) for (uint64_t k = 0; k < n; k++) o->sym[r.off + k] = Cell{0, 0, 0}; }
  else for (uint64_t k = 0; k < n; k++) writeCells(o, r.off + k, L8, v);
}
static void interval(T_t lin, mpq_class &) { (void)lin; }
static void doClose(State *s, const Val &a, const Val &b, double tol, const std::string &msg) {
  T_t x = vTerm(a, LD), y = vTerm(b, LD);
  if (!a.t && !b.t) { double p = D(a.c), q = D(b.c); double sc = std::max(1.0, std::max(std::fabs(p), std::fabs(q))); bool ok = std::fabs(p - q) <= tol * sc || p == q; assertTerm(s, ok ? TR : FA, "assert", msg); return; }
  if (!realMode) { // IEEE: exact equality first, else compare with tolerance
    T_t d = fUn(O_FABS, fOp(O_FSUB, x, y)); assertTerm(s, tOr(fCmp(O_FEQ, x, y), fCmp(O_FLE, d, TD.fconst(B(tol), S_F64))), "assert", msg); return; }
  // non-finite constant on one side: never close
  auto nonfin = [&](const Val &v) { return !v.t && !std::isfinite(D(v.c)); };
  if (nonfin(a) || nonfin(b)) { assertTerm(s, FA, "assert", msg); return; }
  if (nfEqual(x, y) == 1) { RES.asserts++; RES.simp++; return; }
  // |x - y| <= tol (1 + |y|) must hold; a violation must exceed a larger margin so that it is not rounding noise
  T_t d = rSub(x, y), nd = rNeg(d); T_t one = TD.rconst(1); T_t marg = rMul(rFromDouble(tol * 4), rAdd(one, tIte(rLt(y, TD.rconst(0)), rNeg(y), y)));
  T_t fail = tOr(rLt(marg, d), rLt(marg, nd));
  assertTerm(s, tNot(fail), "assert", msg, fail);
}
static bool doCall(State *s, Frame &f, const Inst &in) {
  int id = in.bi, sub = 0; Func *callee = in.callee; size_t na = in.a.size();
  if (id != B_NONE) sub = biSub[callee->F];
  auto A = [&](int k, int j = 0) -> Val { Leaf l = in.ls[k]; return get(s, f, in.a[k], j, l); };
  auto done = [&](const Val *v = nullptr, int n = 1) { Frame &fr = s->F(); if (v && in.dst >= 0) for (int k = 0; k < n; k++) fr.r[in.dst + k] = v[k]; if (in.op == X_INVOKE) { gotoBlock(s, in.bb); return false; } fr.ip++; return true; };
  auto ret = [&](Val v) { return done(&v); };
  auto C = [&](int k, const char *why) -> uint64_t { Leaf l = in.ls[k]; return concretize(s, A(k), l, why); };
  auto TB = [&](const Val &v) -> T_t { T_t t = vTerm(v, L1); return TD[t].w == 1 ? t : tNot(tEq(t, TD.bv(0, TD[t].w))); };
  switch (id) {
  case B_NONE: break;
  case B_NEW: case B_NEWARR: case B_MALLOC: case B_NEWNT: case B_CALLOC: {
    uint64_t n = C(0, "allocation size"), c2 = 1; if (id == B_CALLOC) c2 = C(1, "allocation size");
    if (n * c2 > (1ull << 40) || (n && c2 > (1ull << 40) / n)) { if (id == B_NEW || id == B_NEWARR) { s->allocFailed++; throwStd(s, "_ZTISt9bad_alloc"); return false; } s->allocFailed++; return ret(CV(0)); }
    if (s->allocFails > 0) { State *o = cloneState(s); o->allocFails--; o->allocFailed++; o->inputs.push_back({uniqName(o, "$allocfail"), 'c', 0, 1, L64}); WL->push_back(o); RES.forks++; // the clone fails this allocation
      Frame &of = o->F(); o->inputs.back().v = 1; s->inputs.push_back({uniqName(s, "$allocfail"), 'c', 0, 0, L64});
      State *sv = s; (void)sv; 
      if (id == B_NEW || id == B_NEWARR) { try { throwStd(o, "_ZTISt9bad_alloc"); } catch (Kill &) { WL->erase(std::find(WL->begin(), WL->end(), o)); delete o; RES.paths++; } }
      else { if (in.dst >= 0) of.r[in.dst] = CV(0); if (in.op == X_INVOKE) gotoBlock(o, in.bb); else of.ip++; }
    }
    return ret(CV(heapAlloc(s, n * c2, id == B_NEW ? AK_NEW : id == B_NEWARR ? AK_NEWARR : id == B_NEWNT ? (sub ? AK_NEWARR : AK_NEW) : AK_MALLOC, id == B_CALLOC))); }
  case B_REALLOC: {
    uint64_t p = C(0, "realloc pointer"), n = C(1, "allocation size");
    if (n > (1ull << 40)) { s->allocFailed++; return ret(CV(0)); }
    if (p && n == 0) { heapFree(s, p, AK_MALLOC); return ret(CV(0)); }
    int i = -1; uint64_t os = 0; if (p) { i = regionOf(s, p) == &s->heap ? s->heap.find(p) : -1; if (i < 0 || s->heap.v[i]->base != p) memError(s, "realloc of an address that is not allocated"); if (s->heap.v[i]->ak != AK_MALLOC) memError(s, "realloc of a block that was not allocated by malloc"); os = s->heap.v[i]->size; }
    if (s->allocFails > 0) { State *o = cloneState(s); o->allocFails--; o->allocFailed++; o->inputs.push_back({uniqName(o, "$allocfail"), 'c', 0, 1, L64}); s->inputs.push_back({uniqName(s, "$allocfail"), 'c', 0, 0, L64}); Frame &of = o->F(); if (in.dst >= 0) of.r[in.dst] = CV(0); if (in.op == X_INVOKE) gotoBlock(o, in.bb); else of.ip++; WL->push_back(o); RES.forks++; }
    uint64_t b = heapAlloc(s, n, AK_MALLOC, false); if (p) { copyBytes(s, b, p, std::min(os, n)); heapFree(s, p, AK_MALLOC); }
    return ret(CV(b)); }
  case B_FREE: heapFree(s, C(0, "free"), AK_MALLOC); return done();
  case B_DEL: heapFree(s, C(0, "delete"), AK_NEW); return done();
  case B_DELARR: heapFree(s, C(0, "delete[]"), AK_NEWARR); return done();
  case B_ABORT: abortPath(s, "abort() in " + where(s)); return false;
  case B_EXIT: abortPath(s, "exit() in " + where(s)); return false;
  case B_ASSERTFAIL: abortPath(s, "assertion failure in " + where(s)); return false;
  case B_TERMINATE: abortPath(s, "std::terminate in " + where(s)); return false;
  case B_TRAP: violation(s, "undefined", "trap", s->model); endPath(s);
  case B_PUREVIRT: violation(s, "undefined", "pure virtual call", s->model); endPath(s);
  case B_CXA_ALLOC: return ret(CV(heapAlloc(s, C(0, "exception"), AK_EXC, false)));
  case B_CXA_FREE: heapFree(s, C(0, "exception"), AK_EXC); return done();
  case B_CXA_THROW: { Thread &t = s->T_(); t.exc = A(0).c; t.excTI = A(1).c; s->excTI.push_back(t.exc); s->excTI.push_back(t.excTI); unwind(s); return false; }
  case B_CXA_RETHROW: { Thread &t = s->T_(); if (t.caught.empty()) { abortPath(s, "rethrow without exception"); } t.exc = t.caught.back(); for (size_t k = 0; k + 1 < s->excTI.size(); k += 2) if (s->excTI[k] == t.exc) t.excTI = s->excTI[k + 1]; unwind(s); return false; }
  case B_CXA_BEGIN: { Val v = A(0); s->T_().caught.push_back(v.c); return ret(v); }
  case B_CXA_GETPTR: return ret(A(0));
  case B_CXA_END: { Thread &t = s->T_(); if (!t.caught.empty()) { uint64_t e = t.caught.back(); t.caught.pop_back(); bool still = std::count(t.caught.begin(), t.caught.end(), e) || 0; int i = s->heap.find(e); if (!still && i >= 0) { s->heap.v.erase(s->heap.v.begin() + i); s->heap.last = 0; } } return done(); }
  case B_CXA_BADNEW: s->allocFailed++; throwStd(s, "_ZTISt20bad_array_new_length"); return false;
  case B_THROWSTD: throwStd(s, stdTI[sub]); return false;
  case B_GUARD_ACQ: {
    uint64_t g = A(0).c; if (s->threaded) schedPoint(s); Val v = loadC(s, g, L8), w = loadC(s, g + 1, L8); if (v.c) return ret(CV(0));
    if (w.c && w.c != (uint64_t)s->cur + 1 && s->threaded) { // another thread initialises: run it
      s->T_().waitOn = g + 1; for (size_t k = 1; k < s->th.size(); k++) if (!s->th[k].done && !s->th[k].waitOn) { s->cur = k; return true; } violation(s, "deadlock", "all threads are blocked", s->model); endPath(s); }
    storeC(s, g + 1, L8, CV(s->cur + 1)); return ret(CV(1)); }
  case B_GUARD_REL: { uint64_t g = A(0).c; storeC(s, g, L8, CV(1)); storeC(s, g + 1, L8, CV(0)); for (auto &t : s->th) if (t.waitOn == g + 1) t.waitOn = 0; return done(); }
  case B_GUARD_ABORT: { uint64_t g = A(0).c; storeC(s, g + 1, L8, CV(0)); for (auto &t : s->th) if (t.waitOn == g + 1) t.waitOn = 0; return done(); }
  case B_MUTEX_LOCK: {
    uint64_t m = A(0).c; if (s->threaded) schedPoint(s); Val v = loadC(s, m, L32);
    if (v.t || v.c) { if (!s->threaded || v.c == (uint64_t)s->cur + 1) { violation(s, "deadlock", "mutex locked twice", s->model); endPath(s); } s->T_().waitOn = m; for (size_t k = 1; k < s->th.size(); k++) if (!s->th[k].done && !s->th[k].waitOn) { s->cur = k; return true; } violation(s, "deadlock", "all threads are blocked", s->model); endPath(s); }
    storeC(s, m, L32, CV(s->cur + 1)); return ret(CV(0)); }
  case B_MUTEX_UNLOCK: { uint64_t m = A(0).c; storeC(s, m, L32, CV(0)); for (auto &t : s->th) if (t.waitOn == m) t.waitOn = 0; return ret(CV(0)); }
  case B_MEMCPY: { uint64_t n = C(2, "copy length"); if (n) { uint64_t d = C(0, "copy destination"), p = C(1, "copy source"); copyBytes(s, d, p, n); } if (sub) return ret(A(0)); return done(); }
  case B_MEMSET: { uint64_t n = C(2, "fill length"); if (n) { uint64_t d = C(0, "fill destination"); Val v = A(1); if (v.t && TD[v.t].w > 8) v = fromTerm(tExtract(v.t, 0, 8), L8); else if (!v.t) v.c &= 255; clearMem(s, d, n, v); } if (sub) return ret(A(0)); return done(); }
  case B_MEMCMP: { uint64_t n = C(2, "compare length"); T_t r = TD.bv(0, 32); if (n) { uint64_t p = C(0, "compare"), q = C(1, "compare"); for (uint64_t k = n; k-- > 0;) { T_t x = vTerm(loadC(s, p + k, L8), L8), y = vTerm(loadC(s, q + k, L8), L8); r = tIte(tEq(x, y), r, tIte(tUlt(x, y), TD.bv(~0ull, 32), TD.bv(1, 32))); } } return ret(fromTerm(r, L32)); }
  case B_STRLEN: { uint64_t p = C(0, "strlen"); uint64_t k = 0; std::vector<T_t> z; while (true) { Val v = loadC(s, p + k, L8); if (!v.t && !v.c) break; T_t t = vTerm(v, L8); z.push_back(tEq(t, TD.bv(0, 8))); k++; } T_t r = TD.bv(k, 64); for (size_t i = z.size(); i-- > 0;) r = tIte(z[i], TD.bv(i, 64), r); return ret(fromTerm(r, L64)); }
  case B_MATH1: return ret(mathV(s, sub, A(0), in.l));
  case B_MATH2: {
    Val x = A(0), y = A(1); Leaf l = in.l; if (!x.t && !y.t) return ret(fromD(math2(sub, cd(x, l), cd(y, l)), l));
    mpq_class qx, qy; bool cx = realMode && rConstVal(vTerm(x, l), qx), cy = realMode && rConstVal(vTerm(y, l), qy);
    if (cx && cy && sub != 0) return ret(fromD(math2(sub, nearD(qx), nearD(qy)), l));
    if (sub == 0 && cy && qy.get_den() == 1 && abs(qy) <= 16) { T_t r = TD.rconst(1), b = vTerm(x, l); for (int k = 0; k < abs(qy); k++) r = rMul(r, b); if (qy < 0) { T_t nz = tNot(rEq(r, TD.rconst(0))); if (!isTrue(nz)) { cut("divisor assumed non-zero (pow)"); if (!constrain(s, nz)) endPath(s); } r = rDiv(TD.rconst(1), r); } return ret(fromTerm(r, l)); }
    if (sub == 0 && cy && qy == mpq_class(1, 2)) return ret(mathV(s, 0, x, l));
    if (cx && cy) return ret(fromD(math2(sub, nearD(qx), nearD(qy)), l));
    if (sub == 0 && cx && qx == 10) return ret(fromTerm(rUF(F_POW10, y.t), l));
    if (sub == 0 && cx && qx == 2) return ret(fromTerm(rUF(F_POW2, y.t), l));
    if (sub == 2) return ret(fbin(s, Instruction::FRem, l, x, y));
    cut(std::string(math2Names[sub]) + " of symbolic arguments is unconstrained"); return ret(freshVal(l, "math")); }
  case B_POWI: { Val x = A(0); uint64_t n = C(1, "powi"); int64_t e = sextw(n, in.ls[1].w); Val r = fromD(1, in.l); for (int64_t k = 0; k < std::llabs(e); k++) r = fbin(s, Instruction::FMul, in.l, r, x); if (e < 0) r = fbin(s, Instruction::FDiv, in.l, fromD(1, in.l), r); return ret(r); }
  case B_ROUND: return ret(roundV(A(0), sub, in.l));
  case B_FABS: return ret(fabsV(A(0), in.l));
  case B_FMA: return ret(fbin(s, Instruction::FAdd, in.l, fbin(s, Instruction::FMul, in.l, A(0), A(1)), A(2)));
  case B_FMINMAX: { Val a = A(0), b = A(1); T_t c = TB(fromTerm(fcmpT(sub ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a, b, in.l), L1)); if (!realMode) { T_t nb = fcmpT(CmpInst::FCMP_UNO, b, b, in.l); c = tOr(c, nb); } return ret(isTrue(c) ? a : isFalse(c) ? b : iteV(c, a, b, in.l)); }
  case B_COPYSIGN: { Val a = fabsV(A(0), in.l), b = A(1); if (!b.t) { bool neg = (b.c >> (in.l.k == L_F32 ? 31 : 63)) & 1; return ret(neg ? fneg(in.l, a) : a); } T_t c = realMode ? rLt(b.t, TD.rconst(0)) : tEq(tExtract(toBits(b.t), in.l.w - 1, 1), TD.bv(1, 1)); return ret(iteV(c, fneg(in.l, a), a, in.l)); }
  case B_HYPOT: return ret(sqrtSum(s, A(0), A(1), in.l));
  case B_CABS: { Val a, b; Leaf l = in.l; if (in.ex[0] == 2) { a = A(0, 0); b = A(0, 1); } else { a = A(0); b = A(1); } return ret(sqrtSum(s, a, b, l)); }
  case B_MULC: case B_DIVC: {
    Leaf l = in.l; Val a = A(0), b = A(1), c = A(2), d = A(3), o[2];
    if (!a.t && !b.t && !c.t && !d.t && !realMode) { if (l.k == L_F64) { std::complex<double> x(D(a.c), D(b.c)), y(D(c.c), D(d.c)), z = id == B_MULC ? x * y : x / y; o[0] = CV(B(z.real())); o[1] = CV(B(z.imag())); } else { std::complex<float> x(Fl(a.c), Fl(b.c)), y(Fl(c.c), Fl(d.c)), z = id == B_MULC ? x * y : x / y; o[0] = CV(Bf(z.real())); o[1] = CV(Bf(z.imag())); } return done(o, 2); }
    auto M = [&](Val x, Val y) { return fbin(s, Instruction::FMul, l, x, y); };
    if (id == B_MULC) { o[0] = fbin(s, Instruction::FSub, l, M(a, c), M(b, d)); o[1] = fbin(s, Instruction::FAdd, l, M(a, d), M(b, c)); }
    else { Val den = fbin(s, Instruction::FAdd, l, M(c, c), M(d, d)); if (!realMode) cut("complex division modelled by the textbook formula"); 
      o[0] = fbin(s, Instruction::FDiv, l, fbin(s, Instruction::FAdd, l, M(a, c), M(b, d)), den); o[1] = fbin(s, Instruction::FDiv, l, fbin(s, Instruction::FSub, l, M(b, c), M(a, d)), den); }
    if (in.imm == 1) unsupported(s, "complex return"); return done(o, 2); }
  case B_CCONC: {
    std::vector<Val> v; for (size_t k = 0; k < na; k++) for (int j = 0; j < in.ex[k]; j++) v.push_back(A(k, j)); Leaf l = in.l; bool sym = false; std::vector<double> d; for (auto &x : v) { if (x.t) { mpq_class q; if (realMode && rConstVal(x.t, q)) d.push_back(nearD(q)); else sym = true; } else d.push_back(cd(x, l)); }
    if (sym) {
      if (sub == 0 && realMode) { Val er = mathV(s, 1, v[0], l); Val o[2] = {fbin(s, Instruction::FMul, l, er, mathV(s, 4, v[1], l)), fbin(s, Instruction::FMul, l, er, mathV(s, 3, v[1], l))}; return done(o, 2); }
      if (sub == 1 && realMode && v.size() == 2 && !v[1].t && cd(v[1], l) == 0) { T_t nn = rLe(TD.rconst(0), v[0].t); bool t, f; ModelP a, b; if (isTrue(nn)) { t = true; f = false; } else sides(s, nn, t, f, a, b); if (!f) { Val o[2] = {mathV(s, 0, v[0], l), v[1]}; return done(o, 2); } if (!t) { Val o[2] = {v[1], mathV(s, 0, fromTerm(rNeg(v[0].t), l), l)}; return done(o, 2); } }
      cut("complex function of symbolic arguments is unconstrained"); Val o[2] = {freshVal(l, "cmath"), freshVal(l, "cmath")}; return done(o, (int)in.imm); }
    std::complex<double> x(d[0], d[1]), z; switch (sub) { case 0: z = std::exp(x); break; case 1: z = std::sqrt(x); break; case 2: z = std::log(x); break; case 3: z = std::sin(x); break; case 4: z = std::cos(x); break; case 5: z = std::pow(x, std::complex<double>(d[2], d[3])); break; default: z = std::arg(x); }
    Val o[2] = {fromD(z.real(), l), fromD(z.imag(), l)}; return done(o, sub == 6 ? 1 : 2); }
  case B_LROUND: { Leaf fl = in.ls[0]; Val r = roundV(A(0), sub, fl); return ret(castV(s, Instruction::FPToSI, in.l, fl, r)); }
  case B_ISFPCLASS: { Val x = A(0); uint64_t m = A(1).c; Leaf l = in.ls[0]; if (!x.t) { double d = cd(x, l); bool r = ((m & 3) && std::isnan(d)) || ((m & 0x204) && std::isinf(d)) || ((m & 0x60) && d == 0) || ((m & 0x198) && std::isfinite(d) && d != 0); return ret(CV(r)); } if (realMode) { if ((m & 0x1f8) == 0x1f8) return ret(CV(1)); if (!(m & 0x1f8)) return ret(CV(0)); } else { T_t ax = fUn(O_FABS, x.t), inf = TD.fconst(l.k == L_F32 ? 0x7f800000ull : 0x7ff0000000000000ull, l.k == L_F32 ? S_F32 : S_F64), r = FA; bool ok = true; auto part = [&](uint64_t b, T_t t) { if ((m & b) == b) r = tOr(r, t); else if (m & b) ok = false; }; part(3, fCmp(O_FUNO, x.t, x.t)); part(0x204, fCmp(O_FEQ, ax, inf)); part(0x1f8, fCmp(O_FLT, ax, inf)); if (ok) return ret(fromTerm(r, L1)); } unsupported(s, "is.fpclass"); }
  case B_LDEXP: { Val x = A(0), e = A(1); if (!e.t) return ret(fbin(s, Instruction::FMul, in.l, x, fromD(std::ldexp(1.0, (int)sextw(e.c, 32)), in.l))); unsupported(s, "ldexp"); }
  case B_FREXP: { Val x = A(0); if (x.t) unsupported(s, "frexp of a symbolic number"); int e; double m = std::frexp(D(x.c), &e); storeC(s, A(1).c, L32, CV((uint32_t)e)); return ret(CV(B(m))); }
  case B_MODF: { Val x = A(0); Val t = roundV(x, RND_TRUNC, LD); storeC(s, A(1).c, LD, t); return ret(fbin(s, Instruction::FSub, LD, x, t)); }
  case B_OVF: {
    Leaf l = in.ls[0]; unsigned w = l.w; Val a = A(0), b = A(1); Val o[2]; unsigned ops[] = {Instruction::Add, Instruction::Sub, Instruction::Mul}; o[0] = binop(s, ops[sub % 3], l, a, b);
    if (!a.t && !b.t) { bool ov; if (sub < 3) { unsigned __int128 p = a.c, q = b.c, r = sub == 0 ? p + q : sub == 1 ? p - q : p * q; ov = sub == 1 ? q > p : (r >> w) != 0; } else { __int128 p = sextw(a.c, w), q = sextw(b.c, w), r = sub == 3 ? p + q : sub == 4 ? p - q : p * q; ov = r != (__int128)sextw(o[0].c, w); } o[1] = CV(ov); return done(o, 2); }
    T_t x = vTerm(a, l), y = vTerm(b, l), r = vTerm(o[0], l), ov;
    if (sub == 0) ov = tUlt(r, x); else if (sub == 1) ov = tUlt(x, y);
    else if (w <= 32) { unsigned W = 2 * w; T_t X = sub < 3 ? tZext(x, W) : tSext(x, W), Y = sub < 3 ? tZext(y, W) : tSext(y, W), R = sub % 3 == 0 ? tAdd(X, Y) : sub % 3 == 1 ? tSub(X, Y) : tMul(X, Y); ov = tNot(tEq(R, sub < 3 ? tZext(r, W) : tSext(r, W))); }
    else if (sub == 2) { if (TD.isC(y) || TD.isC(x)) { T_t c = TD.isC(y) ? y : x, v = TD.isC(y) ? x : y; ov = TD.cv(c) == 0 ? FA : tUlt(TD.bv(~0ull / TD.cv(c), 64), v); } else ov = tAnd(tNot(tEq(x, TD.bv(0, 64))), tNot(tEq(tUDiv(r, x), y))); }
    else { T_t z = TD.bv(0, w); if (sub == 3) ov = tAnd(tEq(tSlt(x, z), tSlt(y, z)), tNot(tEq(tSlt(r, z), tSlt(x, z)))); else if (sub == 4) ov = tAnd(tNot(tEq(tSlt(x, z), tSlt(y, z))), tNot(tEq(tSlt(r, z), tSlt(x, z)))); else ov = tAnd(tNot(tEq(x, z)), tNot(tEq(tSDiv(r, x), y))); }
    o[1] = fromTerm(ov, L1); return done(o, 2); }
  case B_SAT: { Leaf l = in.l; T_t a = vTerm(A(0), l), b = vTerm(A(1), l); if (sub == 1) return ret(fromTerm(tIte(tUlt(a, b), TD.bv(0, l.w), tSub(a, b)), l)); T_t r = tAdd(a, b); return ret(fromTerm(tIte(tUlt(r, a), TD.bv(~0ull, l.w), r), l)); }
  case B_MINMAX: { Leaf l = in.l; Val x = A(0), y = A(1); T_t a = vTerm(x, l), b = vTerm(y, l); T_t c = sub < 2 ? tUlt(a, b) : tSlt(a, b); if (sub & 1) c = sub < 2 ? tUlt(b, a) : tSlt(b, a); return ret(fromTerm(tIte(c, a, b), l)); }
  case B_IABS: { Leaf l = in.l; T_t a = vTerm(A(0), l); return ret(fromTerm(tIte(tSlt(a, TD.bv(0, l.w)), tNeg(a), a), l)); }
  case B_CTPOP: { Leaf l = in.l; Val x = A(0); if (!x.t) return ret(CV(__builtin_popcountll(x.c))); T_t r = TD.bv(0, l.w); for (unsigned k = 0; k < l.w; k++) r = tAdd(r, tZext(tExtract(x.t, k, 1), l.w)); return ret(fromTerm(r, l)); }
  case B_CTLZ: case B_CTTZ: { Leaf l = in.l; T_t x = vTerm(A(0), l), r = TD.bv(l.w, l.w); if (id == B_CTTZ) { for (int k = l.w - 1; k >= 0; k--) r = tIte(tExtract(x, k, 1), TD.bv(k, l.w), r); } else for (int k = 0; k < l.w; k++) r = tIte(tExtract(x, k, 1), TD.bv(l.w - 1 - k, l.w), r); return ret(fromTerm(r, l)); }
  case B_BSWAP: { Leaf l = in.l; T_t x = vTerm(A(0), l), r = 0; for (unsigned k = 0; k < l.w; k += 8) { T_t b = tExtract(x, k, 8); r = r ? tConcat(r, b) : b; } return ret(fromTerm(r, l)); }
  case B_FSH: { Leaf l = in.l; T_t a = vTerm(A(0), l), b = vTerm(A(1), l); Val c = A(2); if (c.t) unsupported(s, "funnel shift by a symbolic amount"); unsigned k = c.c % l.w; T_t r = k == 0 ? (sub ? b : a) : sub ? tOr(tShl(a, TD.bv(l.w - k, l.w)), tLshr(b, TD.bv(k, l.w))) : tOr(tShl(a, TD.bv(k, l.w)), tLshr(b, TD.bv(l.w - k, l.w))); return ret(fromTerm(r, l)); }
  case B_IDENT: return ret(raw(f, in.a[0], 0));
  case B_RETZERO: { if (in.dst >= 0) return ret(CV(0)); return done(); }
  case B_NOP: return done();
  case B_STACKSAVE: return ret(CV(0));
  case B_TYPEID: { uint64_t t = A(0).c; return ret(CV(t & 0x7fffffff)); }
  case B_OBJSIZE: return ret(CV(maskw(in.l.w)));
  case B_ERRNO: { static const Leaf e = L32; (void)e; int i = -1; for (size_t k = 0; k < s->glob.v.size(); k++) if (s->glob.v[k]->ak == AK_EXC) i = (int)k; if (i < 0) unsupported(s, "errno"); return ret(CV(s->glob.v[i]->base)); }
  case B_HAVOC: return ret(Val{0, UNINIT});
  case B_SYM_DIVISOR: { Val v = A(0); if (!v.t && v.c) return done(); T_t nz = v.t ? tNot(tEq(v.t, TD.bv(0, 64))) : FA; if (!isTrue(nz)) { assertTerm(s, nz, "arithmetic", "integer division by zero"); if (!constrain(s, nz)) endPath(s); } return done(); }
  // ---- harness interface
  case B_SYM_BV: { std::string n = uniqName(s, cstr(s, A(0).c)); unsigned w = (unsigned)A(1).c; T_t v = symVar(n, S_BV, w); bool seen = false; for (auto &i : s->inputs) if (i.t == v) seen = true; if (!seen) s->inputs.push_back({n, 'v', v, 0, {L_INT, (uint8_t)w, 0}}); return ret(fromTerm(w < in.l.w ? tZext(v, in.l.w) : v, in.l)); }
  case B_SYM_F64: case B_SYM_F32: { std::string n = uniqName(s, cstr(s, A(0).c)); Leaf l = in.l; T_t v = symVar(n, leafSort(l), l.w); s->inputs.push_back({n, 'v', v, 0, l}); return ret(Val{0, v}); }
  case B_SYM_CHOICE: {
    std::string n = uniqName(s, cstr(s, A(0).c)); int64_t lo = (int64_t)A(1).c, hi = (int64_t)A(2).c; if (s->shN < 0) { s->shN = OPT.nshard; s->shI = OPT.shard; }
    // the shards are distributed over the leading choices
    std::vector<int64_t> vals; int m = s->shN, r = s->shI, V = (int)(hi - lo + 1); if (V <= 0) endPath(s);
    if (m <= 1) { for (int64_t k = lo; k <= hi; k++) vals.push_back(k); }
    else if (V >= m) { for (int64_t k = lo; k <= hi; k++) if ((int)((k - lo) % m) == r) vals.push_back(k); s->shN = 1; s->shI = 0; }
    else { int v = r % V; vals.push_back(lo + v); s->shN = (m - v + V - 1) / V; s->shI = r / V; }
    for (size_t k = vals.size(); k-- > 1;) { State *o = cloneState(s); o->inputs.push_back({n, 'c', 0, vals[k], L64}); Frame &of = o->F(); if (in.dst >= 0) of.r[in.dst] = CV((uint64_t)vals[k] & maskw(in.l.w)); if (in.op == X_INVOKE) gotoBlock(o, in.bb); else of.ip++; WL->push_back(o); }
    s->inputs.push_back({n, 'c', 0, vals[0], L64}); return ret(CV((uint64_t)vals[0] & maskw(in.l.w))); }
  case B_SYM_ASSUME: { RES.assumes++; Val v = A(0); if (!v.t) { if (!(v.c & 1)) { RES.killed++; endPath(s); } return done(); } if (!constrain(s, TB(v))) { RES.killed++; endPath(s); } return done(); }
  case B_SYM_ASSERT: { Val v = A(0); std::string m = cstr(s, A(1).c); T_t c = TB(v); if (OPT.verbose && !isTrue(c)) fprintf(stderr, "[assert %s: %s]\n", m.c_str(), termStr(c, 8).c_str()); assertTerm(s, c, "assert", m); return done(); }
  case B_SYM_CLOSE: doClose(s, A(0), A(1), D(A(2).c), cstr(s, A(3).c)); return done();
  case B_SYM_ABORTOK: { Val v = A(0); s->abortOk = TB(v); return done(); }
  case B_SYM_REACH: { std::string lb = cstr(s, A(0).c); uint64_t n = RES.reached[lb]++; if (n == 0 || n == 5 || n == 40) { Violation v; v.kind = "witness"; v.msg = lb; inputsOf(s, s->model, v); RES.wit.push_back(v); } return done(); }
  case B_SYM_HEAPLIVE: { uint64_t n = 0; for (auto &o : s->heap.v) if (o->ak != AK_EXC) n++; return ret(CV(n)); }
  case B_SYM_HEAPBYTES: { uint64_t n = 0; for (auto &o : s->heap.v) if (o->ak != AK_EXC) n += o->size; return ret(CV(n)); }
  case B_SYM_ALLOCFAIL: s->allocFails = (int)A(0).c; return done();
  case B_SYM_ALLOCFAILED: return ret(CV(s->allocFailed));
  case B_SYM_CONC: { Val v = A(0); return ret(CV(concretize(s, v, in.l, "sym_concretize", 5000))); }
  case B_SYM_ISSYM: { Val v = A(0); return ret(CV(v.t != 0)); }
  case B_SYM_GEN: { // (tag, address, bytes): every aligned 32-bit word that holds a symbolic value becomes an unconstrained input
    std::string tag = cstr(s, A(0).c); uint64_t p = A(1).c, n = A(2).c, cnt = 0; lookup(s, p, n, true, "generalisation");
    for (uint64_t o = 0; o + 4 <= n; o += 4) { Val v = loadRaw(s, p + o, L32); if (!v.t || v.t == UNINIT) continue; Ref r = lookup(s, p + o, 4, false, "generalisation"); const Cell &c = r.v->v[r.i].p->sym[r.off]; if (c.w != 4 || c.idx != 0 || TD[v.t].sort != S_BV) continue;
      std::string nm = uniqName(s, tag + "+" + std::to_string(o)); T_t x = symVar(nm, S_BV, 32); s->inputs.push_back({nm, 'v', x, 0, L32}); storeC(s, p + o, L32, Val{0, x}); cnt++; }
    return ret(CV(cnt)); }
  case B_SYM_DIGIT: { // (value, position): the decimal digit at a position as an unknown; the stream model ties it to the value by an assumption that has exactly one solution
    static std::map<std::pair<T_t, uint64_t>, T_t> memo; Val v = A(0); T_t k = v.t ? v.t : TD.bv(v.c, 64); uint64_t i = A(1).c; T_t &d = memo[{k, i}]; if (!d) d = TD.newVar("digit", S_BV, 4, true); return ret(Val{0, tZext(d, 64)}); }
  case B_SYM_MODE: return ret(CV(realMode));
  case B_SYM_NOTE: if (OPT.verbose) { Val v = A(1); fprintf(stderr, "[note %s = %s]\n", cstr(s, A(0).c).c_str(), v.t ? termStr(v.t, 10).c_str() : std::to_string((long long)v.c).c_str()); } return done();
  case B_SYM_FMT: { // (double, precision, flags: 0 default 1 fixed 2 scientific, buffer) -> length
    Val v = A(0); if (v.t) { mpq_class q; if (realMode && rConstVal(v.t, q)) v = CV(B(nearD(q))); else unsupported(s, "formatting a symbolic floating-point number"); }
    int pr = (int)A(1).c, fl = (int)A(2).c; uint64_t buf = A(3).c; char t[400]; int n = snprintf(t, sizeof t, fl == 1 ? "%.*f" : fl == 2 ? "%.*e" : "%.*g", pr, D(v.c)); if (n > 120) n = 120; for (int k = 0; k < n; k++) storeC(s, buf + k, L8, CV((uint8_t)t[k])); return ret(CV(n)); }
  case B_SYM_SPAWN: {
    uint64_t fa = A(0).c; Val arg = A(1); size_t k = (fa - FBASE) / FSTEP; if (fa < FBASE || k >= funcByAddr.size()) unsupported(s, "thread function"); int cur = s->cur; size_t ti = s->th.size(); s->th.push_back(Thread()); s->th.back().top = SBASE + ti * SSIZE; s->cur = (int)ti; pushFrame(s, funcByAddr[k], {{arg}}, nullptr); s->cur = cur; return done(); }
  case B_SYM_PREEMPT: s->preempt = (int)A(0).c; return done();
  case B_SYM_JOIN: { if (s->th.size() <= 1) return done(); s->threaded = true; for (size_t k = 2; k < s->th.size(); k++) { State *o = cloneState(s); o->cur = (int)k; WL->push_back(o); } s->cur = 1; return true; }
  default: unsupported(s, "builtin " + callee->name);
  }
  std::vector<std::vector<Val>> args; size_t n = in.callee ? na : na - 1;
  if (!callee) {
    uint64_t fa = C((int)na - 1, "function pointer"); size_t k = fa < FBASE ? ~0ull : (fa - FBASE) / FSTEP;
    if (k >= funcByAddr.size() || (fa - FBASE) % FSTEP) memError(s, "call through an invalid function pointer");
    callee = funcByAddr[k];
    int b2 = builtinId(callee->F); if (b2 != B_NONE) { static std::map<std::pair<const Inst *, Func *>, Inst *> alt; Inst *&ai = alt[{&in, callee}]; if (!ai) { ai = new Inst(in); ai->callee = callee; ai->bi = b2; ai->a.pop_back(); ai->ls.pop_back(); ai->ex.pop_back(); } return doCall(s, f, *ai); }
  }
  if (callee->F->isDeclaration()) unsupported(s, "call to external function " + demangle(callee->name));
  for (size_t k = 0; k < n; k++) {
    std::vector<Val> v; for (int j = 0; j < in.ex[k]; j++) v.push_back(raw(f, in.a[k], j));
    if (in.cb && in.cb->isByValArgument(k) && v.size() == 1) { uint64_t sz = DL->getTypeAllocSize(in.cb->getParamByValType(k)); Thread &t = s->T_(); t.top = (t.top + 15) & ~15ull; uint64_t b = t.top; t.top += ((sz + 15) & ~15ull) + 32; newObj(t.stack, b, sz, OK_STACK, true); Val p = get(s, f, in.a[k], 0, LP); uint64_t pa = concretize(s, p, LP, "byval"); copyBytes(s, b, pa, sz); v[0] = CV(b); }
    args.push_back(std::move(v));
  }
  pushFrame(s, callee, args, &in);
  return false;
}
