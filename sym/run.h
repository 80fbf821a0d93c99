// ------------------------------------------------------------------ interpreter
static std::vector<State *> *WL; // work list of the innermost exploration
struct Kill { }; // current path ends
static bool TIMEUP() { return nowSec() > solverDeadline; }

static std::string demangle(const std::string &n) { int st; char *d = abi::__cxa_demangle(n.c_str(), 0, 0, &st); std::string r = st == 0 ? d : n; free(d); return r; }
static std::string where(State *s) {
  std::string o; auto &fr = s->T_().fr; for (int i = (int)fr.size() - 1, k = 0; i >= 0 && k < 6; i--, k++) { std::string d = demangle(fr[i].f->name); if (d.size() > 160) d = d.substr(0, 160); o += (k ? " <- " : "") + d; } return o;
}
// ---- path conditions
static void slice(const std::vector<T_t> &pc, const std::vector<T_t> &q, std::vector<T_t> &out) {
  std::set<uint32_t> vs; for (T_t t : q) for (uint32_t v : termVars(t)) vs.insert(v);
  std::vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { auto &tv = termVars(pc[i]); bool hit = tv.empty(); for (uint32_t v : tv) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (uint32_t v : tv) vs.insert(v); } } }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
  for (T_t t : q) out.push_back(t);
}
static Model *curModel = nullptr; static uint64_t evalVars = 0; static ModelP keepModel;
static void setModel(const ModelP &m) { if (keepModel != m) { keepModel = m; evalReset(); } }
static bool evalBool(const ModelP &m, T_t t) { setModel(m); return evalTerm(t, *m).b & 1; }
static SRes check(State *s, T_t extra, ModelP *m, int tmo = 0, bool fb = true) { std::vector<T_t> q; slice(s->pc, {extra}, q); return solveConj(q, s->model.get(), m, tmo, fb); }
static void addPC(State *s, T_t c) { if (isTrue(c)) return; const Node n = TD[c]; if (n.op == O_AND) { addPC(s, n.a); addPC(s, n.b); return; } for (T_t p : s->pc) if (p == c) return; s->pc.push_back(c); }
// feasibility could not be decided: the model of s need not satisfy its path condition
static void timeOrStale(State *s) { if (TIMEUP()) { RES.incomplete = true; RES.incompleteWhy = "time limit"; throw Kill(); } s->stale = true; }
static bool tryRandom(State *s, T_t c, ModelP &out);
// make the model of s satisfy c as well; returns feasibility (unknown counts as feasible)
static bool constrain(State *s, T_t c) {
  if (isTrue(c)) return true; if (isFalse(c)) return false;
  if (evalBool(s->model, c)) { addPC(s, c); return true; }
  ModelP m; SRes r = realMode && tryRandom(s, c, m) ? R_SAT : check(s, c, &m, 0, !realMode); if (r == R_UNSAT) return false;
  if (r == R_SAT && m) s->model = m; else timeOrStale(s);
  addPC(s, c); return true;
}
static void inputsOf(State *s, const ModelP &m, Violation &v) {
  setModel(m);
  for (auto &i : s->inputs) {
    char b[64];
    if (i.kind == 'c') snprintf(b, sizeof b, "%lld", (long long)i.v);
    else { EVal e = evalTerm(i.t, *m); if (TD[i.t].sort == S_REAL) { double d = e.r; uint64_t u; if (i.l.k == L_F32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); u = x; } else memcpy(&u, &d, 8); snprintf(b, sizeof b, "0x%llx", (unsigned long long)u); } else snprintf(b, sizeof b, "0x%llx", (unsigned long long)e.b); }
    v.inputs.push_back({i.name, b});
  }
}
static void inconclusive(State *s, const std::string &msg) { RES.inconc++; if (RES.inconcMsg.size() < 50) RES.inconcMsg.insert(msg); }
static void violation(State *s, const std::string &kind, const std::string &msg, const ModelP &m0, T_t fail = 0) {
  ModelP m = m0;
  if (s->stale) {
    bool ok = !fail || evalBool(m, fail); for (T_t p : s->pc) if (ok && !evalBool(m, p)) ok = false;
    if (!ok) { std::vector<T_t> q(s->pc); if (fail) q.push_back(fail); ModelP n; SRes r = solveConj(q, m0.get(), &n, 0, !realMode); if (r == R_UNSAT) return; if (r == R_UNK || !n) { inconclusive(s, kind + ": " + msg + " at " + where(s)); return; } m = n; }
  }
  int &n = RES.violCount[kind + ":" + msg]; n++; if (n > OPT.maxViol) return;
  Violation v; v.kind = kind; v.msg = msg; v.where = where(s); inputsOf(s, m, v); RES.viol.push_back(v);
  if (OPT.verbose) { fprintf(stderr, "[violation %s: %s at %s]\n", kind.c_str(), msg.c_str(), v.where.c_str()); for (auto &i : v.inputs) fprintf(stderr, "    %s = %s\n", i.first.c_str(), i.second.c_str()); }
}
[[noreturn]] static void endPath(State *s) { (void)s; throw Kill(); }
[[noreturn]] static void unsupported(State *s, const std::string &m) { RES.unsup++; if (RES.unsupMsg.size() < 30) RES.unsupMsg.insert(m + " in " + where(s)); throw Kill(); }
[[noreturn]] static void memError(State *s, const std::string &m) { violation(s, "memory", m, s->model); throw Kill(); }

// random falsification: cheap attempts before a solver call
static uint64_t rngS = 88172645463325252ull; static uint64_t rnd() { rngS ^= rngS << 13; rngS ^= rngS >> 7; rngS ^= rngS << 17; return rngS; }
static bool tryRandom(State *s, T_t c, ModelP &out) {
  std::vector<T_t> q; slice(s->pc, {c}, q); std::set<uint32_t> vs; for (T_t t : q) for (uint32_t v : termVars(t)) vs.insert(v);
  if (vs.size() > 400) return false;
  for (int k = 0; k < (f32Used ? 48 : 24); k++) {
    ModelP m = std::make_shared<Model>(*s->model); m->bv.resize(TD.vars.size()); m->re.resize(TD.vars.size());
    for (uint32_t v : vs) { if ((k & 3) == 3 && rnd() % 4) continue; const VarInfo &vi = TD.vars[v];
      if (vi.sort == S_REAL) m->re[v] = f32Used && (k & 1) ? (vi.w == 32 ? (double)(float)(((int)(rnd() % 2000003) - 1000001) / 300007.0) : ((int)(rnd() % 2000003) - 1000001) / 300007.0) : (k % 3 == 0) ? (double)((int)(rnd() % 9) - 4) : ((int)(rnd() % 129) - 64) / 16.0;
      else if (vi.sort == S_BV) m->bv[v] = ((k % 3 == 0) ? rnd() % 4 : (k % 3 == 1) ? 0 - rnd() % 4 : rnd()) & maskw(vi.w);
      else { double d = ((int)(rnd() % 129) - 64) / 16.0; if (vi.sort == S_F64) memcpy(&m->bv[v], &d, 8); else { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); m->bv[v] = u; } } }
    setModel(m); bool ok = true; for (T_t t : q) if (!(evalTerm(t, *m).b & 1)) { ok = false; break; }
    if (ok) { out = m; return true; }
  }
  return false;
}
// exact confirmation that the values of m (computed in rounded arithmetic) falsify the assertion
static bool confirmPoint(State *s, const ModelP &m, T_t fail) {
  if (!realMode) return true;
  std::vector<T_t> q; slice(s->pc, {fail}, q); std::set<uint32_t> vs; for (T_t t : q) for (uint32_t v : termVars(t)) vs.insert(v);
  for (uint32_t v : vs) { const VarInfo &vi = TD.vars[v]; T_t t = TD.varTerm[v];
    if (vi.sort == S_REAL) { double d = v < m->re.size() ? m->re[v] : 0; q.push_back(rEq(t, TD.rconst(mpq_class(d)))); } else if (vi.sort == S_BV) q.push_back(tEq(t, TD.bv((v < m->bv.size() ? m->bv[v] : 0) & maskw(vi.w), vi.w))); else return true; }
  return solveConj(q, m.get(), nullptr, 2000, false) != R_UNSAT;
}
// c must hold on every input of the path; afterwards the path continues under c
static void assertTerm(State *s, T_t c, const std::string &kind, const std::string &msg, T_t fail = 0) { // fail: the condition that counts as a failure (default: not c)
  RES.asserts++;
  if (!fail) fail = tNot(c);
  if (isTrue(c) || isFalse(fail)) { RES.simp++; return; }
  if (RES.violCount.count(kind + ":" + msg) && RES.violCount[kind + ":" + msg] >= OPT.maxViol) { if (!constrain(s, c)) endPath(s); return; }
  if (isTrue(fail)) { RES.modelFail++; violation(s, kind, msg, s->model); if (isFalse(c) || !constrain(s, c)) endPath(s); return; }
  if (OPT.sweep) { T_t f = sweepRep(fail); if (isFalse(f)) { RES.solved++; return; } }
  if (OPT.verbose) fprintf(stderr, "[assert %s: fails if %s]\n", msg.c_str(), termStr(fail, 12).c_str());
  ModelP m; SRes r = R_UNK;
  if (evalBool(s->model, fail)) { r = R_SAT; m = s->model; if (realMode) { for (T_t p : s->pc) if (!evalBool(m, p)) { r = R_UNK; break; } } if (r == R_SAT && !confirmPoint(s, m, fail)) r = R_UNK; if (r == R_SAT) RES.modelFail++; }
  if (r == R_UNK && tryRandom(s, fail, m) && confirmPoint(s, m, fail)) { r = R_SAT; RES.modelFail++; }
  if (r == R_UNK) { m = nullptr; r = check(s, fail, &m); RES.solved++; }
  if (r == R_SAT) { violation(s, kind, msg, m ? m : s->model, fail); if (!constrain(s, c)) endPath(s); return; }
  if (r == R_UNK) { inconclusive(s, kind + ": " + msg + " at " + where(s)); addPC(s, c); return; }
  // unsat: holds; no need to add c
}
// ---- memory
static OVec *regionOf(State *s, uint64_t a) {
  if (a >= SBASE) { size_t t = (a - SBASE) / SSIZE; return t < s->th.size() ? &s->th[t].stack : nullptr; }
  if (a >= HBASE) return &s->heap;
  if (a >= GBASE) return &s->glob;
  return nullptr;
}
struct Ref { OVec *v; int i; uint32_t off; };
static std::string describe(State *s, uint64_t a) {
  char b[100]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)a); std::string r = b;
  if (a < 4096) return "null pointer"; if (a >= HBASE && a < SBASE) return "heap address (out of bounds or freed)"; if (a >= SBASE) return "stack address"; if (a >= GBASE) return "global"; return r;
}
static Ref lookup(State *s, uint64_t a, uint64_t n, bool write, const char *what) {
  OVec *v = regionOf(s, a); int i = v ? v->find(a) : -1;
  if (i < 0 && v == &s->glob) { v = &constGlobals; i = v->find(a); if (i >= 0 && write) memError(s, std::string("write to constant data")); }
  if (i < 0) memError(s, std::string("invalid ") + what + " of " + std::to_string(n) + " bytes at " + describe(s, a));
  const Obj *o = v->v[i].p; if (a - o->base + n > o->size) memError(s, std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes at offset " + std::to_string(a - o->base) + " of a " + (o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global") + " object of " + std::to_string(o->size) + " bytes");
  return {v, i, (uint32_t)(a - o->base)};
}
struct WrCtx { OVec *v; int i; };
static Obj *wrCb(void *p) { WrCtx *c = (WrCtx *)p; return c->v->write(c->i); }
static Val loadC(State *s, uint64_t a, const Leaf &l) { Ref r = lookup(s, a, leafBytes(l), false, "read"); WrCtx c{r.v, r.i}; return readCells(wrCb, &c, r.v->v[r.i].p, r.off, l); }
static Val loadRaw(State *s, uint64_t a, const Leaf &l) { Ref r = lookup(s, a, leafBytes(l), false, "read"); return readCells(nullptr, nullptr, r.v->v[r.i].p, r.off, l); }
static void storeC(State *s, uint64_t a, const Leaf &l, const Val &v) { Ref r = lookup(s, a, leafBytes(l), true, "write"); writeCells(r.v->write(r.i), r.off, l, v); }
static const Leaf LP{L_PTR, 64, 0}, L64{L_INT, 64, 0}, L32{L_INT, 32, 0}, L8{L_INT, 8, 0}, L1{L_INT, 1, 0}, LD{L_F64, 64, 0};

static bool iteLeaves(T_t t, T_t g, std::vector<std::pair<T_t, uint64_t>> &o, int lim) {
  if ((int)o.size() > lim) return false; const Node n = TD[t];
  if (n.op == O_CONST) { for (auto &p : o) if (p.second == n.k) { p.first = tOr(p.first, g); return true; } o.push_back({g, n.k}); return true; }
  if (n.op == O_ITE) { T_t a = tAnd(g, n.a), b = tAnd(g, tNot(n.a)); if (!isFalse(a) && !iteLeaves(n.b, a, o, lim)) return false; if (!isFalse(b) && !iteLeaves(n.c, b, o, lim)) return false; return true; }
  if (n.op == O_ADD && TD.isC(n.b)) { std::vector<std::pair<T_t, uint64_t>> q; if (!iteLeaves(n.a, g, q, lim)) return false; for (auto &p : q) o.push_back({p.first, p.second + TD.cv(n.b)}); return true; }
  return false;
}
static void gotoNext(State *s);
static State *cloneState(State *s) { return new State(*s); }
// replace v by a concrete value, forking over all feasible ones
static uint64_t concretize(State *s, const Val &v, const Leaf &l, const char *why, int limit = 300) {
  if (!v.t) return v.c; T_t t = v.t;
  if (TD[t].sort != S_BV) t = toBits(t);
  auto it = s->conc.find(t); if (it != s->conc.end()) return it->second;
  std::vector<std::pair<uint64_t, ModelP>> vals; std::vector<T_t> block;
  setModel(s->model); uint64_t v0 = evalTerm(t, *s->model).b; vals.push_back({v0, s->model}); T_t excl = tNot(tEq(t, TD.bv(v0, TD[t].w)));
  while (true) {
    ModelP m; SRes r = isFalse(excl) ? R_UNSAT : check(s, excl, &m); if (r == R_UNSAT) break;
    if (r == R_UNK || !m) { inconclusive(s, std::string("enumeration: ") + why); break; }
    setModel(m); uint64_t x = evalTerm(t, *m).b; bool dup = false; for (auto &p : vals) if (p.first == x) dup = true; if (dup) { inconclusive(s, std::string("enumeration: ") + why); break; }
    vals.push_back({x, m}); excl = tAnd(excl, tNot(tEq(t, TD.bv(x, TD[t].w))));
    if ((int)vals.size() > limit) { inconclusive(s, std::string("more than ") + std::to_string(limit) + " values: " + why + " at " + where(s)); break; }
  }
  for (size_t i = 1; i < vals.size(); i++) { State *c = cloneState(s); c->conc[t] = vals[i].first; c->model = vals[i].second; addPC(c, tEq(t, TD.bv(vals[i].first, TD[t].w))); WL->push_back(c); RES.forks++; }
  s->conc[t] = v0; addPC(s, tEq(t, TD.bv(v0, TD[t].w))); return v0;
}
struct Acc { T_t g; OVec *v; int i; uint32_t off; };
// all places a symbolic address may denote (guards are exclusive); out-of-bounds addresses are reported
static void resolve(State *s, T_t at, uint64_t n, bool write, std::vector<Acc> &out) {
  auto ci = s->conc.find(at); if (ci != s->conc.end()) { Ref r = lookup(s, ci->second, n, write, write ? "write" : "read"); out.push_back({TR, r.v, r.i, r.off}); return; }
  std::vector<std::pair<T_t, uint64_t>> lv; const char *what = write ? "write" : "read";
  if (iteLeaves(at, TR, lv, 300)) {
    for (auto &p : lv) {
      if (isFalse(p.first)) continue;
      OVec *v = regionOf(s, p.second); int i = v ? v->find(p.second) : -1; if (i < 0 && v == &s->glob) { v = &constGlobals; i = v->find(p.second); }
      bool bad = i < 0 || p.second - v->v[i]->base + n > v->v[i]->size || (write && v == &constGlobals);
      if (bad) { assertTerm(s, tNot(p.first), "memory", std::string("invalid ") + what + " at " + describe(s, p.second)); continue; }
      out.push_back({p.first, v, i, (uint32_t)(p.second - v->v[i]->base)});
    }
    if (out.empty()) endPath(s); return;
  }
  const Node nd = TD[at]; bool hasIte = false; { std::function<void(T_t)> f = [&](T_t t) { const Node x = TD[t]; if (x.op == O_ADD) { f(x.a); f(x.b); } else if (x.op == O_ITE) hasIte = true; }; f(at); }
  setModel(s->model); uint64_t a0 = evalTerm(at, *s->model).b; OVec *v = regionOf(s, a0); int i = v ? v->find(a0) : -1; if (i < 0 && v == &s->glob) { v = &constGlobals; i = v->find(a0); }
  if (i < 0 || hasIte) {
    // maybe the base object is not the one of the model: use the constant part of the address
    if (hasIte) { uint64_t a = concretize(s, Val{0, at}, LP, "pointer"); Ref r = lookup(s, a, n, write, what); out.push_back({TR, r.v, r.i, r.off}); return; }
    // constant addend that falls in an object?
    std::function<uint64_t(T_t)> cadd = [&](T_t t) -> uint64_t { const Node x = TD[t]; if (x.op == O_CONST) return x.k; if (x.op == O_ADD) return cadd(x.a) + cadd(x.b); return 0; };
    uint64_t cb = cadd(at); OVec *v2 = regionOf(s, cb); int i2 = v2 ? v2->find(cb) : -1; if (i2 < 0 && v2 == &s->glob) { v2 = &constGlobals; i2 = v2->find(cb); }
    if (i2 < 0) { lookup(s, a0, n, write, what); endPath(s); }
    v = v2; i = i2;
  }
  const Obj *o = v->v[i].p; uint64_t base = o->base; uint32_t size = o->size; if (size < n || (write && v == &constGlobals)) { lookup(s, a0, n, write, what); endPath(s); }
  T_t offt = tSub(at, TD.bv(base, 64)); T_t inb = tUle(offt, TD.bv(size - n, 64));
  assertTerm(s, inb, "memory", std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes, index outside a " + (o->kind == OK_HEAP ? "heap" : "") + " object of " + std::to_string(size) + " bytes");
  if (!constrain(s, inb)) endPath(s);
  setModel(s->model); uint64_t o0 = evalTerm(offt, *s->model).b; uint64_t step = 1;
  for (uint64_t st : {(uint64_t)n, (uint64_t)4, (uint64_t)2}) if (st > 1 && (st & (st - 1)) == 0 && st <= n * 8) { T_t c = tEq(tExtract(offt, 0, __builtin_ctzll(st)), TD.bv(o0 & (st - 1), __builtin_ctzll(st))); if (isTrue(c) || check(s, tNot(c), nullptr) == R_UNSAT) { step = st; break; } }
  uint64_t cnt = (size - n) / step + 1;
  if (cnt > 600) { uint64_t a = concretize(s, Val{0, at}, LP, "index into a large object"); Ref r = lookup(s, a, n, write, what); out.push_back({TR, r.v, r.i, r.off}); return; }
  for (uint64_t k = o0 % step; k + n <= size; k += step) { T_t g = tEq(offt, TD.bv(k, 64)); if (!isFalse(g)) out.push_back({g, v, i, (uint32_t)k}); }
}
static Val loadV(State *s, const Val &p, int64_t add, const Leaf &l) {
  if (!p.t) return loadC(s, p.c + add, l);
  T_t at = add ? tAdd(p.t, TD.bv(add, 64)) : p.t; if (TD.isC(at)) return loadC(s, TD.cv(at), l);
  std::vector<Acc> ac; resolve(s, at, leafBytes(l), false, ac);
  T_t r = 0; for (size_t k = ac.size(); k-- > 0;) { WrCtx c{ac[k].v, ac[k].i}; Val v = readCells(wrCb, &c, ac[k].v->v[ac[k].i].p, ac[k].off, l); T_t t = vTerm(v, l); r = r ? tIte(ac[k].g, t, r) : t; }
  return fromTerm(r, l);
}
static void storeV(State *s, const Val &p, int64_t add, const Leaf &l, const Val &v) {
  if (!p.t) { storeC(s, p.c + add, l, v); return; }
  T_t at = add ? tAdd(p.t, TD.bv(add, 64)) : p.t; if (TD.isC(at)) { storeC(s, TD.cv(at), l, v); return; }
  std::vector<Acc> ac; resolve(s, at, leafBytes(l), true, ac);
  if (ac.size() == 1) { writeCells(ac[0].v->write(ac[0].i), ac[0].off, l, v); return; }
  Val vv = v.t == UNINIT ? freshVal(l, "uninit") : v;
  for (auto &a : ac) { WrCtx c{a.v, a.i}; Val old = readCells(wrCb, &c, a.v->v[a.i].p, a.off, l); T_t t = tIte(a.g, vTerm(vv, l), vTerm(old, l)); writeCells(a.v->write(a.i), a.off, l, fromTerm(t, l)); }
}
static Obj *newObj(OVec &v, uint64_t base, uint64_t size, OKind k, bool uninit) {
  Obj *o = new Obj; o->base = base; o->size = (uint32_t)size; o->kind = k; o->data.assign(size, 0); o->shape.assign(size, 0);
  if (uninit) { o->sym.assign(size ? size : 1, Cell{UNINIT, 0, 1}); }
  v.v.push_back(ORef(o)); return o;
}
static uint64_t heapAlloc(State *s, uint64_t n, AKind k, bool zero) {
  if (n > (1ull << 26)) unsupported(s, "allocation of " + std::to_string(n) + " bytes");
  uint64_t b = s->heapTop; s->heapTop += ((n + 15) & ~15ull) + 64; Obj *o = newObj(s->heap, b, n, OK_HEAP, !zero); o->ak = k; return b;
}
static void heapFree(State *s, uint64_t a, AKind k) {
  if (!a) return; int i = regionOf(s, a) == &s->heap ? s->heap.find(a) : -1;
  if (i < 0) memError(s, "free of an address that is not allocated (double free or wild pointer)");
  Obj *o = s->heap.v[i].p; if (o->base != a) memError(s, "free of an address inside a block");
  if (o->ak != k) memError(s, "allocation and deallocation functions do not match");
  s->heap.v.erase(s->heap.v.begin() + i); s->heap.last = 0;
}
static void copyBytes(State *s, uint64_t d, uint64_t p, uint64_t n) {
  if (!n) return; Ref a = lookup(s, p, n, false, "read"); Ref b = lookup(s, d, n, true, "write");
  ORef src = a.v->v[a.i]; Obj *o = b.v->write(b.i); const Obj *q = src.p;
  if (q == o || (b.v == a.v && b.i == a.i)) q = o;
  memmove(o->data.data() + b.off, q->data.data() + a.off, n); memmove(o->shape.data() + b.off, q->shape.data() + a.off, n);
  if (!q->sym.empty()) { o->ensureSym(); memmove((void *)(o->sym.data() + b.off), q->sym.data() + a.off, n * sizeof(Cell)); }
  else if (!o->sym.empty()) for (uint64_t k = 0; k < n; k++) o->sym[b.off + k] = Cell{0, 0, 0};
}
// ---- control flow
static void gotoBlock(State *s, int bb) {
  Frame &f = s->F(); int from = f.bb; BBlk &b = f.f->bbs[bb];
  if (!b.phis.empty()) {
    for (auto &ph : b.phis) if (ph.first == from) {
      static std::vector<Val> tmp; tmp.clear();
      for (Move &m : ph.second) for (int k = 0; k < m.n; k++) tmp.push_back(m.o.reg >= 0 ? f.r[m.o.reg + k] : m.n == 1 && m.o.agg.empty() ? m.o.c : m.o.agg[k]);
      size_t j = 0; for (Move &m : ph.second) for (int k = 0; k < m.n; k++) f.r[m.dst + k] = tmp[j++];
      break;
    }
  }
  f.bb = bb; f.ip = b.start;
}
static void pushFrame(State *s, Func *f, const std::vector<std::vector<Val>> &args, const Inst *call) {
  if (!f->ready) translate(f);
  if (!f->err.empty()) unsupported(s, "cannot translate " + demangle(f->name) + ": " + f->err);
  if (s->T_().fr.size() > 3000) { violation(s, "termination", "unbounded recursion", s->model); endPath(s); }
  f->calls++;
  Frame fr; fr.f = f; fr.r.assign(f->regs.size(), Val{0, UNINIT}); fr.call = call; fr.mark = s->T_().stack.v.size(); fr.top = s->T_().top;
  for (size_t i = 0; i < f->argReg.size() && i < args.size(); i++) for (size_t k = 0; k < args[i].size() && (int)k < f->argN[i]; k++) fr.r[f->argReg[i] + k] = args[i][k];
  s->T_().fr.push_back(std::move(fr));
}
static void popFrame(State *s) { Thread &t = s->T_(); Frame &f = t.fr.back(); t.stack.v.resize(f.mark); t.stack.last = 0; t.top = f.top; t.fr.pop_back(); }
static std::string tiName(uint64_t a) { auto it = tiByAddr.find(a); return it == tiByAddr.end() ? "" : it->second->getName().str(); }
static std::map<std::string, uint64_t> synthTI; static std::map<uint64_t, std::string> synthName;
static uint64_t tiAddr(const std::string &n) { for (auto &p : tiByAddr) if (p.second->getName() == n) return p.first; auto it = synthTI.find(n); if (it != synthTI.end()) return it->second; uint64_t a = 0xF00000 + 16 * synthTI.size(); synthTI[n] = a; synthName[a] = n; return a; }
static std::string stdBase(const std::string &n) {
  static std::map<std::string, std::string> m = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
  auto it = m.find(n); return it == m.end() ? "" : it->second;
}
static bool tiMatch(uint64_t thrown, uint64_t want) {
  if (!want || thrown == want) return true;
  std::string n = synthName.count(thrown) ? synthName[thrown] : tiName(thrown), w = synthName.count(want) ? synthName[want] : tiName(want);
  for (int k = 0; k < 10 && !n.empty(); k++) {
    if (n == w) return true;
    std::string b = stdBase(n); if (!b.empty()) { n = b; continue; }
    GlobalVariable *g = MOD->getGlobalVariable(n, true); b.clear();
    if (g && g->hasInitializer()) if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer())) if (cs->getNumOperands() >= 3) if (auto *bg = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) b = bg->getName().str();
    n = b;
  }
  return false;
}
static void unwind(State *s) { // T_().exc / excTI are set; the current frame's instruction raised
  Thread &t = s->T_();
  while (!t.fr.empty()) {
    Frame &f = t.fr.back(); const Inst &in = f.f->code[f.ip];
    if (in.op == X_INVOKE) {
      const Inst &lp = f.f->code[f.f->bbs[in.bb2].start]; 
      if (lp.op == X_LPAD) {
        bool take = lp.imm; int sel = 0;
        for (size_t k = 0; k + 1 < lp.ex.size(); k += 2) if (lp.ex[k] && tiMatch(t.excTI, lp.ex[k + 1])) { take = true; sel = lp.ex[k + 1] ? (int)(lp.ex[k + 1] & 0x7fffffff) : 1; break; } else if (!lp.ex[k]) { take = true; sel = -1; break; }
        if (take) { t.selector = sel; gotoBlock(s, in.bb2); return; }
      }
    }
    popFrame(s);
  }
  std::string n = synthName.count(t.excTI) ? synthName[t.excTI] : tiName(t.excTI);
  violation(s, "exception", "uncaught exception of type " + n, s->model); throw Kill();
}
static void throwStd(State *s, const char *ti) { uint64_t a = heapAlloc(s, 16, AK_EXC, true); Thread &t = s->T_(); t.exc = a; t.excTI = tiAddr(ti); s->excTI.push_back(a); s->excTI.push_back(t.excTI); unwind(s); }
static void abortPath(State *s, const std::string &why) {
  s->lastAbort = why; RES.aborted++;
  if (!isTrue(s->abortOk)) assertTerm(s, s->abortOk, "abort", "unexpected termination: " + why);
  endPath(s);
}
static Val get(State *s, Frame &f, const Opnd &o, int k, const Leaf &l) {
  if (o.reg >= 0) { Val &v = f.r[o.reg + k]; if (v.t == UNINIT) v = freshVal(l, "uninit"); return v; }
  Val v = o.agg.empty() ? o.c : o.agg[k]; if (v.t == UNINIT) return freshVal(l, "undef"); return v;
}
static Val raw(Frame &f, const Opnd &o, int k) { if (o.reg >= 0) return f.r[o.reg + k]; return o.agg.empty() ? o.c : o.agg[k]; }
static double D(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static uint64_t B(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
static float Fl(uint64_t c) { float d; uint32_t u = (uint32_t)c; memcpy(&d, &u, 4); return d; }
static uint64_t Bf(float d) { uint32_t c; memcpy(&c, &d, 4); return c; }
static double cd(const Val &v, const Leaf &l) { return l.k == L_F32 ? Fl(v.c) : D(v.c); }
static Val fromD(double d, const Leaf &l) { return CV(l.k == L_F32 ? Bf((float)d) : B(d)); }
static void cut(const std::string &m) { RES.cuts++; if (RES.cutMsg.size() < 50) RES.cutMsg.insert(m); }
static Val binop(State *s, unsigned op, const Leaf &l, const Val &x, const Val &y) {
  unsigned w = l.w; uint64_t m = maskw(w);
  if (!x.t && !y.t) {
    uint64_t a = x.c, b = y.c;
    switch (op) {
    case Instruction::Add: return CV((a + b) & m); case Instruction::Sub: return CV((a - b) & m); case Instruction::Mul: return CV((a * b) & m);
    case Instruction::And: return CV(a & b); case Instruction::Or: return CV(a | b); case Instruction::Xor: return CV(a ^ b);
    case Instruction::Shl: return CV(b >= w ? 0 : (a << b) & m); case Instruction::LShr: return CV(b >= w ? 0 : a >> b); case Instruction::AShr: return CV((uint64_t)(sextw(a, w) >> (b >= w ? 63 : b)) & m);
    case Instruction::UDiv: case Instruction::URem: if (!b) { violation(s, "arithmetic", "integer division by zero", s->model); endPath(s); } return CV(op == Instruction::UDiv ? a / b : a % b);
    case Instruction::SDiv: case Instruction::SRem: { if (!b) { violation(s, "arithmetic", "integer division by zero", s->model); endPath(s); } int64_t p = sextw(a, w), q = sextw(b, w); if (q == -1) return CV(op == Instruction::SDiv ? (0 - (uint64_t)p) & m : 0); return CV((uint64_t)(op == Instruction::SDiv ? p / q : p % q) & m); }
    }
  }
  T_t a = vTerm(x, l), b = vTerm(y, l), r = 0;
  switch (op) {
  case Instruction::Add: r = tAdd(a, b); break; case Instruction::Sub: r = tSub(a, b); break; case Instruction::Mul: r = tMul(a, b); break;
  case Instruction::And: r = tAnd(a, b); break; case Instruction::Or: r = tOr(a, b); break; case Instruction::Xor: r = tXor(a, b); break;
  case Instruction::Shl: r = tShl(a, b); break; case Instruction::LShr: r = tLshr(a, b); break; case Instruction::AShr: r = tAshr(a, b); break;
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    if (!TD.isC(b)) { T_t nz = tNot(tEq(b, TD.bv(0, w))); assertTerm(s, nz, "arithmetic", "integer division by zero"); if (!constrain(s, nz)) endPath(s); }
    else if (!TD.cv(b)) { violation(s, "arithmetic", "integer division by zero", s->model); endPath(s); }
    r = op == Instruction::UDiv ? tUDiv(a, b) : op == Instruction::URem ? tURem(a, b) : op == Instruction::SDiv ? tSDiv(a, b) : tSRem(a, b); break; }
  default: unsupported(s, "binary operator");
  }
  return fromTerm(r, l);
}
static Val realBin(State *s, unsigned op, const Leaf &l, const Val &x, const Val &y) {
  if (!x.t && !y.t) {
    double a = cd(x, l), b = cd(y, l), r; bool exact = false;
    switch (op) {
    case Instruction::FAdd: case Instruction::FSub: { if (op == Instruction::FSub) b = -b; r = a + b; double z = r - a; exact = ((a - (r - z)) + (b - z)) == 0; if (op == Instruction::FSub) b = -b; break; }
    case Instruction::FMul: r = a * b; exact = std::fma(a, b, -r) == 0 && (r != 0 || a == 0 || b == 0); break;
    case Instruction::FDiv: r = a / b; exact = b != 0 && std::fma(r, b, -a) == 0 && (r != 0 || a == 0); break;
    default: r = std::fmod(a, b); exact = true;
    }
    bool nonfin = !std::isfinite(a) || !std::isfinite(b) || (op == Instruction::FDiv && b == 0);
    if (nonfin || (exact && std::isfinite(r) && (l.k == L_F64 || (double)(float)r == r))) return fromD(r, l);
    mpq_class p(a), q(b); mpq_class z = op == Instruction::FAdd ? mpq_class(p + q) : op == Instruction::FSub ? mpq_class(p - q) : op == Instruction::FMul ? mpq_class(p * q) : mpq_class(p / q);
    if (mpz_sizeinbase(z.get_num_mpz_t(), 2) > 4000) return fromD(nearD(z), l); // keep numbers manageable
    return fromTerm(TD.rconst(z), l);
  }
  T_t a = vTerm(x, l), b = vTerm(y, l);
  switch (op) {
  case Instruction::FAdd: return fromTerm(rAdd(a, b), l); case Instruction::FSub: return fromTerm(rSub(a, b), l); case Instruction::FMul: return fromTerm(rMul(a, b), l);
  case Instruction::FDiv: {
    mpq_class q; if (rConstVal(b, q)) { if (q == 0) { if (OPT.divCheck) assertTerm(s, FA, "arithmetic", "division by zero"); cut("division of a symbolic number by zero"); return Val{0, TD.newVar("divzero", S_REAL, 64, true)}; } return fromTerm(rDiv(a, TD.rconst(q)), l); }
    T_t nz = tNot(rEq(b, TD.rconst(0))); if (!isTrue(nz)) { if (std::find(s->pc.begin(), s->pc.end(), nz) == s->pc.end()) { if (OPT.divCheck) assertTerm(s, nz, "arithmetic", "division by zero"); else cut("divisor assumed non-zero in " + demangle(s->F().f->name)); if (!constrain(s, nz)) endPath(s); } }
    return fromTerm(rDiv(a, b), l); }
  default: { T_t q = rTrunc(rDiv(a, b)); return fromTerm(rSub(a, rMul(q, b)), l); }
  }
}
static Val fbin(State *s, unsigned op, const Leaf &l, const Val &x, const Val &y) {
  if (realMode) return realBin(s, op, l, x, y);
  Op o = op == Instruction::FAdd ? O_FADD : op == Instruction::FSub ? O_FSUB : op == Instruction::FMul ? O_FMUL : op == Instruction::FDiv ? O_FDIV : O_FREM;
  if (!x.t && !y.t) {
    if (l.k == L_F32) { float a = Fl(x.c), b = Fl(y.c); return CV(Bf(o == O_FADD ? a + b : o == O_FSUB ? a - b : o == O_FMUL ? a * b : o == O_FDIV ? a / b : fmodf(a, b))); }
    double a = D(x.c), b = D(y.c); return CV(B(o == O_FADD ? a + b : o == O_FSUB ? a - b : o == O_FMUL ? a * b : o == O_FDIV ? a / b : std::fmod(a, b)));
  }
  return fromTerm(fOp(o, vTerm(x, l), vTerm(y, l)), l);
}
static Val fneg(const Leaf &l, const Val &x) { if (!x.t) return CV(x.c ^ (1ull << (l.k == L_F32 ? 31 : 63))); return fromTerm(realMode ? rNeg(x.t) : fUn(O_FNEG, x.t), l); }
static T_t icmp(unsigned p, T_t a, T_t b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return tEq(a, b); case CmpInst::ICMP_NE: return tNot(tEq(a, b)); case CmpInst::ICMP_ULT: return tUlt(a, b); case CmpInst::ICMP_ULE: return tUle(a, b); case CmpInst::ICMP_UGT: return tUlt(b, a); case CmpInst::ICMP_UGE: return tUle(b, a);
  case CmpInst::ICMP_SLT: return tSlt(a, b); case CmpInst::ICMP_SLE: return tSle(a, b); case CmpInst::ICMP_SGT: return tSlt(b, a); default: return tSle(b, a);
  }
}
static bool icmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
  int64_t x = sextw(a, w), y = sextw(b, w);
  switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; default: return x >= y; }
}
static T_t fcmpT(unsigned p, const Val &x, const Val &y, const Leaf &l) {
  if (!x.t && !y.t) { double a = cd(x, l), b = cd(y, l); bool u = std::isnan(a) || std::isnan(b), r;
    switch (p & 7) { case 0: r = false; break; case 1: r = a == b; break; case 2: r = a > b; break; case 3: r = a >= b; break; case 4: r = a < b; break; case 5: r = a <= b; break; case 6: r = a != b && !u; break; default: r = !u; }
    if (p >= 8) r = p == 8 ? u : p == 15 ? true : (u || (p == 14 ? a != b : p == 9 ? a == b : p == 10 ? a > b : p == 11 ? a >= b : p == 12 ? a < b : a <= b)); return r ? TR : FA; }
  T_t a = vTerm(x, l), b = vTerm(y, l); T_t lt, gt, eq, un;
  if (realMode) { un = FA; auto nan = [&](const Val &v) { return !v.t && std::isnan(cd(v, l)); }; if (nan(x) || nan(y)) return (p >= 8) ? TR : FA; switch (p) { case 0: return FA; case 15: return TR; case 7: return TR; case 8: return FA; } switch (p & 7) { case 1: return rEq(a, b); case 2: return rLt(b, a); case 3: return rLe(b, a); case 4: return rLt(a, b); case 5: return rLe(a, b); default: return tNot(rEq(a, b)); } }
  (void)lt; (void)gt; (void)eq;
  switch (p) {
  case CmpInst::FCMP_FALSE: return FA; case CmpInst::FCMP_TRUE: return TR; case CmpInst::FCMP_OEQ: return fCmp(O_FEQ, a, b); case CmpInst::FCMP_OGT: return fCmp(O_FLT, b, a); case CmpInst::FCMP_OGE: return fCmp(O_FLE, b, a); case CmpInst::FCMP_OLT: return fCmp(O_FLT, a, b); case CmpInst::FCMP_OLE: return fCmp(O_FLE, a, b);
  case CmpInst::FCMP_UNO: return fCmp(O_FUNO, a, b); case CmpInst::FCMP_ORD: return tNot(fCmp(O_FUNO, a, b)); case CmpInst::FCMP_UNE: return tNot(fCmp(O_FEQ, a, b)); case CmpInst::FCMP_ONE: return tAnd(tNot(fCmp(O_FEQ, a, b)), tNot(fCmp(O_FUNO, a, b)));
  case CmpInst::FCMP_UGT: return tNot(fCmp(O_FLE, a, b)); case CmpInst::FCMP_UGE: return tNot(fCmp(O_FLT, a, b)); case CmpInst::FCMP_ULT: return tNot(fCmp(O_FLE, b, a)); case CmpInst::FCMP_ULE: return tNot(fCmp(O_FLT, b, a)); default: return tOr(fCmp(O_FUNO, a, b), fCmp(O_FEQ, a, b));
  }
}
static Val castV(State *s, unsigned op, const Leaf &d, const Leaf &sl, const Val &v) {
  switch (op) {
  case Instruction::Trunc: if (!v.t) return CV(v.c & maskw(d.w)); return fromTerm(tExtract(v.t, 0, d.w), d);
  case Instruction::ZExt: if (!v.t) return v; return fromTerm(tZext(v.t, d.w), d);
  case Instruction::SExt: if (!v.t) return CV((uint64_t)sextw(v.c, sl.w) & maskw(d.w)); return fromTerm(tSext(v.t, d.w), d);
  case Instruction::PtrToInt: if (d.w < 64) { if (!v.t) return CV(v.c & maskw(d.w)); return fromTerm(tExtract(v.t, 0, d.w), d); } return v;
  case Instruction::IntToPtr: if (v.t && sl.w < 64) return fromTerm(tZext(v.t, 64), d); return v;
  case Instruction::BitCast: if (!v.t) return v; { Sort ds = leafSort(d), ss = leafSort(sl); if (ds == ss) return v; T_t b = toBits(v.t); if (ds == S_BV) return fromTerm(TD[b].w > d.w ? tExtract(b, 0, d.w) : b, d); return fromTerm(fromBits(b, ds), d); }
  case Instruction::FPExt: if (!v.t) return CV(B(Fl(v.c))); return realMode ? v : fromTerm(fCvt(v.t, S_F64), d);
  case Instruction::FPTrunc: if (!v.t) { double x = D(v.c); if (realMode && std::isfinite(x) && (double)(float)x != x) return OPT.f32 ? CV(Bf((float)x)) : Val{0, rFromDouble(x)}; return CV(Bf((float)x)); } return realMode ? fromTerm(OPT.f32 ? rF32(v.t) : v.t, d) : fromTerm(fCvt(v.t, S_F32), d);
  case Instruction::SIToFP: case Instruction::UIToFP: {
    bool sg = op == Instruction::SIToFP;
    if (!v.t) { int64_t x = sextw(v.c, sl.w); if (realMode) { mpz_class z; if (sg) z = (long)x; else z = (unsigned long)v.c; return fromTerm(TD.rconst(mpq_class(z)), d); } if (d.k == L_F32) return CV(Bf(sg ? (float)x : (float)v.c)); return CV(B(sg ? (double)x : (double)v.c)); }
    if (realMode) return fromTerm(OPT.f32 && d.k == L_F32 ? rF32(rFromBV(v.t, sg)) : rFromBV(v.t, sg), d);
    return fromTerm(TD.mk(sg ? O_SI2F : O_UI2F, leafSort(d), d.w, v.t), d); }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    bool sg = op == Instruction::FPToSI;
    if (!v.t) { double x = cd(v, sl); if (std::isnan(x) || x > 1.9e19 || x < -9.3e18) return CV((1ull << 63) & maskw(d.w)); return CV((sg || x < 0 ? (uint64_t)(int64_t)x : (uint64_t)x) & maskw(d.w)); }
    if (realMode) {
      mpq_class q; if (rConstVal(v.t, q)) { mpz_class z = q.get_num() / q.get_den(); mpz_class r; mpz_fdiv_r_2exp(r.get_mpz_t(), z.get_mpz_t(), 64); uint64_t u = 0; mpz_export(&u, 0, -1, 8, 0, 0, r.get_mpz_t()); return CV(u & maskw(d.w)); }
      const Node n = TD[v.t]; if (n.op == O_RFROMS || n.op == O_RFROMU) { unsigned w = TD[n.a].w; T_t t = w == d.w ? n.a : w > d.w ? tExtract(n.a, 0, d.w) : n.op == O_RFROMS ? tSext(n.a, d.w) : tZext(n.a, d.w); return fromTerm(t, d); }
      if (n.op == O_ITE) { Val p = castV(s, op, d, sl, fromTerm(n.b, sl)), q2 = castV(s, op, d, sl, fromTerm(n.c, sl)); return fromTerm(tIte(n.a, vTerm(p, d), vTerm(q2, d)), d); }
      return Val{0, TD.mk(O_RTOBV, S_BV, d.w, v.t)};
    }
    const Node n = TD[v.t]; if ((n.op == O_SI2F || n.op == O_UI2F) && TD[n.a].w <= (n.sort == S_F64 ? 53 : 24)) { unsigned w = TD[n.a].w; T_t t = w == d.w ? n.a : w > d.w ? tExtract(n.a, 0, d.w) : n.op == O_SI2F ? tSext(n.a, d.w) : tZext(n.a, d.w); return fromTerm(t, d); }
    return Val{0, TD.mk(sg ? O_F2SI : O_F2UI, S_BV, d.w, v.t)}; }
  default: unsupported(s, "cast");
  }
}
static Val iteV(T_t c, const Val &a, const Val &b, const Leaf &l) { if (a.t == b.t && (a.t || a.c == b.c)) return a; return fromTerm(tIte(c, vTerm(a, l), vTerm(b, l)), l); }
// ---- branching: which sides of a condition are feasible
static bool sideStale; // the model of the other side is not known to satisfy it
static void sides(State *s, T_t c, bool &t, bool &f, ModelP &mt, ModelP &mf, bool *first = nullptr) {
  bool v = evalBool(s->model, c); T_t other = v ? tNot(c) : c; ModelP m; SRes r = (realMode || OPT.sweep) && !isFalse(other) && tryRandom(s, other, m) ? R_SAT : check(s, other, &m, realMode || OPT.sweep ? OPT.feasMs : 0, false);
  sideStale = r == R_UNK || (r == R_SAT && !m); if (sideStale && TIMEUP()) { RES.incomplete = true; RES.incompleteWhy = "time limit"; throw Kill(); } if (first) *first = v;
  (v ? t : f) = true; (v ? mt : mf) = s->model; (v ? f : t) = r != R_UNSAT; (v ? mf : mt) = (r == R_SAT && m) ? m : s->model;
}
static void explore(std::vector<State *> &init, int depth, int bb, std::vector<State *> &out);
static void mergeGroup(std::vector<State *> &g);
static void schedPoint(State *s);
#include "call.h"

// thread switch points
static void schedPoint(State *s) {
  if (!s->threaded || s->justSwitched || s->preempt <= 0) { s->justSwitched = false; return; }
  for (size_t k = 0; k < s->th.size(); k++) if ((int)k != s->cur && !s->th[k].done && !s->th[k].fr.empty() && !s->th[k].waitOn && k != 0) { State *c = cloneState(s); c->cur = k; c->preempt--; c->justSwitched = true; WL->push_back(c); RES.forks++; }
}
static bool isShared(State *s, const Val &p) { return s->threaded && !p.t && p.c >= GBASE && p.c < HBASE && s->glob.find(p.c) >= 0; }
static void threadEnd(State *s) { // current thread finished: run another one
  s->T_().done = true;
  std::vector<int> can; for (size_t k = 1; k < s->th.size(); k++) if (!s->th[k].done) can.push_back(k);
  if (can.empty()) { s->cur = 0; s->threaded = false; Frame &jf = s->F(); const Inst &ji = jf.f->code[jf.ip]; if (ji.op == X_INVOKE) gotoBlock(s, ji.bb); else jf.ip++; return; }
  std::vector<int> run; for (int k : can) if (!s->th[k].waitOn) run.push_back(k);
  if (run.empty()) { violation(s, "deadlock", "all threads are blocked", s->model); endPath(s); }
  for (size_t i = 1; i < run.size(); i++) { State *c = cloneState(s); c->cur = run[i]; c->justSwitched = true; WL->push_back(c); }
  s->cur = run[0]; s->justSwitched = true;
}
// returns false when control was transferred so that the stop condition must be examined
static bool step(State *s) {
  Frame &f = s->T_().fr.back(); const Inst &in = f.f->code[f.ip];
  switch (in.op) {
  case X_NOP: f.ip++; return true;
  case X_BIN: for (size_t k = 0; k < in.ls.size(); k++) f.r[in.dst + k] = binop(s, in.sub, in.ls[k], get(s, f, in.a[0], k, in.ls[k]), get(s, f, in.a[1], k, in.ls[k])); f.ip++; return true;
  case X_FBIN: for (size_t k = 0; k < in.ls.size(); k++) f.r[in.dst + k] = fbin(s, in.sub, in.ls[k], get(s, f, in.a[0], k, in.ls[k]), get(s, f, in.a[1], k, in.ls[k])); f.ip++; return true;
  case X_FNEG: for (size_t k = 0; k < in.ls.size(); k++) f.r[in.dst + k] = fneg(in.ls[k], get(s, f, in.a[0], k, in.ls[k])); f.ip++; return true;
  case X_ICMP: { Val a = get(s, f, in.a[0], 0, in.l2), b = get(s, f, in.a[1], 0, in.l2); if (!a.t && !b.t) f.r[in.dst] = CV(icmpC(in.sub, a.c, b.c, in.l2.w)); else f.r[in.dst] = fromTerm(icmp(in.sub, vTerm(a, in.l2), vTerm(b, in.l2)), L1); f.ip++; return true; }
  case X_FCMP: f.r[in.dst] = fromTerm(fcmpT(in.sub, get(s, f, in.a[0], 0, in.l2), get(s, f, in.a[1], 0, in.l2), in.l2), L1); f.ip++; return true;
  case X_SELECT: { Val c = get(s, f, in.a[0], 0, L1);
    if (c.t && realMode && in.sub == 1 && !s->threaded) { // an index chosen by a comparison of reals: one path per choice
      auto it = s->conc.find(c.t); if (it != s->conc.end()) c = CV(it->second);
      else { bool t = false, e = false; ModelP mt, me; bool fst = false; sides(s, c.t, t, e, mt, me, &fst); bool stl = sideStale;
        if (t && e) { RES.forks++; State *o = cloneState(s); addPC(o, tNot(c.t)); o->model = me; o->conc[c.t] = 0; addPC(s, c.t); s->model = mt; s->conc[c.t] = 1; if (stl) (fst ? o : s)->stale = true; WL->push_back(o); c = CV(1); }
        else { s->conc[c.t] = t; c = CV(t); } } }
    for (size_t k = 0; k < in.ls.size(); k++) { if (!c.t) f.r[in.dst + k] = raw(f, c.c & 1 ? in.a[1] : in.a[2], k); else f.r[in.dst + k] = iteV(c.t, get(s, f, in.a[1], k, in.ls[k]), get(s, f, in.a[2], k, in.ls[k]), in.ls[k]); } f.ip++; return true; }
  case X_LOAD: { Val p = get(s, f, in.a[0], 0, LP); if (isShared(s, p)) schedPoint(s); for (auto &l : in.ls) { size_t k = &l - &in.ls[0]; Val v = loadV(s, p, l.off, l); s->T_().fr.back().r[in.dst + k] = v; } s->T_().fr.back().ip++; return true; }
  case X_STORE: { Val p = get(s, f, in.a[1], 0, LP); if (isShared(s, p)) schedPoint(s); for (size_t k = 0; k < in.ls.size(); k++) storeV(s, p, in.ls[k].off, in.ls[k], raw(f, in.a[0], k)); f.ip++; return true; }
  case X_GEP: {
    Val p = get(s, f, in.a[0], 0, LP); bool sym = p.t; uint64_t c = p.c + in.imm; T_t t = 0;
    for (size_t k = 0; k < in.ex.size(); k++) { Val i = get(s, f, in.a[k + 1], 0, in.ls[k]); if (i.t) { T_t x = tMul(tSext(i.t, 64), TD.bv(in.ex[k], 64)); t = t ? tAdd(t, x) : x; sym = true; } else c += (uint64_t)sextw(i.c, in.ls[k].w) * (uint64_t)in.ex[k]; }
    if (!sym) f.r[in.dst] = CV(c); else { T_t r = p.t ? tAdd(p.t, TD.bv(c - p.c, 64)) : TD.bv(c, 64); if (t) r = tAdd(r, t); f.r[in.dst] = fromTerm(r, LP); }
    f.ip++; return true; }
  case X_BR: gotoBlock(s, in.bb); return false;
  case X_CBR: {
    Val c = get(s, f, in.a[0], 0, L1); if (!c.t) { gotoBlock(s, c.c & 1 ? in.bb : in.bb2); return false; }
    bool t = false, e = false; ModelP mt, me; bool fst = false; sides(s, c.t, t, e, mt, me, &fst); bool stl = sideStale;
    if (t && !e) { gotoBlock(s, in.bb); return false; } if (e && !t) { gotoBlock(s, in.bb2); return false; }
    RES.forks++; State *o = cloneState(s); addPC(s, c.t); s->model = mt; addPC(o, tNot(c.t)); o->model = me; if (stl) (fst ? o : s)->stale = true; int cur = f.bb; Func *fn = f.f; int depth = s->T_().fr.size();
    int b1 = in.bb, b2 = in.bb2;
    gotoBlock(o, b2); gotoBlock(s, b1);
    if (OPT.merge && !s->threaded && fn->bbs[cur].retReach) {
      std::vector<State *> in2{o, s}, res; explore(in2, depth, fn->bbs[cur].ipdom, res); mergeGroup(res);
      for (State *x : res) WL->push_back(x); throw 1; // state ownership moved
    }
    WL->push_back(o); return false; }
  case X_SWITCH: {
    Val c = get(s, f, in.a[0], 0, in.l); if (!c.t) { int d = in.bb; for (size_t k = 0; k < in.ex.size(); k += 2) if ((uint64_t)in.ex[k] == c.c) { d = in.ex[k + 1]; break; } gotoBlock(s, d); return false; }
    std::map<int, T_t> g; T_t rest = TR; for (size_t k = 0; k < in.ex.size(); k += 2) { T_t e = tEq(c.t, TD.bv(in.ex[k], in.l.w)); auto it = g.find(in.ex[k + 1]); if (it == g.end()) g[in.ex[k + 1]] = e; else it->second = tOr(it->second, e); rest = tAnd(rest, tNot(e)); }
    auto it = g.find(in.bb); if (it == g.end()) g[in.bb] = rest; else it->second = tOr(it->second, rest);
    std::vector<State *> ch; int cur = f.bb; Func *fn = f.f; int depth = s->T_().fr.size();
    for (auto &p : g) { State *o = cloneState(s); if (isFalse(p.second) || !constrain(o, p.second)) { delete o; continue; } gotoBlock(o, p.first); ch.push_back(o); }
    if (ch.size() > 1) RES.forks++;
    if (OPT.merge && ch.size() > 1 && fn->bbs[cur].retReach) { std::vector<State *> res; explore(ch, depth, fn->bbs[cur].ipdom, res); mergeGroup(res); ch = res; }
    for (State *x : ch) WL->push_back(x);
    delete s; throw 1; }
  case X_CAST: {
    if (in.ex.size()) { // bitcast between different numbers of leaves through bytes
      Obj t; t.size = 64; t.data.assign(64, 0); t.shape.assign(64, 0); auto sl = leavesOf(cast<CastInst>(in.src)->getSrcTy()); for (size_t k = 0; k < sl.size(); k++) writeCells(&t, sl[k].off, sl[k], get(s, f, in.a[0], k, sl[k])); for (size_t k = 0; k < in.ls.size(); k++) f.r[in.dst + k] = readCells(nullptr, nullptr, &t, in.ls[k].off, in.ls[k]);
    } else for (size_t k = 0; k < in.ls.size(); k++) { Leaf sl = in.l2; f.r[in.dst + k] = castV(s, in.sub, in.ls[k], sl, get(s, f, in.a[0], k, sl)); }
    f.ip++; return true; }
  case X_EXTRACTV: for (size_t k = 0; k < in.ls.size(); k++) f.r[in.dst + k] = raw(f, in.a[0], in.imm + k); f.ip++; return true;
  case X_INSERTV: for (size_t k = 0; k < in.ls.size(); k++) f.r[in.dst + k] = in.imm < 0 ? get(s, f, in.a[0], k, in.ls[k]) : ((int64_t)k >= in.imm && (int64_t)k < in.imm + in.ex[0]) ? raw(f, in.a[1], k - in.imm) : raw(f, in.a[0], k); f.ip++; return true;
  case X_SHUF: { std::vector<Val> t; for (size_t k = 0; k < in.ls.size(); k++) { int m = in.ex[k]; t.push_back(m < 0 ? Val{0, UNINIT} : m < in.imm ? raw(f, in.a[0], m) : raw(f, in.a[1], m - in.imm)); } for (size_t k = 0; k < t.size(); k++) f.r[in.dst + k] = t[k]; f.ip++; return true; }
  case X_ATOMICRMW: {
    Val p = get(s, f, in.a[0], 0, LP); if (isShared(s, p)) schedPoint(s); Val v = get(s, f, in.a[1], 0, in.l), o = loadV(s, p, 0, in.l), n;
    switch (in.sub) { case AtomicRMWInst::Add: n = binop(s, Instruction::Add, in.l, o, v); break; case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, in.l, o, v); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::And: n = binop(s, Instruction::And, in.l, o, v); break; case AtomicRMWInst::Or: n = binop(s, Instruction::Or, in.l, o, v); break; case AtomicRMWInst::Xor: n = binop(s, Instruction::Xor, in.l, o, v); break; default: unsupported(s, "atomicrmw"); }
    storeV(s, p, 0, in.l, n); f.r[in.dst] = o; f.ip++; return true; }
  case X_CMPXCHG: {
    Val p = get(s, f, in.a[0], 0, LP); if (isShared(s, p)) schedPoint(s); Val c = get(s, f, in.a[1], 0, in.l), n = get(s, f, in.a[2], 0, in.l), o = loadV(s, p, 0, in.l); T_t e = tEq(vTerm(o, in.l), vTerm(c, in.l));
    storeV(s, p, 0, in.l, iteV(e, n, o, in.l)); f.r[in.dst] = o; f.r[in.dst + 1] = fromTerm(e, L1); f.ip++; return true; }
  case X_ALLOCA: {
    uint64_t n = get(s, f, in.a[0], 0, L64).c * in.imm; Thread &t = s->T_(); uint64_t al = in.sub < 16 ? 16 : in.sub; t.top = (t.top + al - 1) / al * al; uint64_t b = t.top; t.top += ((n + 15) & ~15ull) + 32; newObj(t.stack, b, n, OK_STACK, true); f.r[in.dst] = CV(b); f.ip++; return true; }
  case X_RET: {
    std::vector<Val> rv; for (size_t k = 0; k < in.ls.size(); k++) rv.push_back(raw(f, in.a[0], k));
    popFrame(s); Thread &t = s->T_();
    if (t.fr.empty()) { if (s->cur == 0) { RES.ended++; throw Kill(); } threadEnd(s); return false; }
    Frame &c = t.fr.back(); const Inst &ci = c.f->code[c.ip]; if (ci.dst >= 0) for (size_t k = 0; k < rv.size(); k++) c.r[ci.dst + k] = rv[k];
    if (ci.op == X_INVOKE) gotoBlock(s, ci.bb); else c.ip++;
    return false; }
  case X_CALL: case X_INVOKE: return doCall(s, f, in);
  case X_LPAD: { Thread &t = s->T_(); f.r[in.dst] = CV(t.exc); if (f.f->regs.size() > (size_t)in.dst + 1) f.r[in.dst + 1] = CV((uint32_t)t.selector); f.ip++; return true; }
  case X_RESUME: { s->T_().exc = get(s, f, in.a[0], 0, LP).c; for (size_t k = 0; k + 1 < s->excTI.size(); k += 2) if (s->excTI[k] == s->T_().exc) s->T_().excTI = s->excTI[k + 1]; popFrame(s); if (s->T_().fr.empty()) { violation(s, "exception", "uncaught exception", s->model); endPath(s); } unwind(s); return false; }
  case X_UNREACH: violation(s, "undefined", "unreachable code reached (missing return or undefined behaviour)", s->model); endPath(s);
  case X_UNSUP: unsupported(s, *(std::string *)(intptr_t)in.ex[0]);
  default: unsupported(s, "instruction");
  }
}
static int liveStates = 0;
static void explore(std::vector<State *> &init, int depth, int bb, std::vector<State *> &out) {
  std::vector<State *> work(init), *save = WL; WL = &work;
  while (!work.empty()) {
    State *s = work.back(); work.pop_back();
    if (TIMEUP()) { RES.incomplete = true; RES.incompleteWhy = "time limit"; delete s; for (State *x : work) delete x; work.clear(); break; }
    if ((int)work.size() > OPT.maxStates) { RES.incomplete = true; RES.incompleteWhy = "too many states"; delete s; continue; }
    bool chk = true;
    try {
      while (true) {
        if (chk && depth >= 0) { int d = s->T_().fr.size(); if (d < depth || (d == depth && s->F().bb == bb && s->F().ip == s->F().f->bbs[bb].start)) { out.push_back(s); s = nullptr; break; } }
        if ((++s->steps & 0xfff) == 0) { if (TIMEUP()) { RES.incomplete = true; RES.incompleteWhy = "time limit"; throw Kill(); } if (s->steps > OPT.maxSteps) { violation(s, "termination", "does not terminate within " + std::to_string(OPT.maxSteps) + " instructions", s->model); throw Kill(); } }
        RES.steps++;
        chk = !step(s);
      }
    } catch (Kill &) { RES.paths++; delete s; } catch (int) { }
  }
  WL = save;
}
// ---- merging
static bool sameFrames(State *a, State *b) {
  if (a->th.size() != b->th.size() || a->cur != b->cur) return false; auto &x = a->T_().fr, &y = b->T_().fr; if (x.size() != y.size()) return false;
  for (size_t i = 0; i < x.size(); i++) if (x[i].f != y[i].f || x[i].ip != y[i].ip || x[i].bb != y[i].bb || x[i].mark != y[i].mark) return false;
  return true;
}
static bool sameObjs(const OVec &a, const OVec &b) { if (a.v.size() != b.v.size()) return false; for (size_t i = 0; i < a.v.size(); i++) if (a.v[i].p != b.v[i].p && (a.v[i]->base != b.v[i]->base || a.v[i]->size != b.v[i]->size || a.v[i]->ak != b.v[i]->ak)) return false; return true; }
static void mergeObjs(OVec &a, OVec &b, T_t g) {
  for (size_t i = 0; i < a.v.size(); i++) if (a.v[i].p != b.v[i].p) {
    const Obj *y = b.v[i].p; const Obj *x0 = a.v[i].p; if (x0->sym.empty() && y->sym.empty() && x0->data == y->data) continue;
    Obj *x = a.write(i);
    for (uint32_t k = 0; k < x->size;) {
      Cell cx = x->sym.empty() ? Cell{0, 0, 0} : x->sym[k], cy = y->sym.empty() ? Cell{0, 0, 0} : y->sym[k];
      unsigned n = 1; Leaf l{L_INT, 8, 0};
      auto unit = [&](const Cell &c, const Obj *o) { if (c.t && c.t != UNINIT) { if (c.idx == 0) return (unsigned)c.w; return 1u; } if (!c.t && o->shape[k] && o->shape[k] != 0xFF) return (unsigned)(o->shape[k] & 15); return 0u; };
      unsigned ux = unit(cx, x), uy = unit(cy, y); n = std::max(std::max(ux, uy), 1u); if (k + n > x->size) n = 1;
      bool eq = true; for (unsigned j = 0; j < n && eq; j++) { Cell p = x->sym.empty() ? Cell{0, 0, 0} : x->sym[k + j], q = y->sym.empty() ? Cell{0, 0, 0} : y->sym[k + j]; if (p.t != q.t || (p.t && p.t != UNINIT && (p.idx != q.idx || p.w != q.w)) || (!p.t && x->data[k + j] != y->data[k + j])) eq = false; }
      if (eq) { k += n; continue; }
      if (n != 1 && n != 2 && n != 4 && n != 8) n = 1;
      int kind = -1; auto kindOf = [&](const Cell &c, const Obj *o) { if (c.t && c.t != UNINIT) { Sort so = TD[c.t].sort; if (c.w == n && so != S_BV) return n == 4 ? (int)L_F32 : (int)L_F64; return (int)L_INT; } if (!c.t && o->shape[k] && o->shape[k] != 0xFF && (o->shape[k] & 15) == n) return (int)(o->shape[k] >> 4); return -1; };
      int kx = kindOf(cx, x), ky = kindOf(cy, y); kind = kx >= L_F32 ? kx : ky >= L_F32 ? ky : L_INT; l = Leaf{(LK)kind, (uint8_t)(8 * n), 0};
      Val vx = readCells(nullptr, nullptr, x, k, l), vy = readCells(nullptr, nullptr, y, k, l);
      if (vx.t == UNINIT && n > 1) { l = Leaf{L_INT, 8, 0}; n = 1; vx = readCells(nullptr, nullptr, x, k, l); vy = readCells(nullptr, nullptr, y, k, l); }
      else if (vy.t == UNINIT && n > 1) { bool allUn = true; for (unsigned j = 0; j < n; j++) if (y->sym.empty() || y->sym[k + j].t != UNINIT) allUn = false; if (!allUn) { l = Leaf{L_INT, 8, 0}; n = 1; vx = readCells(nullptr, nullptr, x, k, l); vy = readCells(nullptr, nullptr, y, k, l); } }
      if (vx.t == UNINIT && vy.t == UNINIT) { k += n; continue; }
      if (vx.t == UNINIT) vx = freshVal(l, "uninit"); if (vy.t == UNINIT) vy = freshVal(l, "uninit");
      writeCells(x, k, l, iteV(g, vx, vy, l)); k += n;
    }
  }
}
static bool mergeInto(State *a, State *b) {
  if (!sameFrames(a, b) || !sameObjs(a->heap, b->heap) || a->allocFails != b->allocFails || a->allocFailed != b->allocFailed || a->T_().exc != b->T_().exc || a->T_().caught != b->T_().caught) return false;
  if (a->inputs.size() != b->inputs.size()) return false; for (size_t i = 0; i < a->inputs.size(); i++) if (a->inputs[i].t != b->inputs[i].t || a->inputs[i].v != b->inputs[i].v) return false;
  for (size_t k = 0; k < a->th.size(); k++) if (!sameObjs(a->th[k].stack, b->th[k].stack)) return false;
  size_t p = 0; while (p < a->pc.size() && p < b->pc.size() && a->pc[p] == b->pc[p]) p++;
  T_t ga = TR, gb = TR; for (size_t i = p; i < a->pc.size(); i++) ga = tAnd(ga, a->pc[i]); for (size_t i = p; i < b->pc.size(); i++) gb = tAnd(gb, b->pc[i]);
  auto &x = a->T_().fr, &y = b->T_().fr;
  for (size_t i = 0; i < x.size(); i++) {
    bool top = i + 1 == x.size(); BBlk &bl = x[i].f->bbs[x[i].bb]; bool lv = top && bl.hasLive && x[i].ip == bl.start;
    for (size_t k = 0; k < x[i].r.size(); k++) { Val &u = x[i].r[k], &v = y[i].r[k]; if (u.t == v.t && (u.t || u.c == v.c)) continue; if (lv && !bl.live[k]) continue; Leaf l = x[i].f->regs[k]; if (u.t == UNINIT && v.t == UNINIT) continue; Val uu = u.t == UNINIT ? freshVal(l, "uninit") : u, vv = v.t == UNINIT ? freshVal(l, "uninit") : v; u = iteV(ga, uu, vv, l); }
  }
  mergeObjs(a->heap, b->heap, ga); mergeObjs(a->glob, b->glob, ga); for (size_t k = 0; k < a->th.size(); k++) mergeObjs(a->th[k].stack, b->th[k].stack, ga);
  a->pc.resize(p); T_t o = tOr(ga, gb); if (!isTrue(o)) addPC(a, o);
  a->heapTop = std::max(a->heapTop, b->heapTop); a->abortOk = tIte(ga, a->abortOk, b->abortOk); a->steps = std::max(a->steps, b->steps);
  for (auto &n : b->names) a->names[n.first] = std::max(a->names[n.first], n.second);
  for (auto it = a->conc.begin(); it != a->conc.end();) { auto j = b->conc.find(it->first); if (j == b->conc.end() || j->second != it->second) it = a->conc.erase(it); else ++it; }
  if (a->stale && !b->stale) { a->model = b->model; a->stale = false; }
  RES.merges++; return true;
}
static void mergeGroup(std::vector<State *> &g) {
  std::vector<State *> r;
  for (State *s : g) { bool done = false; for (State *t : r) if (mergeInto(t, s)) { delete s; done = true; break; } if (!done) r.push_back(s); }
  g = r;
}
