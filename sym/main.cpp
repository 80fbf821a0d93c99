#include "exec.cpp"
int prepMain(int, char **);
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void writeConst(Obj *o, uint32_t off, const Constant *c) { std::vector<Val> v; constVals(c, v); std::vector<Leaf> ls; flatten(c->getType(), off, ls); for (size_t i = 0; i < ls.size(); i++) { Val x = v[i]; if (x.t == UNINIT) x = CV(0); writeCells(o, ls[i].off, ls[i], x); } }
static void setupGlobals() {
  uint64_t a = GBASE;
  std::vector<GlobalVariable *> gs; for (GlobalVariable &g : MOD->globals()) gs.push_back(&g);
  for (auto *g : gs) { uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 64; if (!g->hasInitializer()) sz = std::max<uint64_t>(sz, 64); uint64_t al = std::max<uint64_t>(16, g->getAlign().valueOrOne().value()); a = (a + al - 1) / al * al; gaddr[g] = a; if (g->getName().starts_with("_ZTI")) tiByAddr[a] = g; a += sz + 48; }
  a = GBASE;
  for (auto *g : gs) {
    uint64_t base = gaddr[g]; uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 64; if (!g->hasInitializer()) sz = std::max<uint64_t>(sz, 64);
    bool cst = g->isConstant() || !g->hasInitializer(); Obj *o = newObj(cst ? constGlobals : initGlobals, base, sz, cst ? OK_CONST : OK_GLOBAL, false);
    if (g->hasInitializer()) { try { writeConst(o, 0, g->getInitializer()); } catch (std::string &e) { if (!g->getName().starts_with("llvm.")) fprintf(stderr, "global %s: %s\n", g->getName().str().c_str(), e.c_str()); } }
  }
  uint64_t eb = 0x0F000000ull + a; (void)eb; Obj *er = newObj(initGlobals, 0xF0000000ull, 16, OK_GLOBAL, false); er->ak = AK_EXC;
}
static std::string moduleFile;
static void *runMain(void *) {
  static LLVMContext C; SMDiagnostic err; static std::unique_ptr<Module> M = parseIRFile(moduleFile, err, C); if (!M) { err.print("symx", errs()); exit(3); }
  MOD = M.get(); DL = &M->getDataLayout(); TR = tTrue(); FA = tFalse();
  std::string fatal;
  double t0 = nowSec(); solverDeadline = t0 + OPT.timeout;
  try { setupGlobals(); } catch (std::string &e) { fatal = "globals: " + e; }
  Function *E = M->getFunction(OPT.entry);
  if (!E) fatal = "no function " + OPT.entry;
  if (fatal.empty()) {
    State *s = new State; s->th.push_back(Thread()); s->th[0].top = SBASE; s->glob = initGlobals; s->heapTop = HBASE; s->model = std::make_shared<Model>(); s->abortOk = FA;
    std::vector<State *> cur{s};
    // static constructors
    if (GlobalVariable *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, Function *>> cs; for (auto &op : ca->operands()) { auto *st = cast<ConstantStruct>(op); cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto &p, auto &q) { return p.first < q.first; });
      for (auto &c : cs) if (c.second) { std::vector<State *> w{cur[0]}, out; cur.clear();
        // run with a dummy caller: the entry function itself is pushed afterwards
        WL = &w; w.clear(); State *x = s; bool ok = true; pushFrame(x, getFunc(c.second), {}, nullptr); uint64_t n = 0;
        try { while (x->T_().fr.size() > 1 || !(x->F().f->code[x->F().ip].op == X_RET)) { step(x); if (++n > 20000000) break; } popFrame(x); } catch (Kill &) { ok = false; } catch (int) { ok = false; }
        if (!ok) { fatal = "static constructor failed"; break; } cur.push_back(x); }
    }
    if (fatal.empty()) { try { std::vector<State *> w; WL = &w; pushFrame(s, getFunc(E), {}, nullptr); std::vector<State *> init{s}, out; explore(init, -1, -1, out); } catch (Kill &) { fatal = "entry could not be executed"; } }
  }
  double wall = nowSec() - t0; std::string o = "{";
  auto kv = [&](const char *k, uint64_t v) { o += std::string(o.size() > 1 ? "," : "") + js(k) + ":" + std::to_string(v); };
  kv("paths", RES.paths); kv("ended", RES.ended); kv("aborted", RES.aborted); kv("assume_killed", RES.killed); kv("steps", RES.steps); kv("forks", RES.forks); kv("merges", RES.merges); kv("asserts", RES.asserts); kv("asserts_by_normal_form", RES.simp); kv("asserts_by_solver", RES.solved); kv("asserts_failed_by_model", RES.modelFail); kv("assumes", RES.assumes); kv("inconclusive", RES.inconc); kv("cuts", RES.cuts); kv("unsupported", RES.unsup); kv("queries", SST.queries); kv("q_sat", SST.sat); kv("q_unsat", SST.unsat); kv("q_unknown", SST.unk); kv("q_cached", SST.cached); kv("q_fallback", SST.fallback); kv("terms", TD.n.size()); kv("incomplete", RES.incomplete); kv("sweep_nodes", SWS.nodes); kv("sweep_merged", SWS.merged); kv("sweep_queries", SWS.queries);
  char b[64]; snprintf(b, sizeof b, ",\"solver_s\":%.3f,\"wall_s\":%.3f", SST.secs, wall); o += b; o += ",\"fatal\":" + js(fatal) + ",\"incomplete_why\":" + js(RES.incompleteWhy);
  auto strs = [&](const char *k, const std::set<std::string> &v) { o += "," + js(k) + ":["; bool f = true; for (auto &x : v) { if (!f) o += ","; f = false; o += js(x); } o += "]"; };
  { extern bool hugeAssumed; if (hugeAssumed) cut("symbolic quantities assumed below 1e300 where they meet a constant of that order"); }
  strs("inconclusive_msgs", RES.inconcMsg); strs("unsupported_msgs", RES.unsupMsg); strs("cut_msgs", RES.cutMsg);
  o += ",\"reached\":{"; { bool f = true; for (auto &r : RES.reached) { if (!f) o += ","; f = false; o += js(r.first) + ":" + std::to_string(r.second); } } o += "}";
  o += ",\"functions\":["; { bool f = true; for (auto &p : funcByAddr) if (p->calls) { std::string d = demangle(p->name); if (d.find("susa::") == std::string::npos) continue; if (!f) o += ","; f = false; o += js(d); } } o += "]";
  for (int pass = 0; pass < 2; pass++) { o += pass ? ",\"violations\":[" : ",\"witnesses\":["; bool f = true; for (auto &v : pass ? RES.viol : RES.wit) { if (!f) o += ","; f = false; o += "{\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) + ",\"inputs\":["; bool g = true; for (auto &i : v.inputs) { if (!g) o += ","; g = false; o += "[" + js(i.first) + "," + js(i.second) + "]"; } o += "]}"; } o += "]"; } o += "}";
  if (OPT.out.empty()) puts(o.c_str()); else { std::ofstream of(OPT.out); of << o << "\n"; }
  fflush(stdout); _exit(0);
}
int main(int argc, char **argv) {
  if (argc > 2 && !strcmp(argv[1], "prep")) return prepMain(argc, argv);
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") OPT.entry = nx(); else if (a == "--mode") realMode = nx() == "real"; else if (a == "--merge") OPT.merge = true; else if (a == "--timeout") OPT.timeout = atof(nx().c_str()); else if (a == "--qtimeout") solverTimeoutMs = atoi(nx().c_str()); else if (a == "--shard") { OPT.shard = atoi(nx().c_str()); OPT.nshard = atoi(nx().c_str()); } else if (a == "--maxsteps") OPT.maxSteps = atoll(nx().c_str()); else if (a == "--out") OPT.out = nx(); else if (a == "--feas") OPT.feasMs = atoi(nx().c_str()); else if (a == "--divcheck") OPT.divCheck = true; else if (a == "--f32") OPT.f32 = true; else if (a == "--sweep") OPT.sweep = true; else if (a == "-v") OPT.verbose = true; else if (a == "--seed") rngS ^= (uint64_t)atoll(nx().c_str()) * 0x9E3779B97F4A7C15ull; else moduleFile = a; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30); pthread_t th; if (pthread_create(&th, &at, runMain, nullptr)) { fprintf(stderr, "thread\n"); return 3; } pthread_join(th, nullptr); return 0;
}
