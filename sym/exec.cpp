// Symbolic executor for LLVM bitcode.
#include "exec.h"
#include "sweep.h"
#include <algorithm>
#include <cfenv>
#include <cmath>
#include <complex>
#include <unistd.h>
#include <cstdio>
#include <cxxabi.h>
#include <fstream>
#include <sstream>
#include <pthread.h>
#include <unordered_set>
using namespace llvm;
typedef ::T T_t;

// ------------------------------------------------------------------ options and results
static struct { std::string entry, out; bool merge = false; double timeout = 300; uint64_t maxSteps = 40000000; int shard = 0, nshard = 1; int maxViol = 3; bool verbose = false; int maxStates = 200000; int mergePtr = 0; int feasMs = 3000; bool sweep = false; bool divCheck = false; bool f32 = false; } OPT;
static struct { uint64_t paths = 0, ended = 0, aborted = 0, killed = 0, steps = 0, forks = 0, merges = 0, asserts = 0, simp = 0, solved = 0, modelFail = 0, inconc = 0, cuts = 0, unsup = 0; std::map<std::string, uint64_t> reached; std::vector<Violation> viol, wit; std::map<std::string, int> violCount; std::set<std::string> inconcMsg, unsupMsg, cutMsg; bool incomplete = false; std::string incompleteWhy; uint64_t assumes = 0; } RES;
static Module *MOD; static const DataLayout *DL;
static std::unordered_map<const Function *, Func *> funcs; static std::vector<Func *> funcByAddr; static const uint64_t FBASE = 0x10000, FSTEP = 16;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr; static OVec constGlobals, initGlobals;
static const uint64_t GBASE = 0x1000000, HBASE = 0x100000000ull, SBASE = 0x700000000000ull, SSIZE = 0x10000000000ull;
static std::map<uint64_t, const GlobalVariable *> tiByAddr;
static int shardSeen = 0;
static T_t TR, FA;

// ------------------------------------------------------------------ types
static void flatten(Type *t, uint32_t off, std::vector<Leaf> &o) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) throw std::string("integer wider than 64 bits"); o.push_back({L_INT, (uint8_t)w, off}); return; }
  if (t->isPointerTy()) { o.push_back({L_PTR, 64, off}); return; }
  if (t->isFloatTy()) { o.push_back({L_F32, 32, off}); return; }
  if (t->isDoubleTy()) { o.push_back({L_F64, 64, off}); return; }
  if (auto *s = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + (uint32_t)sl->getElementOffset(i), o); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + (uint32_t)(i * es), o); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), off + (uint32_t)(i * es), o); return; }
  if (t->isVoidTy()) return;
  std::string n; raw_string_ostream os(n); t->print(os); throw std::string("type ") + n;
}
static std::vector<Leaf> leavesOf(Type *t) { std::vector<Leaf> o; flatten(t, 0, o); return o; }
static int leafIndex(Type *t, ArrayRef<unsigned> idx) { // first leaf of the indexed member
  int k = 0;
  for (unsigned i : idx) {
    if (auto *s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) k += leavesOf(s->getElementType(j)).size(); t = s->getElementType(i); }
    else if (auto *a = dyn_cast<ArrayType>(t)) { k += i * leavesOf(a->getElementType()).size(); t = a->getElementType(); }
  }
  return k;
}
static Func *getFunc(Function *F);
static void constVals(const Constant *c, std::vector<Val> &o);
static uint64_t constAddr(const Constant *c) { std::vector<Val> v; constVals(c, v); if (v.size() != 1 || v[0].t) throw std::string("constant address"); return v[0].c; }
static void constVals(const Constant *c, std::vector<Val> &o) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw std::string("wide constant"); o.push_back(CV(ci->getZExtValue())); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { o.push_back(CV(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<ConstantPointerNull>(c)) { o.push_back(CV(0)); return; }
  if (isa<UndefValue>(c)) { for (size_t i = 0, n = leavesOf(c->getType()).size(); i < n; i++) o.push_back(Val{0, UNINIT}); return; }
  if (isa<ConstantAggregateZero>(c)) { for (size_t i = 0, n = leavesOf(c->getType()).size(); i < n; i++) o.push_back(CV(0)); return; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), o); return; }
  if (auto *f = dyn_cast<Function>(c)) { getFunc(const_cast<Function *>(f)); o.push_back(CV(gaddr[f])); return; }
  if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw std::string("unknown global ") + g->getName().str(); o.push_back(CV(it->second)); return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(cast<Constant>(ca->getOperand(i)), o); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), o); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw std::string("constant gep"); o.push_back(CV(constAddr(cast<Constant>(g->getPointerOperand())) + off.getSExtValue())); return; }
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: constVals(ce->getOperand(0), o); return;
    case Instruction::Trunc: { uint64_t v = constAddr(ce->getOperand(0)); o.push_back(CV(v & maskw(ce->getType()->getIntegerBitWidth()))); return; }
    case Instruction::Add: o.push_back(CV(constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1)))); return;
    case Instruction::Sub: o.push_back(CV(constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1)))); return;
    default: break;
    }
  }
  throw std::string("unsupported constant");
}

// ------------------------------------------------------------------ translation
#include "builtins.h"
static Func *getFunc(Function *F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  Func *f = new Func; f->F = F; f->name = F->getName().str(); funcs[F] = f; gaddr[F] = FBASE + FSTEP * funcByAddr.size(); funcByAddr.push_back(f); return f;
}
static void translate(Func *f) {
  f->ready = true; Function &F = *f->F; std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bbid;
  try {
    auto alloc = [&](const Value *v) { int r = f->regs.size(); for (Leaf l : leavesOf(v->getType())) f->regs.push_back(l); reg[v] = r; return r; };
    for (Argument &a : F.args()) { f->argReg.push_back(alloc(&a)); f->argN.push_back(leavesOf(a.getType()).size()); }
    int nb = 0; for (BasicBlock &b : F) bbid[&b] = nb++;
    for (BasicBlock &b : F) for (Instruction &i : b) if (!i.getType()->isVoidTy()) { try { alloc(&i); } catch (std::string &) { reg[&i] = -2; } }
    auto op = [&](const Value *v) { Opnd o; if (auto *c = dyn_cast<Constant>(v)) { std::vector<Val> vs; constVals(c, vs); if (vs.size() == 1) o.c = vs[0]; else o.agg = vs; return o; } auto it = reg.find(v); if (it == reg.end() || it->second < 0) throw std::string("operand"); o.reg = it->second; return o; };
    f->bbs.resize(nb); f->succ.resize(nb);
    std::vector<std::vector<bool>> use(nb), def(nb); std::vector<std::vector<std::vector<int>>> phiUse(nb);
    for (BasicBlock &b : F) {
      int bi = bbid[&b]; f->bbs[bi].start = f->code.size();
      for (BasicBlock *s : successors(&b)) f->succ[bi].push_back(bbid[s]);
      for (Instruction &I : b) {
        Inst x; x.op = X_UNSUP; x.src = &I; if (reg.count(&I)) x.dst = reg[&I];
        if (auto *phi = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) {
            int p = bbid[phi->getIncomingBlock(k)]; auto &ph = f->bbs[bi].phis; size_t j = 0; for (; j < ph.size(); j++) if (ph[j].first == p) break;
            if (j == ph.size()) ph.push_back({p, {}});
            bool dup = false; for (Move &m : ph[j].second) if (m.dst == x.dst) dup = true;
            if (!dup) ph[j].second.push_back({x.dst, (int)leavesOf(phi->getType()).size(), op(phi->getIncomingValue(k))});
          }
          continue;
        }
        try {
          if (auto *bo = dyn_cast<BinaryOperator>(&I)) { auto ls = leavesOf(I.getType()); x.ls = ls; x.l = ls[0]; x.sub = bo->getOpcode(); x.a = {op(I.getOperand(0)), op(I.getOperand(1))}; x.op = (ls[0].k == L_F32 || ls[0].k == L_F64) ? X_FBIN : X_BIN; }
          else if (isa<UnaryOperator>(&I)) { x.ls = leavesOf(I.getType()); x.l = x.ls[0]; x.a = {op(I.getOperand(0))}; x.op = X_FNEG; }
          else if (auto *c = dyn_cast<ICmpInst>(&I)) { auto ls = leavesOf(c->getOperand(0)->getType()); if (ls.size() != 1) throw std::string("vector compare"); x.l2 = ls[0]; x.l = {L_INT, 1, 0}; x.sub = c->getPredicate(); x.a = {op(c->getOperand(0)), op(c->getOperand(1))}; x.op = X_ICMP; }
          else if (auto *c = dyn_cast<FCmpInst>(&I)) { auto ls = leavesOf(c->getOperand(0)->getType()); if (ls.size() != 1) throw std::string("vector compare"); x.l2 = ls[0]; x.l = {L_INT, 1, 0}; x.sub = c->getPredicate(); x.a = {op(c->getOperand(0)), op(c->getOperand(1))}; x.op = X_FCMP; }
          else if (auto *s = dyn_cast<SelectInst>(&I)) { if (!s->getCondition()->getType()->isIntegerTy()) throw std::string("vector select"); x.ls = leavesOf(I.getType()); x.a = {op(s->getCondition()), op(s->getTrueValue()), op(s->getFalseValue())}; x.op = X_SELECT; for (auto *u : s->getCondition()->users()) if (auto *q = dyn_cast<SelectInst>(u)) if (q->getParent() == s->getParent() && (q->getType()->isPointerTy() || (q->getType()->isIntegerTy() && q->getType()->getIntegerBitWidth() > 8))) x.sub = 1; }
          else if (isa<FreezeInst>(&I)) { x.ls = leavesOf(I.getType()); x.a = {op(I.getOperand(0))}; x.op = X_INSERTV; x.imm = -1; }
          else if (auto *ld = dyn_cast<LoadInst>(&I)) { x.ls = leavesOf(I.getType()); x.a = {op(ld->getPointerOperand())}; x.op = X_LOAD; }
          else if (auto *st = dyn_cast<StoreInst>(&I)) { x.ls = leavesOf(st->getValueOperand()->getType()); x.a = {op(st->getValueOperand()), op(st->getPointerOperand())}; x.op = X_STORE; }
          else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
            if (g->getType()->isVectorTy()) throw std::string("vector gep");
            x.op = X_GEP; x.a = {op(g->getPointerOperand())}; MapVector<Value *, APInt> vo; APInt co(64, 0);
            if (!g->collectOffset(*DL, 64, vo, co)) throw std::string("gep");
            x.imm = co.getSExtValue(); for (auto &kv : vo) { x.a.push_back(op(kv.first)); x.ex.push_back(kv.second.getSExtValue()); x.ls.push_back(leavesOf(kv.first->getType())[0]); }
          }
          else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { x.op = X_CBR; x.a = {op(br->getCondition())}; x.bb = bbid[br->getSuccessor(0)]; x.bb2 = bbid[br->getSuccessor(1)]; } else { x.op = X_BR; x.bb = bbid[br->getSuccessor(0)]; } }
          else if (auto *sw = dyn_cast<SwitchInst>(&I)) { x.op = X_SWITCH; x.a = {op(sw->getCondition())}; x.l = leavesOf(sw->getCondition()->getType())[0]; x.bb = bbid[sw->getDefaultDest()]; for (auto &c : sw->cases()) { x.ex.push_back(c.getCaseValue()->getZExtValue()); x.ex.push_back(bbid[c.getCaseSuccessor()]); } }
          else if (isa<ReturnInst>(&I)) { x.op = X_RET; if (I.getNumOperands()) { x.a = {op(I.getOperand(0))}; x.ls = leavesOf(I.getOperand(0)->getType()); } }
          else if (auto *cb = dyn_cast<CallBase>(&I)) {
            x.cb = cb; x.op = isa<InvokeInst>(&I) ? X_INVOKE : X_CALL; if (auto *iv = dyn_cast<InvokeInst>(&I)) { x.bb = bbid[iv->getNormalDest()]; x.bb2 = bbid[iv->getUnwindDest()]; }
            if (cb->isInlineAsm()) { if (!I.getType()->isVoidTy()) throw std::string("inline asm"); x.op = X_NOP; }
            else {
              Value *cv = cb->getCalledOperand()->stripPointerCasts(); if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
              if (auto *cf = dyn_cast<Function>(cv)) {
                if (cf->isIntrinsic() && (cf->getIntrinsicID() == Intrinsic::dbg_declare || cf->getIntrinsicID() == Intrinsic::dbg_value || cf->getIntrinsicID() == Intrinsic::lifetime_start || cf->getIntrinsicID() == Intrinsic::lifetime_end || cf->getIntrinsicID() == Intrinsic::assume || cf->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl || cf->getIntrinsicID() == Intrinsic::donothing || cf->getIntrinsicID() == Intrinsic::var_annotation)) { x.op = X_NOP; }
                else { x.callee = getFunc(cf); x.bi = builtinId(cf); }
              }
              if (x.op != X_NOP) {
                if (x.callee && cb->getFunctionType() != x.callee->F->getFunctionType() && !x.callee->F->isVarArg()) throw std::string("call type mismatch");
                for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { x.a.push_back(Opnd()); x.ls.push_back({L_INT, 64, 0}); continue; } x.a.push_back(op(a.get())); auto l = leavesOf(a->getType()); x.ls.push_back(l.empty() ? Leaf{L_INT, 64, 0} : l[0]); x.ex.push_back(l.size()); }
                if (!x.callee) { x.a.push_back(op(cb->getCalledOperand())); x.ls.push_back({L_PTR, 64, 0}); x.ex.push_back(1); }
                if (!I.getType()->isVoidTy()) { auto l = leavesOf(I.getType()); if (l.size()) x.l = l[0]; x.imm = l.size(); }
              }
            }
          }
          else if (auto *ci = dyn_cast<CastInst>(&I)) { auto s = leavesOf(ci->getSrcTy()), d = leavesOf(ci->getDestTy()); x.ls = d; x.l = d[0]; x.l2 = s[0]; x.imm = s.size(); x.a = {op(I.getOperand(0))}; x.sub = ci->getOpcode(); x.op = X_CAST; if (s.size() != d.size()) { if (x.sub != Instruction::BitCast) throw std::string("cast"); x.ex = {1}; } }
          else if (auto *e = dyn_cast<ExtractValueInst>(&I)) { x.a = {op(e->getAggregateOperand())}; x.imm = leafIndex(e->getAggregateOperand()->getType(), e->getIndices()); x.ls = leavesOf(I.getType()); x.op = X_EXTRACTV; }
          else if (auto *e = dyn_cast<InsertValueInst>(&I)) { x.a = {op(e->getAggregateOperand()), op(e->getInsertedValueOperand())}; x.imm = leafIndex(I.getType(), e->getIndices()); x.ls = leavesOf(I.getType()); x.ex = {(int64_t)leavesOf(e->getInsertedValueOperand()->getType()).size()}; x.op = X_INSERTV; }
          else if (auto *e = dyn_cast<ExtractElementInst>(&I)) { auto *k = dyn_cast<ConstantInt>(e->getIndexOperand()); if (!k) throw std::string("vector index"); x.a = {op(e->getVectorOperand())}; x.imm = k->getZExtValue(); x.ls = leavesOf(I.getType()); x.op = X_EXTRACTV; }
          else if (auto *e = dyn_cast<InsertElementInst>(&I)) { auto *k = dyn_cast<ConstantInt>(e->getOperand(2)); if (!k) throw std::string("vector index"); x.a = {op(e->getOperand(0)), op(e->getOperand(1))}; x.imm = k->getZExtValue(); x.ls = leavesOf(I.getType()); x.ex = {1}; x.op = X_INSERTV; }
          else if (auto *e = dyn_cast<ShuffleVectorInst>(&I)) { x.a = {op(e->getOperand(0)), op(e->getOperand(1))}; for (int m : e->getShuffleMask()) x.ex.push_back(m); x.imm = leavesOf(e->getOperand(0)->getType()).size(); x.ls = leavesOf(I.getType()); x.op = X_SHUF; }
          else if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { x.a = {op(r->getPointerOperand()), op(r->getValOperand())}; x.sub = r->getOperation(); x.ls = leavesOf(I.getType()); x.l = x.ls[0]; x.op = X_ATOMICRMW; }
          else if (auto *r = dyn_cast<AtomicCmpXchgInst>(&I)) { x.a = {op(r->getPointerOperand()), op(r->getCompareOperand()), op(r->getNewValOperand())}; x.ls = leavesOf(r->getCompareOperand()->getType()); x.l = x.ls[0]; x.op = X_CMPXCHG; }
          else if (isa<FenceInst>(&I)) x.op = X_NOP;
          else if (isa<UnreachableInst>(&I)) x.op = X_UNREACH;
          else if (auto *lp = dyn_cast<LandingPadInst>(&I)) { x.op = X_LPAD; x.imm = lp->isCleanup(); for (unsigned k = 0; k < lp->getNumClauses(); k++) { x.ex.push_back(lp->isCatch(k)); x.ex.push_back(lp->isCatch(k) ? (int64_t)constAddr(lp->getClause(k)) : 0); } }
          else if (isa<ResumeInst>(&I)) { x.op = X_RESUME; x.a = {op(I.getOperand(0))}; }
          else if (auto *ai = dyn_cast<AllocaInst>(&I)) { x.op = X_ALLOCA; x.imm = DL->getTypeAllocSize(ai->getAllocatedType()); x.a = {op(ai->getArraySize())}; x.sub = ai->getAlign().value(); }
          else throw std::string("instruction ") + I.getOpcodeName();
        } catch (std::string &e) { x.op = X_UNSUP; x.a.clear(); std::string s; raw_string_ostream os(s); I.print(os); static std::vector<std::string *> keep; x.imm = keep.size(); keep.push_back(new std::string(e + ":" + s)); x.ex = {(int64_t)(intptr_t)keep.back()}; }
        f->code.push_back(std::move(x));
      }
    }
    // blocks from which a return is reachable
    std::vector<std::vector<int>> pred(nb); for (int b = 0; b < nb; b++) for (int s : f->succ[b]) pred[s].push_back(b);
    std::vector<int> wl; for (BasicBlock &b : F) if (isa<ReturnInst>(b.getTerminator())) { int i = bbid[&b]; f->bbs[i].retReach = true; wl.push_back(i); }
    while (!wl.empty()) { int b = wl.back(); wl.pop_back(); for (int p : pred[b]) if (!f->bbs[p].retReach) { f->bbs[p].retReach = true; wl.push_back(p); } }
    // post-dominators on those blocks; nb = virtual exit
    std::vector<std::vector<bool>> pd(nb + 1, std::vector<bool>(nb + 1, true)); pd[nb].assign(nb + 1, false); pd[nb][nb] = true;
    bool ch = nb < 1500; while (ch) { ch = false; for (int b = nb - 1; b >= 0; b--) if (f->bbs[b].retReach) {
      std::vector<bool> n(nb + 1, true); bool any = false;
      if (f->code.empty()) break;
      bool isRet = f->succ[b].empty(); if (isRet) { n = pd[nb]; any = true; }
      for (int s : f->succ[b]) if (f->bbs[s].retReach) { for (int k = 0; k <= nb; k++) n[k] = n[k] && pd[s][k]; any = true; }
      if (!any) n.assign(nb + 1, false); n[b] = true; if (n != pd[b]) { pd[b] = n; ch = true; } } }
    for (int b = 0; b < nb; b++) { f->bbs[b].ipdom = nb; if (!f->bbs[b].retReach || nb >= 1500) continue; size_t best = 0; for (int k = 0; k < nb; k++) if (k != b && pd[b][k] && f->bbs[k].retReach) { size_t c = std::count(pd[k].begin(), pd[k].end(), true); if (c > best) { best = c; f->bbs[b].ipdom = k; } } }
    // liveness of registers at block entry
    size_t nr = f->regs.size();
    if (nb * nr < 4000000) {
      std::vector<std::vector<bool>> in(nb, std::vector<bool>(nr)), gen(nb, std::vector<bool>(nr)), kill(nb, std::vector<bool>(nr));
      std::vector<size_t> endI(nb); for (int b = 0; b < nb; b++) endI[b] = b + 1 < nb ? f->bbs[b + 1].start : f->code.size();
      int bI = 0;
      for (BasicBlock &b : F) {
        for (Instruction &I : b) if (!isa<PHINode>(I)) for (Value *v : I.operands()) if (reg.count(v) && reg[v] >= 0) { int r = reg[v], n = leavesOf(v->getType()).size(); for (int k = 0; k < n; k++) if (!kill[bI][r + k]) gen[bI][r + k] = true; if (0) break; }
        // values defined in this block never need to be live-in (SSA)
        for (Instruction &I : b) if (reg.count(&I) && reg[&I] >= 0) { int r = reg[&I], n = leavesOf(I.getType()).size(); for (int k = 0; k < n; k++) kill[bI][r + k] = true; }
        bI++;
      }
      bI = 0; for (BasicBlock &b : F) { for (Instruction &I : b) if (!isa<PHINode>(I) && reg.count(&I) && reg[&I] >= 0) { int r = reg[&I], n = leavesOf(I.getType()).size(); for (int k = 0; k < n; k++) gen[bI][r + k] = false; } bI++; }
      bool c2 = true; while (c2) { c2 = false; for (int b = nb - 1; b >= 0; b--) {
        std::vector<bool> o(nr); for (int s : f->succ[b]) { for (size_t k = 0; k < nr; k++) if (in[s][k]) o[k] = true; }
        for (int s : f->succ[b]) for (auto &ph : f->bbs[s].phis) if (ph.first == b) for (Move &m : ph.second) { for (int k = 0; k < m.n; k++) o[m.dst + k] = false; }
        for (int s : f->succ[b]) for (auto &ph : f->bbs[s].phis) if (ph.first == b) for (Move &m : ph.second) if (m.o.reg >= 0) for (int k = 0; k < m.n; k++) o[m.o.reg + k] = true;
        // phi results are live-in of their own block (moves happen on the edge)
        for (size_t k = 0; k < nr; k++) { bool v = gen[b][k] || (o[k] && !kill[b][k]); if (v && !in[b][k]) { in[b][k] = true; c2 = true; } }
      } 
        // phi destinations used anywhere: keep live
        }
      for (int b = 0; b < nb; b++) { for (auto &ph : f->bbs[b].phis) for (Move &m : ph.second) for (int k = 0; k < m.n; k++) in[b][m.dst + k] = true; f->bbs[b].live = in[b]; f->bbs[b].hasLive = true; }
    }
  } catch (std::string &e) { f->err = e; }
}
#include "run.h"
