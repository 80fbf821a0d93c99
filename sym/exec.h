#pragma once
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <functional>

enum XOp : uint8_t { X_BIN, X_FBIN, X_FNEG, X_ICMP, X_FCMP, X_SELECT, X_LOAD, X_STORE, X_GEP, X_BR, X_CBR, X_SWITCH, X_CALL, X_INVOKE, X_RET, X_CAST, X_EXTRACTV, X_INSERTV, X_EXTRACTE, X_INSERTE, X_SHUF, X_ATOMICRMW, X_CMPXCHG, X_NOP, X_UNREACH, X_LPAD, X_RESUME, X_ALLOCA, X_UNSUP };
struct Opnd { int reg = -1; Val c{0, 0}; std::vector<Val> agg; };
struct Func;
struct Inst {
  XOp op; unsigned sub = 0; Leaf l{L_INT, 64, 0}, l2{L_INT, 64, 0}; int dst = -1; std::vector<Opnd> a; std::vector<Leaf> ls; int64_t imm = 0; std::vector<int64_t> ex;
  Func *callee = nullptr; int bi = -1; int bb = -1, bb2 = -1; const llvm::Instruction *src = nullptr; const llvm::CallBase *cb = nullptr;
};
struct Move { int dst; int n; Opnd o; };
struct BBlk { int start = 0; std::vector<std::pair<int, std::vector<Move>>> phis; int ipdom = -1; bool retReach = false; std::vector<bool> live; bool hasLive = false; };
struct Func {
  llvm::Function *F; std::string name; bool ready = false; bool cut = false; std::vector<Leaf> regs; std::vector<Inst> code; std::vector<BBlk> bbs; std::vector<int> argReg; std::vector<int> argN; std::vector<std::vector<int>> succ; std::string err; uint64_t calls = 0;
};
struct Frame { Func *f; int ip = 0, bb = 0; std::vector<Val> r; const Inst *call = nullptr; size_t mark = 0; uint64_t top = 0; };
struct Thread { std::vector<Frame> fr; OVec stack; uint64_t top = 0; bool done = false; std::vector<uint64_t> caught; uint64_t exc = 0, excTI = 0; int selector = 0; uint64_t waitOn = 0; };
struct InputRec { std::string name; char kind; T t; int64_t v; Leaf l; };
struct State {
  std::vector<Thread> th; int cur = 0; OVec heap, glob; uint64_t heapTop; std::vector<T> pc; ModelP model; std::map<T, uint64_t> conc; std::map<std::string, int> names; std::vector<InputRec> inputs;
  T abortOk; int allocFails = 0, allocFailed = 0; int preempt = 0; bool threaded = false; uint64_t steps = 0; int atom = 0; bool justSwitched = false; bool stale = false;
  std::vector<uint64_t> excTI; uint64_t stopTag = 0; int shN = -1, shI = 0; std::string lastAbort;
  Thread &T_() { return th[cur]; } Frame &F() { return th[cur].fr.back(); }
};
struct Violation { std::string msg, kind; std::vector<std::pair<std::string, std::string>> inputs; std::string where; };
