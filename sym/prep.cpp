// Links bitcode files, makes uninitialised locals explicit, and simplifies the module.
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Local.h>
using namespace llvm;
static FunctionCallee havoc(Module &M, Type *ty) {
  std::string n; raw_string_ostream os(n); os << "__sym_havoc_"; ty->print(os); os.flush();
  FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(ty, false));
  auto *fn = cast<Function>(f.getCallee()); fn->setDoesNotThrow(); fn->setWillReturn(); fn->setMemoryEffects(MemoryEffects::inaccessibleMemOnly(ModRefInfo::Ref));
  return f;
}
static int leaves(Type *t) {
  if (t->isIntegerTy() || t->isFloatingPointTy() || t->isPointerTy()) return 1;
  if (auto *s = dyn_cast<StructType>(t)) { int n = 0; for (Type *e : s->elements()) { n += leaves(e); if (n > 64) return n; } return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) { if (a->getNumElements() > 64) return 1000; return (int)a->getNumElements() * leaves(a->getElementType()); }
  if (auto *v = dyn_cast<FixedVectorType>(t)) return (int)v->getNumElements();
  return 1000;
}
static void init(IRBuilder<> &B, Module &M, Type *t, Value *p, Type *top, std::vector<Value *> &idx) {
  if (t->isIntegerTy() || t->isFloatTy() || t->isDoubleTy() || t->isPointerTy()) {
    Value *q = idx.size() > 1 ? B.CreateInBoundsGEP(top, p, idx) : p;
    B.CreateStore(B.CreateCall(havoc(M, t)), q); return;
  }
  if (auto *s = dyn_cast<StructType>(t)) for (unsigned i = 0; i < s->getNumElements(); i++) { idx.push_back(B.getInt32(i)); init(B, M, s->getElementType(i), p, top, idx); idx.pop_back(); }
  else if (auto *a = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < a->getNumElements(); i++) { idx.push_back(B.getInt32(i)); init(B, M, a->getElementType(), p, top, idx); idx.pop_back(); }
}
int prepMain(int argc, char **argv) {
  LLVMContext C; SMDiagnostic err; std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, C); if (!m) { err.print("prep", errs()); return 3; }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 3; }
  }
  StripDebugInfo(*M);
  for (Function &F : *M) for (auto it = inst_begin(F); it != inst_end(F); ++it) if (auto *ai = dyn_cast<AllocaInst>(&*it)) {
    if (ai->isArrayAllocation() || leaves(ai->getAllocatedType()) > 32) continue;
    IRBuilder<> B(ai->getParent(), std::next(ai->getIterator())); std::vector<Value *> idx{B.getInt32(0)};
    init(B, *M, ai->getAllocatedType(), ai, ai->getAllocatedType(), idx);
  }
  // The simplifier may use "the divisor is not zero" and "no signed overflow" as facts: make
  // the first a check of its own and drop the second.
  FunctionCallee nzc;
  for (Function &F : *M) for (auto it = inst_begin(F); it != inst_end(F); ++it) if (auto *bo = dyn_cast<BinaryOperator>(&*it)) {
    bo->dropPoisonGeneratingFlags();
    unsigned op = bo->getOpcode(); if (op != Instruction::SDiv && op != Instruction::UDiv && op != Instruction::SRem && op != Instruction::URem) continue;
    Value *d = bo->getOperand(1); if (isa<ConstantInt>(d) || !d->getType()->isIntegerTy() || d->getType()->getIntegerBitWidth() > 64) continue;
    if (!nzc) { nzc = M->getOrInsertFunction("__sym_divisor", FunctionType::get(Type::getVoidTy(C), {Type::getInt64Ty(C)}, false)); auto *fn = cast<Function>(nzc.getCallee()); fn->setDoesNotThrow(); fn->setWillReturn(); fn->setMemoryEffects(MemoryEffects::inaccessibleMemOnly(ModRefInfo::ModRef)); }
    IRBuilder<> B(bo); B.CreateCall(nzc, {B.CreateZExt(d, B.getInt64Ty())});
  }
  for (Function &F : *M) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::OptimizeNone); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, "function(sroa,early-cse,simplifycfg<bonus-inst-threshold=1;no-switch-to-lookup>,dce)")) { errs() << toString(std::move(e)) << "\n"; return 3; }
  MPM.run(*M, MAM);
  std::error_code ec; raw_fd_ostream os(argv[2], ec); if (ec) return 3; WriteBitcodeToFile(*M, os);
  return 0;
}
