// names of functions that are modelled rather than interpreted
enum BI { B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_NEWNT, B_DEL, B_DELARR, B_ABORT, B_EXIT, B_ASSERTFAIL, B_TERMINATE,
  B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_RETHROW, B_CXA_BEGIN, B_CXA_END, B_CXA_ATEXIT, B_GUARD_ACQ, B_GUARD_REL, B_GUARD_ABORT, B_PUREVIRT, B_THROWSTD, B_CXA_GETPTR, B_CXA_BADNEW,
  B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_MATH1, B_MATH2, B_ROUND, B_FABS, B_FMA, B_FMINMAX, B_COPYSIGN, B_CABS, B_CEXP, B_CCONC, B_MULC, B_DIVC, B_LROUND, B_ISFPCLASS, B_LDEXP, B_FREXP, B_MODF, B_HYPOT,
  B_OVF, B_SAT, B_MINMAX, B_IABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSH, B_IDENT, B_RETZERO, B_NOP, B_TYPEID, B_STACKSAVE, B_OBJSIZE, B_HAVOC, B_TRAP, B_POWI,
  B_SYM_BV, B_SYM_F64, B_SYM_F32, B_SYM_CHOICE, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_CLOSE, B_SYM_ABORTOK, B_SYM_REACH, B_SYM_HEAPLIVE, B_SYM_ALLOCFAIL, B_SYM_ALLOCFAILED, B_SYM_CONC, B_SYM_FMT, B_SYM_SPAWN, B_SYM_JOIN, B_SYM_PREEMPT, B_SYM_ISSYM, B_SYM_NOTE, B_SYM_MODE, B_SYM_HEAPBYTES, B_SYM_GEN, B_SYM_DIGIT, B_SYM_DIVISOR,
  B_MUTEX_LOCK, B_MUTEX_UNLOCK, B_EXITGOOD, B_ERRNO };
static std::unordered_map<std::string, std::pair<int, int>> BT; // name -> (id, sub)
static const char *mathNames[] = {"sqrt", "exp", "log", "sin", "cos", "tan", "exp10", "atan", "log10", "exp2", "log2", "asin", "acos", "sinh", "cosh", "tanh", "cbrt", "erf", "erfc", "tgamma", "lgamma", "expm1", "log1p", "asinh", "acosh", "atanh"};
static const char *math2Names[] = {"pow", "atan2", "fmod", "remainder", "fdim"};
static void initBT() {
  if (!BT.empty()) return;
  auto a = [&](const char *n, int id, int sub = 0) { BT[n] = {id, sub}; };
  a("malloc", B_MALLOC); a("calloc", B_CALLOC); a("realloc", B_REALLOC); a("free", B_FREE); a("_Znwm", B_NEW); a("_Znam", B_NEWARR); a("_ZnwmRKSt9nothrow_t", B_NEWNT, 0); a("_ZnamRKSt9nothrow_t", B_NEWNT, 1);
  a("_ZnwmSt11align_val_t", B_NEW); a("_ZnamSt11align_val_t", B_NEWARR); a("_ZdlPvSt11align_val_t", B_DEL); a("_ZdlPvmSt11align_val_t", B_DEL); a("_ZdaPvSt11align_val_t", B_DELARR);
  a("_ZdlPv", B_DEL); a("_ZdlPvm", B_DEL); a("_ZdaPv", B_DELARR); a("_ZdaPvm", B_DELARR); a("_ZdlPvRKSt9nothrow_t", B_DEL); a("_ZdaPvRKSt9nothrow_t", B_DELARR);
  a("abort", B_ABORT); a("exit", B_EXIT); a("_exit", B_EXIT); a("quick_exit", B_EXIT); a("__assert_fail", B_ASSERTFAIL); a("_ZSt9terminatev", B_TERMINATE); a("__clang_call_terminate", B_TERMINATE); a("llvm.trap", B_TRAP);
  a("_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ASSERTFAIL);
  a("__cxa_allocate_exception", B_CXA_ALLOC); a("__cxa_free_exception", B_CXA_FREE); a("__cxa_throw", B_CXA_THROW); a("__cxa_rethrow", B_CXA_RETHROW); a("__cxa_begin_catch", B_CXA_BEGIN); a("__cxa_end_catch", B_CXA_END); a("__cxa_get_exception_ptr", B_CXA_GETPTR);
  a("__cxa_atexit", B_RETZERO); a("atexit", B_RETZERO); a("__cxa_thread_atexit", B_RETZERO); a("__cxa_guard_acquire", B_GUARD_ACQ); a("__cxa_guard_release", B_GUARD_REL); a("__cxa_guard_abort", B_GUARD_ABORT); a("__cxa_pure_virtual", B_PUREVIRT); a("__cxa_throw_bad_array_new_length", B_CXA_BADNEW);
  const char *thr[][2] = {{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt11range_error"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}};
  (void)thr; int k = 0; for (auto &t : thr) a(t[0], B_THROWSTD, k++);
  a("llvm.memcpy", B_MEMCPY, 0); a("llvm.memmove", B_MEMCPY, 0); a("memcpy", B_MEMCPY, 1); a("memmove", B_MEMCPY, 1); a("llvm.memset", B_MEMSET, 0); a("memset", B_MEMSET, 1); a("memcmp", B_MEMCMP); a("bcmp", B_MEMCMP); a("strlen", B_STRLEN);
  k = 0; for (auto n : mathNames) { a(n, B_MATH1, k); static std::vector<std::string> keep; a((std::string(n) + "f").c_str(), B_MATH1, k); a((std::string("llvm.") + n).c_str(), B_MATH1, k); k++; }
  k = 0; for (auto n : math2Names) { a(n, B_MATH2, k); a((std::string(n) + "f").c_str(), B_MATH2, k); a((std::string("llvm.") + n).c_str(), B_MATH2, k); k++; }
  const char *rn[] = {"floor", "ceil", "trunc", "round", "rint", "nearbyint", "roundeven"}; int rk[] = {RND_FLOOR, RND_CEIL, RND_TRUNC, RND_NEAREST_AWAY, RND_NEAREST_EVEN, RND_NEAREST_EVEN, RND_NEAREST_EVEN};
  for (int i = 0; i < 7; i++) { a(rn[i], B_ROUND, rk[i]); a((std::string(rn[i]) + "f").c_str(), B_ROUND, rk[i]); a((std::string("llvm.") + rn[i]).c_str(), B_ROUND, rk[i]); }
  for (auto n : {"fabs", "fabsf", "llvm.fabs"}) a(n, B_FABS);
  a("llvm.fmuladd", B_FMA); a("llvm.fma", B_FMA); a("fma", B_FMA); a("fmaf", B_FMA); a("llvm.minnum", B_FMINMAX, 0); a("llvm.maxnum", B_FMINMAX, 1); a("fmin", B_FMINMAX, 0); a("fmax", B_FMINMAX, 1); a("fminf", B_FMINMAX, 0); a("fmaxf", B_FMINMAX, 1);
  a("llvm.copysign", B_COPYSIGN); a("copysign", B_COPYSIGN); a("copysignf", B_COPYSIGN); a("cabs", B_CABS); a("cabsf", B_CABS); a("hypot", B_HYPOT); a("hypotf", B_HYPOT);
  a("cexp", B_CCONC, 0); a("csqrt", B_CCONC, 1); a("clog", B_CCONC, 2); a("csin", B_CCONC, 3); a("ccos", B_CCONC, 4); a("cpow", B_CCONC, 5); a("carg", B_CCONC, 6); a("cexpf", B_CCONC, 0); a("csqrtf", B_CCONC, 1); a("cargf", B_CCONC, 6);
  a("__muldc3", B_MULC); a("__mulsc3", B_MULC); a("__divdc3", B_DIVC); a("__divsc3", B_DIVC); a("lround", B_LROUND, RND_NEAREST_AWAY); a("llround", B_LROUND, RND_NEAREST_AWAY); a("lroundf", B_LROUND, RND_NEAREST_AWAY); a("lrint", B_LROUND, RND_NEAREST_EVEN); a("llvm.lround", B_LROUND, RND_NEAREST_AWAY); a("llvm.is.fpclass", B_ISFPCLASS); a("ldexp", B_LDEXP); a("llvm.powi", B_POWI); a("frexp", B_FREXP); a("modf", B_MODF);
  a("llvm.uadd.with.overflow", B_OVF, 0); a("llvm.usub.with.overflow", B_OVF, 1); a("llvm.umul.with.overflow", B_OVF, 2); a("llvm.sadd.with.overflow", B_OVF, 3); a("llvm.ssub.with.overflow", B_OVF, 4); a("llvm.smul.with.overflow", B_OVF, 5);
  a("llvm.uadd.sat", B_SAT, 0); a("llvm.usub.sat", B_SAT, 1); a("llvm.umin", B_MINMAX, 0); a("llvm.umax", B_MINMAX, 1); a("llvm.smin", B_MINMAX, 2); a("llvm.smax", B_MINMAX, 3); a("llvm.abs", B_IABS); a("abs", B_IABS); a("labs", B_IABS); a("llabs", B_IABS);
  a("llvm.ctpop", B_CTPOP); a("llvm.ctlz", B_CTLZ); a("llvm.cttz", B_CTTZ); a("llvm.bswap", B_BSWAP); a("llvm.fshl", B_FSH, 0); a("llvm.fshr", B_FSH, 1);
  a("llvm.expect", B_IDENT); a("llvm.launder.invariant.group", B_IDENT); a("llvm.strip.invariant.group", B_IDENT); a("llvm.is.constant", B_RETZERO); a("llvm.eh.typeid.for", B_TYPEID); a("llvm.stacksave", B_RETZERO); a("llvm.stackrestore", B_NOP); a("llvm.objectsize", B_OBJSIZE); a("llvm.prefetch", B_NOP);
  a("__sym_bv", B_SYM_BV); a("__sym_f64", B_SYM_F64); a("__sym_f32", B_SYM_F32); a("__sym_choice", B_SYM_CHOICE); a("__sym_assume", B_SYM_ASSUME); a("__sym_assert", B_SYM_ASSERT); a("__sym_close", B_SYM_CLOSE); a("__sym_abort_allowed", B_SYM_ABORTOK); a("__sym_reach", B_SYM_REACH); a("__sym_heap_live", B_SYM_HEAPLIVE); a("__sym_heap_bytes", B_SYM_HEAPBYTES); a("__sym_alloc_may_fail", B_SYM_ALLOCFAIL); a("__sym_alloc_failed", B_SYM_ALLOCFAILED); a("__sym_concretize", B_SYM_CONC); a("__sym_fmt_double", B_SYM_FMT); a("__sym_spawn", B_SYM_SPAWN); a("__sym_join_all", B_SYM_JOIN); a("__sym_preempt", B_SYM_PREEMPT); a("__sym_is_symbolic", B_SYM_ISSYM); a("__sym_note", B_SYM_NOTE); a("__sym_real_mode", B_SYM_MODE); a("__sym_generalize", B_SYM_GEN); a("__sym_digit", B_SYM_DIGIT); a("__sym_divisor", B_SYM_DIVISOR);
  a("pthread_mutex_lock", B_MUTEX_LOCK); a("pthread_mutex_unlock", B_MUTEX_UNLOCK); a("__errno_location", B_ERRNO);
  a("fflush", B_RETZERO); a("fputs", B_RETZERO); a("puts", B_RETZERO); a("printf", B_RETZERO); a("fprintf", B_RETZERO); a("putchar", B_RETZERO); a("fputc", B_RETZERO); a("perror", B_NOP);
}
static std::unordered_map<const Function *, int> biSub;
static int builtinId(Function *f) {
  initBT(); std::string n = f->getName().str();
  if (n.rfind("__sym_havoc_", 0) == 0) return B_HAVOC;
  if (f->isIntrinsic()) { // strip the type suffixes
    n = Intrinsic::getBaseName(f->getIntrinsicID()).str();
  }
  auto it = BT.find(n); if (it == BT.end()) return B_NONE;
  if (!f->isDeclaration() && it->second.first != B_TERMINATE && it->second.first < B_SYM_BV && it->second.first != B_ABORT) return B_NONE;
  biSub[f] = it->second.second; return it->second.first;
}
