// Native replay runtime: runs one harness of the real library, compiled with
// the real standard library and sanitizers, on the values the solver found.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <new>
#include <map>
#include <string>
#include <thread>
#include <vector>
#include <deque>
#include <fstream>
#include <unistd.h>
#include <dlfcn.h>
#ifdef SYM_SCHED
static size_t __sanitizer_get_allocated_size(const volatile void *) { return 0; } static int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) { return 0; }
#else
extern "C" { size_t __sanitizer_get_allocated_size(const volatile void *); int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)); }
#endif
static std::map<std::string, std::string> *INP; static std::map<std::string, int> *CNT; static std::map<std::string, std::deque<int>> *FAILS;
static bool abortOk = false; static int failBudget = 0; static int failed = 0; static volatile long live = 0; static volatile long liveBytes = 0; static std::deque<int> *failQ;
static void say(const char *k, const char *m) { fprintf(stderr, "SYM-REPLAY %s: %s\n", k, m); fflush(stderr); }
static std::string key(const char *n) { int &k = (*CNT)[n]; std::string r = k ? std::string(n) + "#" + std::to_string(k) : n; k++; return r; }
static bool look(const char *n, std::string &v) { std::string k = key(n); auto it = INP->find(k); if (it == INP->end()) return false; v = it->second; return true; }
struct Guard { int save; long l, b; Guard() : save(failBudget), l(live), b(liveBytes) { failBudget = 0; } ~Guard() { failBudget = save; live = l; liveBytes = b; } };
static bool inj() { if (failBudget <= 0) return false; if (!failQ || failQ->empty()) return false; int save = failBudget; failBudget = 0; int v = failQ->front(); failQ->pop_front(); failBudget = save; if (v) { failBudget--; failed++; return true; } return false; }
extern "C" {
#ifndef SYM_SCHED
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { if (inj()) return nullptr; return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { if (inj()) return nullptr; return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { if (!(p && n == 0) && inj()) return nullptr; return __real_realloc(p, n); }
void *__real__Znwm(size_t); void *__real__Znam(size_t); void *__real__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &); void *__real__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t &);
void *__wrap__Znwm(size_t n) { if (inj()) throw std::bad_alloc(); return __real__Znwm(n); }
void *__wrap__Znam(size_t n) { if (inj()) throw std::bad_alloc(); return __real__Znam(n); }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (inj()) return nullptr; return __real__ZnwmRKSt9nothrow_t(n, t); }
void *__wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &t) { if (inj()) return nullptr; return __real__ZnamRKSt9nothrow_t(n, t); }
#endif
uint64_t __sym_bv(const char *name, int width) { Guard g; std::string v; if (!look(name, v)) return 0; uint64_t x = strtoull(v.c_str(), nullptr, 16); return width >= 64 ? x : x & ((1ull << width) - 1); }
double __sym_f64(const char *name) { Guard g; std::string v; if (!look(name, v)) return 0; uint64_t x = strtoull(v.c_str(), nullptr, 16); double d; memcpy(&d, &x, 8); return d; }
float __sym_f32(const char *name) { Guard g; std::string v; if (!look(name, v)) return 0; uint32_t x = (uint32_t)strtoull(v.c_str(), nullptr, 16); float d; memcpy(&d, &x, 4); return d; }
int64_t __sym_choice(const char *name, int64_t lo, int64_t hi) { Guard g; std::string v; (void)hi; if (!look(name, v)) return lo; return strtoll(v.c_str(), nullptr, 10); }
void __sym_assume(bool b) { if (!b) { say("assume", "an assumption does not hold"); _exit(77); } }
void __sym_assert(bool b, const char *m) { if (!b) { say("assert", m); _exit(42); } }
void __sym_close(double a, double b, double tol, const char *m) { Guard g; if (std::isnan(a) && std::isnan(b)) return; if (a == b) return; double d = std::fabs(a - b); if (!(d <= tol * (1 + std::fabs(b)))) { fprintf(stderr, "SYM-REPLAY values %.17g vs %.17g\n", a, b); say("assert", m); _exit(42); } }
void __sym_abort_allowed(bool b) { abortOk = b; }
void __sym_reach(const char *) {}
uint64_t __sym_heap_live() { return (uint64_t)live; }
uint64_t __sym_heap_bytes() { return (uint64_t)liveBytes; }
void __sym_alloc_may_fail(int n) { failBudget = 0; long l0 = live, b0 = liveBytes; if (n > 0) { if (!failQ) { failQ = new std::deque<int>; for (int i = 0;; i++) { auto it = INP->find(i ? "$allocfail#" + std::to_string(i) : std::string("$allocfail")); if (it == INP->end()) break; failQ->push_back(atoi(it->second.c_str())); } } } live = l0; liveBytes = b0; failBudget = n; }
int __sym_alloc_failed() { return failed; }
uint64_t __sym_concretize(uint64_t x) { return x; }
int __sym_fmt_double(double d, int prec, int fl, char *buf) { return sprintf(buf, fl == 1 ? "%.*f" : fl == 2 ? "%.*e" : "%.*g", prec, d); }
uint64_t __sym_generalize(const char *tag, void *p, uint64_t n) { Guard g; uint64_t c = 0; for (uint64_t o = 0; o + 4 <= n; o += 4) { std::string v; if (!look((std::string(tag) + "+" + std::to_string(o)).c_str(), v)) continue; uint32_t x = (uint32_t)strtoull(v.c_str(), nullptr, 16); memcpy((char *)p + o, &x, 4); c++; } return c; }
void __sym_note(const char *, uint64_t) {}
bool __sym_real_mode() { return false; }
void __sym_preempt(int) {}
static std::vector<std::pair<void (*)(void *), void *>> *TH;
void __sym_spawn(void (*fn)(void *), void *arg) { if (!TH) TH = new std::vector<std::pair<void (*)(void *), void *>>; TH->push_back({fn, arg}); }
void __sym_sched_run(std::vector<std::pair<void (*)(void *), void *>> &v);
void __sym_join_all() { if (TH) { __sym_sched_run(*TH); TH->clear(); } }
}
#ifndef SYM_SCHED
extern "C" void __sym_sched_run(std::vector<std::pair<void (*)(void *), void *>> &v) { std::vector<std::thread> t; for (auto &p : v) t.emplace_back(p.first, p.second); for (auto &x : t) x.join(); }
#endif
static size_t hsize(const volatile void *p) { return __sanitizer_get_allocated_size((const void *)p); }
static void onMalloc(const volatile void *p, size_t n) { if (p) { live = live + 1; liveBytes = liveBytes + (long)n; } }
static void onFree(const volatile void *p) { if (p) { live = live - 1; liveBytes = liveBytes - (long)hsize(p); } }
static void onAbort(int) { if (abortOk) { _exit(0); } const char m[] = "SYM-REPLAY abort: the library aborted on an input that must be accepted\n"; (void)!write(2, m, sizeof m - 1); _exit(43); }
static void onSig(int s) { fprintf(stderr, "SYM-REPLAY signal: %d\n", s); _exit(45); }
static void onTerm() { if (abortOk) _exit(0); const char m[] = "SYM-REPLAY abort: an exception escaped\n"; (void)!write(2, m, sizeof m - 1); _exit(43); }
int main(int argc, char **argv) {
  INP = new std::map<std::string, std::string>; CNT = new std::map<std::string, int>;
  if (argc > 1) { std::ifstream f(argv[1]); std::string l; while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; size_t p = l.find('\t'); if (p == std::string::npos) continue; (*INP)[l.substr(0, p)] = l.substr(p + 1); } }
  signal(SIGABRT, onAbort); signal(SIGFPE, onSig); std::set_terminate(onTerm);
  static char obuf[1 << 12]; setvbuf(stdout, obuf, _IOLBF, sizeof obuf); __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  void (*ent)() = argc > 2 ? (void (*)())dlsym(RTLD_DEFAULT, argv[2]) : nullptr; if (!ent) { say("error", "no such harness"); return 77; } ent(); say("end", "no violation"); return 0;
}
