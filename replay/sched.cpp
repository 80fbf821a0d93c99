// Native replay of thread interleavings.  The library and the harness are
// compiled with -fsanitize=thread instrumentation, whose hooks are implemented
// here: every access to static storage is a scheduling point and one thread
// runs at a time.  All schedules with at most two preemptions are tried, each
// in a forked child; a child in which the harness fails reproduces the finding.
#define SYM_SCHED
#include "native.cpp"
#include <pthread.h>
#include <sys/wait.h>
#include <atomic>
#include <dlfcn.h>
extern "C" char __data_start, _end;
static pthread_mutex_t MU = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t CV = PTHREAD_COND_INITIALIZER;
static int curT = -1; static int nT = 0; static bool doneT[16]; static thread_local int me = -1; static long pts = 0; static long planAt[2] = {-1, -1}; static bool running = false;
static int (*realLock)(pthread_mutex_t *), (*realUnlock)(pthread_mutex_t *);
static int nextT(int t) { for (int k = 1; k <= nT; k++) { int q = (t + k) % nT; if (!doneT[q]) return q; } return -1; }
static void waitTurn() { while (curT != me) pthread_cond_wait(&CV, &MU); }
static void yieldTo(int q) { pthread_mutex_lock(&MU); curT = q; pthread_cond_broadcast(&CV); waitTurn(); pthread_mutex_unlock(&MU); }
static inline void point(const volatile void *p) {
  if (!running || me < 0) return; if ((char *)p < &__data_start || (char *)p >= &_end) return;
  long k = pts++; if (k == planAt[0] || k == planAt[1]) { int q = nextT(me); if (q >= 0 && q != me) yieldTo(q); }
}
struct Arg { void (*f)(void *); void *a; int id; };
static void *body(void *v) { Arg *a = (Arg *)v; pthread_mutex_lock(&MU); me = a->id; waitTurn(); pthread_mutex_unlock(&MU); a->f(a->a); pthread_mutex_lock(&MU); doneT[me] = true; int q = nextT(me); curT = q; me = -1; pthread_cond_broadcast(&CV); pthread_mutex_unlock(&MU); return nullptr; }
static void runPlan(std::vector<std::pair<void (*)(void *), void *>> &v, int first, long a, long b) {
  nT = (int)v.size(); pts = 0; planAt[0] = a; planAt[1] = b; pthread_t th[16]; Arg ar[16]; for (int i = 0; i < nT; i++) { doneT[i] = false; ar[i] = {v[i].first, v[i].second, i}; }
  curT = first; running = true; for (int i = 0; i < nT; i++) pthread_create(&th[i], nullptr, body, &ar[i]); for (int i = 0; i < nT; i++) pthread_join(th[i], nullptr); running = false;
}
extern "C" void __sym_sched_run(std::vector<std::pair<void (*)(void *), void *>> &v) {
  int pf[2]; if (pipe(pf)) _exit(77);
  auto attempt = [&](int f, long a, long b, bool count) -> int { pid_t p = fork(); if (p == 0) { alarm(20); runPlan(v, f, a, b); if (count) (void)!write(pf[1], &pts, sizeof pts); return -1; } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 45; };
  for (int f = 0; f < (int)v.size(); f++) {
    int r = attempt(f, -1, -1, true); if (r == -1) return; if (r) _exit(r); long n = 0; (void)!read(pf[0], &n, sizeof n);
    for (long a = 0; a < n; a++) { r = attempt(f, a, -1, false); if (r == -1) return; if (r) { fprintf(stderr, "SYM-REPLAY schedule: first thread %d, preemption at access %ld\n", f, a); _exit(r); } }
    if (n > 400) n = 400;
    for (long a = 0; a < n; a++) for (long b = a + 1; b < n + 8; b++) { r = attempt(f, a, b, false); if (r == -1) return; if (r) { fprintf(stderr, "SYM-REPLAY schedule: first thread %d, preemptions at accesses %ld and %ld\n", f, a, b); _exit(r); } }
  }
  _exit(0);
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { point(p); } void __tsan_write##n(void *p) { point(p); } void __tsan_unaligned_read##n(void *p) { point(p); } void __tsan_unaligned_write##n(void *p) { point(p); } void __tsan_read_write##n(void *p) { point(p); } void __tsan_unaligned_read_write##n(void *p) { point(p); } void __tsan_volatile_read##n(void *p) { point(p); } void __tsan_volatile_write##n(void *p) { point(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { point(p); } void __tsan_vptr_read(void **p) { point(p); } void __tsan_read_range(void *p, unsigned long) { point(p); } void __tsan_write_range(void *p, unsigned long) { point(p); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { point(d); point(s); return memcpy(d, s, n); } void *__tsan_memmove(void *d, const void *s, size_t n) { point(d); point(s); return memmove(d, s, n); } void *__tsan_memset(void *d, int c, size_t n) { point(d); return memset(d, c, n); }
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T *p, int) { point(p); return __atomic_load_n(p, 5); } void __tsan_atomic##n##_store(volatile T *p, T v, int) { point(p); __atomic_store_n(p, v, 5); } T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { point(p); return __atomic_exchange_n(p, v, 5); } \
 T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { point(p); return __atomic_fetch_add(p, v, 5); } T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { point(p); return __atomic_fetch_sub(p, v, 5); } T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { point(p); return __atomic_fetch_and(p, v, 5); } T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { point(p); return __atomic_fetch_or(p, v, 5); } T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { point(p); return __atomic_fetch_xor(p, v, 5); } T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int) { point(p); return __atomic_fetch_nand(p, v, 5); } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { point(p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int, int) { point(p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// a lock held by a descheduled thread: let that thread run
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!realLock) realLock = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (!running || me < 0 || m == &MU) return realLock(m);
  point(&curT); while (pthread_mutex_trylock(m)) { int q = nextT(me); if (q < 0 || q == me) { fprintf(stderr, "SYM-REPLAY deadlock\n"); _exit(45); } yieldTo(q); } return 0;
}
}
