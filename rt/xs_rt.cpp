// Native replay runtime: feeds the solver's assignment to the same harness on the real build.
#include "xs.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n)
#define UNPOISON(p, n)
#endif
namespace {
struct In { char name[64]; char kind; char val[64]; };
In *ins; size_t nin, pos;
struct Blk { void *user; void *raw; size_t n, tot; };
Blk *blks; size_t nblk, cblk; long live; int64_t budget = -1;
thread_local int dummy;
int lockv;
// The runtime's own synchronisation is invisible to the race detector, so that it orders nothing of the code under test.
#define UNSEEN __attribute__((no_sanitize("thread"), noinline))
UNSEEN void lock_() { while (__atomic_exchange_n(&lockv, 1, __ATOMIC_ACQUIRE)) {} }
UNSEEN void unlock_() { __atomic_store_n(&lockv, 0, __ATOMIC_RELEASE); }
struct L { L() { lock_(); } ~L() { unlock_(); } };
// Threads start together; in the race-detecting build they wait at random before atomic operations, so that repetitions take different schedules.
int started, nthr; thread_local bool worker; thread_local unsigned long jit; unsigned long rep;
UNSEEN void gate(int k) { worker = true; jit = (rep * 2 + k + 1) * 0x9e3779b97f4a7c15ul; __atomic_add_fetch(&started, 1, __ATOMIC_RELAXED); for (long i = 0; i < 200000 && __atomic_load_n(&started, __ATOMIC_RELAXED) < nthr; i++) {} }
[[maybe_unused]] UNSEEN void jitter() { if (!worker) return; jit ^= jit << 13; jit ^= jit >> 7; jit ^= jit << 17; unsigned n = jit & 1 ? 0 : (jit >> 8) % ((jit & 6) == 2 ? 40000 : 2000); for (unsigned i = 0; i < n; i++) asm volatile(""); }
const char *next(const char *name, char kind) {
  if (pos >= nin) { static char z[] = "0"; return z; }
  In &i = ins[pos++];
  char nb[64]; snprintf(nb, sizeof nb, "%s", name); for (char *c = nb; *c; c++) if (*c == ' ') *c = '_'; name = nb;
  if (strcmp(i.name, name) != 0) { fprintf(stderr, "XS-DIVERGE expected input %s, harness asks %s\n", i.name, name); _exit(78); }
  (void)kind;
  return i.val;
}
uint64_t nu(const char *n, char k) { return strtoull(next(n, k), nullptr, 10); }
struct R { const char *n; void (*f)(); R *nx; }; R *regs;
struct Job { void (*f)(void *); void *a; }; Job jobs_[8];
[[noreturn]] void die(const char *m) { printf("XS-FAIL %s\n", m); fflush(stdout); _exit(77); }
void *getblk(size_t n, size_t al) {
  if (al < 16 && al) {} if (!al) al = 1;
  size_t tot = n + 2 * al + 16; char *raw = (char *)malloc(tot);
  if (!raw) abort();
  // block end flush with the allocation end where alignment permits; address exactly al-aligned
  uintptr_t hi = (uintptr_t)raw + tot - n; uintptr_t u = hi;
  while (u % (2 * al) != al % (2 * al)) u--;
  POISON(raw, (char *)u - raw); if ((char *)u + n < raw + tot) POISON((char *)u + n, raw + tot - ((char *)u + n));
  L l; if (nblk == cblk) { cblk = cblk ? 2 * cblk : 256; blks = (Blk *)realloc(blks, cblk * sizeof(Blk)); }
  blks[nblk++] = {(void *)u, raw, n, tot}; live++; return (void *)u;
}
void relblk(void *p, long n) {
  if (!p) return;
  Blk b; { L l; size_t i = nblk; while (i > 0 && blks[i - 1].user != p) i--; if (!i) die("free of an address that is not a live block"); b = blks[i - 1]; blks[i - 1] = blks[--nblk]; live--; }
  if (n >= 0 && (size_t)n != b.n) die("sized delete with the wrong size");
  UNPOISON(b.raw, b.tot);
  free(b.raw);
}
void *nw(size_t n, size_t al) { { L l; if (budget == 0) { } else if (budget > 0) { budget--; goto ok; } else goto ok; } throw std::bad_alloc(); ok: return getblk(n, al); }
}
XsReg::XsReg(const char *n, void (*f)()) { R *r = (R *)malloc(sizeof(R)); *r = {n, f, regs}; regs = r; }
extern "C" {
uint8_t xs_u8(const char *n) { return (uint8_t)nu(n, 'u'); }
uint16_t xs_u16(const char *n) { return (uint16_t)nu(n, 'u'); }
uint32_t xs_u32(const char *n) { return (uint32_t)nu(n, 'u'); }
uint64_t xs_u64(const char *n) { return nu(n, 'u'); }
float xs_f32(const char *n) { uint32_t b = (uint32_t)nu(n, 'f'); float f; memcpy(&f, &b, 4); return f; }
double xs_f64(const char *n) { uint64_t b = nu(n, 'd'); double f; memcpy(&f, &b, 8); return f; }
float xs_r32(const char *n, float, float) { return (float)strtod(next(n, 'r'), nullptr); }
double xs_r64(const char *n, double, double) { return strtod(next(n, 'r'), nullptr); }
int xs_choice(int, int, const char *n) { return (int)(uint32_t)nu(n, 'u'); }
void xs_assume(bool c) { if (!c) { printf("XS-ASSUME\n"); fflush(stdout); _exit(78); } }
void xs_check(bool c, const char *m) { if (!c) die(m); }
void xs_reach(const char *) {}
void xs_obs_u64(const char *l, uint64_t v) { printf("OBS %s %llu\n", l, (unsigned long long)v); }
void xs_obs_f(const char *l, double v) { printf("OBSF %s %.17g\n", l, v); }
bool xs_same_f32(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y || (std::isnan(a) && std::isnan(b)); }
bool xs_same_f64(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y || (std::isnan(a) && std::isnan(b)); }
bool xs_approx_f32(float a, float b, float s) { if (a == b) return true; if (!std::isfinite(a) || !std::isfinite(b)) return false; return std::fabs(a - b) <= 3e-5f * (std::fabs(a) + std::fabs(b) + s); }
bool xs_approx_f64(double a, double b, double s) { if (a == b) return true; if (!std::isfinite(a) || !std::isfinite(b)) return false; return std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b) + s); }
bool xs_approx_ld(long double a, long double b, double s) { if (a == b) return true; if (!std::isfinite(a) || !std::isfinite(b)) return false; return std::fabs(a - b) <= 1e-19L * (std::fabs(a) + std::fabs(b) + s); }
void *xs_malloc(size_t n, size_t al) { return getblk(n, al); }
void xs_free(void *p, size_t n) { relblk(p, (long)n); }
uint64_t xs_live_heap() { L l; return (uint64_t)live; }
void xs_alloc_budget(int64_t n) { budget = n; }
void xs_thread(void (*fn)(void *), void *a) { jobs_[nthr++] = {fn, a}; }
void xs_join() {
  started = 0; { std::thread t[8]; for (int i = 0; i < nthr; i++) t[i] = std::thread([i] { gate(i); jobs_[i].f(jobs_[i].a); }); for (int i = 0; i < nthr; i++) t[i].join(); } nthr = 0;
}
void xs_fail(const char *m) { die(m); }
void xs_stop_path() { fflush(stdout); _exit(0); }
}
void *operator new(size_t n) { return nw(n, 16); }
void *operator new[](size_t n) { return nw(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return nw(n, (size_t)a < 16 ? 16 : (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return nw(n, (size_t)a < 16 ? 16 : (size_t)a); }
void operator delete(void *p) noexcept { relblk(p, -1); }
void operator delete[](void *p) noexcept { relblk(p, -1); }
void operator delete(void *p, size_t n) noexcept { relblk(p, (long)n); }
void operator delete[](void *p, size_t n) noexcept { relblk(p, (long)n); }
void operator delete(void *p, std::align_val_t) noexcept { relblk(p, -1); }
void operator delete[](void *p, std::align_val_t) noexcept { relblk(p, -1); }
void operator delete(void *p, size_t n, std::align_val_t) noexcept { relblk(p, (long)n); }
void operator delete[](void *p, size_t n, std::align_val_t) noexcept { relblk(p, (long)n); }
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  if (argc > 2) {
    FILE *f = fopen(argv[2], "r"); if (!f) return 2; size_t cap = 0; char line[256];
    while (fgets(line, sizeof line, f)) {
      if (line[0] == '#' || line[0] == '\n') continue;
      if (nin == cap) { cap = cap ? 2 * cap : 64; ins = (In *)realloc(ins, cap * sizeof(In)); }
      In i; memset(&i, 0, sizeof i); if (sscanf(line, "%63s %c %63s", i.name, &i.kind, i.val) == 3) ins[nin++] = i;
    }
    fclose(f);
  }
  int reps = argc > 3 ? atoi(argv[3]) : 1;
  for (R *r = regs; r; r = r->nx) if (!strcmp(r->n, argv[1])) { for (int i = 0; i < reps; i++) { pos = 0; rep = (unsigned long)i; r->f(); } printf("XS-OK\n"); fflush(stdout); return 0; }
  fprintf(stderr, "no entry %s\n", argv[1]); return 2;
}
#if defined(__SANITIZE_THREAD__)
#define WRAP(T, n) \
  extern "C" T __real___tsan_atomic##n##_load(const volatile T *, int); extern "C" T __wrap___tsan_atomic##n##_load(const volatile T *p, int m) { jitter(); return __real___tsan_atomic##n##_load(p, m); } \
  extern "C" void __real___tsan_atomic##n##_store(volatile T *, T, int); extern "C" void __wrap___tsan_atomic##n##_store(volatile T *p, T v, int m) { jitter(); __real___tsan_atomic##n##_store(p, v, m); } \
  extern "C" T __real___tsan_atomic##n##_exchange(volatile T *, T, int); extern "C" T __wrap___tsan_atomic##n##_exchange(volatile T *p, T v, int m) { jitter(); return __real___tsan_atomic##n##_exchange(p, v, m); } \
  extern "C" T __real___tsan_atomic##n##_fetch_add(volatile T *, T, int); extern "C" T __wrap___tsan_atomic##n##_fetch_add(volatile T *p, T v, int m) { jitter(); return __real___tsan_atomic##n##_fetch_add(p, v, m); } \
  extern "C" T __real___tsan_atomic##n##_fetch_sub(volatile T *, T, int); extern "C" T __wrap___tsan_atomic##n##_fetch_sub(volatile T *p, T v, int m) { jitter(); return __real___tsan_atomic##n##_fetch_sub(p, v, m); } \
  extern "C" int __real___tsan_atomic##n##_compare_exchange_strong(volatile T *, T *, T, int, int); extern "C" int __wrap___tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int f) { jitter(); return __real___tsan_atomic##n##_compare_exchange_strong(p, c, v, m, f); }
WRAP(uint8_t, 8) WRAP(uint32_t, 32) WRAP(uint64_t, 64)
#endif
