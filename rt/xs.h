// Harness API. In the symbolic run these are intercepted by the engine; natively (replay) rt/xs_rt.cpp implements them.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
extern "C" {
uint8_t xs_u8(const char *name);
uint16_t xs_u16(const char *name);
uint32_t xs_u32(const char *name);
uint64_t xs_u64(const char *name);
float xs_f32(const char *name);   // any IEEE bit pattern
double xs_f64(const char *name);
float xs_r32(const char *name, float lo, float hi);   // real-mode input
double xs_r64(const char *name, double lo, double hi);
int xs_choice(int lo, int hi, const char *name);      // forked, inclusive
void xs_assume(bool c);
void xs_check(bool c, const char *msg);
void xs_reach(const char *label);
void xs_obs_u64(const char *label, uint64_t v);
void xs_obs_f(const char *label, double v);
bool xs_same_f32(float a, float b);                   // same value (+0 != -0) or both NaN
bool xs_same_f64(double a, double b);
bool xs_approx_f32(float a, float b, float scale);    // engine: exact equality of real functions; native: within rounding
bool xs_approx_f64(double a, double b, double scale);
bool xs_approx_ld(long double a, long double b, double scale);
void *xs_malloc(size_t n, size_t align);              // exactly align-aligned
void xs_free(void *p, size_t n);
uint64_t xs_live_heap();
void xs_alloc_budget(int64_t n);                      // next n allocations succeed, later ones throw; -1: unlimited
void xs_thread(void (*fn)(void *), void *arg);
void xs_join();
void xs_fail(const char *msg);
void xs_stop_path();
}
#ifdef XS_SYM
#define XS_ENTRY(name) extern "C" void name()
#define XS_ENTRY_T(name) extern "C" void name()
#else
struct XsReg { XsReg(const char *n, void (*f)()); };
#define XS_ENTRY(name) extern "C" void name(); static XsReg xsreg_##name(#name, name); extern "C" void name()
#define XS_ENTRY_T(name) XS_ENTRY(name)
#endif
#ifndef XS_TIER
#define XS_TIER 0
#endif
#define QT(q, t) (XS_TIER ? (t) : (q))
