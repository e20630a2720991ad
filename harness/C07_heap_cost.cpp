// @bounds heaps of n symbolic 32-bit keys for n in {1..8, 15, 16, 31, 32, 63} (thorough: also 64, 100, 127), arbitrary heap-ordered content, one push, emplacement or pop; heaps of 130 to 511 (1030) elements in three orders with one symbolic key; comparisons at most 3*ceil(log2(n+1))+3
#include "track.hpp"
#include <xme/container/heap.hpp>
using namespace hx;
static int cmps;
struct Cnt { bool operator()(int32_t a, int32_t b) const { cmps++; return a < b; } };
static const int sizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127};
static void cost(int how) {
  int n = sizes[xs_choice(0, QT(12, 15), "n")]; int32_t k[128]; xme::Heap<int32_t, xme::Array<int32_t>, Cnt> h;
  for (int i = 0; i < n; i++) { k[i] = (int32_t)xs_u32("key"); if (i) xs_assume(k[(i - 1) / 2] >= k[i]); h.push(k[i]); }
  int lg = 0; while ((1 << lg) < n + 1) lg++;
  cmps = 0;
  if (how == 0) h.push((int32_t)xs_u32("key")); else if (how == 1) h.pop(); else h.emplace((int32_t)xs_u32("key"));
  xs_check(cmps <= 3 * lg + 3, "logarithmically many comparisons"); xs_reach("cost");
}
XS_ENTRY(e_push) { cost(0); }
XS_ENTRY(e_pop) { cost(1); }
XS_ENTRY(e_emplace) { cost(2); }
// total work of filling and draining small heaps with arbitrary keys
XS_ENTRY(e_total) {
  int n = xs_choice(1, QT(5, 6), "n"); xme::Heap<int32_t, xme::Array<int32_t>, Cnt> h; cmps = 0; int lg = 0; while ((1 << lg) < n + 1) lg++;
  for (int i = 0; i < n; i++) { int c = cmps; h.push((int8_t)xs_u8("key")); xs_check(cmps - c <= lg + 1, "a push compares along one path"); }
  for (int i = 0; i < n; i++) { int c = cmps; h.pop(); xs_check(cmps - c <= 2 * lg + 2, "a pop compares along one path"); }
}
static void cost_long(int how) {
  static const int ns[] = {130, 260, 511, 1030}; int n = ns[xs_choice(0, QT(2, 3), "n")]; int shape = xs_choice(0, 2, "order"); xme::Heap<int32_t, xme::Array<int32_t>, Cnt> h; int lg = 0; while ((1 << lg) < n + 1) lg++;
  for (int i = 0; i < n; i++) { int32_t k = shape == 0 ? i : shape == 1 ? n - i : (i * 37) % n; int c = cmps; h.push(4 * k); xs_check(cmps - c <= 3 * lg + 3, "logarithmically many comparisons"); }
  int32_t x = (int32_t)xs_u32("key"); cmps = 0; if (how == 2) h.emplace(x); else h.push(x); xs_check(cmps <= 3 * lg + 3, "logarithmically many comparisons"); if (how == 1) for (int r = 0; r < 3; r++) { cmps = 0; h.pop(); xs_check(cmps <= 3 * lg + 3, "logarithmically many comparisons"); } xs_reach("long");
}
XS_ENTRY(e_long_push) { cost_long(0); } XS_ENTRY(e_long_pop) { cost_long(1); } XS_ENTRY(e_long_emplace) { cost_long(2); }
