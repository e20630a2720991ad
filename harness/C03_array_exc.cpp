// @bounds size <= 3, capacity - size <= 1; every position of one thrown element operation (copy, converting construction, throwing move) or one refused allocation during one operation
// @assume user operations throw at most once per run and destructors never throw
#include "array_ops.hpp"
using namespace hx;
// throws at a chosen element operation or allocation; returns whether the fault fired
template <typename F> static bool faulty(F f) {
  int fault = xs_choice(0, 12, "fault");
  if (fault <= 8) { W.ops = 0; W.throw_at = fault; }
  else xs_alloc_budget(fault - 9);
  bool thrown = false;
  try { f(); } catch (const Thrown &) { thrown = true; } catch (const std::bad_alloc &) { thrown = true; }
  W.throw_at = -1; xs_alloc_budget(-1);
  return thrown;
}
template <typename T> static bool intact(xme::Array<T> &a, const Model &m, std::size_t cap) {
  if (a.size() != (std::size_t)m.n || a.capacity() != cap) return false;
  for (int i = 0; i < m.n; i++) if (raw(a[i]) != m.d[i]) return false;
  return true;
}
#define LEAKCHECK xs_check(W.live == 0 && W.ctors == W.dtors, "no element is leaked or destroyed twice"); xs_check(xs_live_heap() == h0, "no block is leaked")
template <typename T> static void strong(int lo, int hi) {
  W.reset(); uint64_t h0 = xs_live_heap();
  {
    xme::Array<T> a; Model m; any_state(a, m, 3, 1); auto cap = a.capacity();
    T t(fresh()); u32 tv = raw(t); int k = xs_choice(lo, hi, "operation"); long live0 = W.live;
    int i = (k == 1 || k == 3) ? (m.n ? xs_choice(0, m.n - 1, "source") : -1) : 0;
    if (i < 0) xs_stop_path();
    bool thrown = faulty([&] {
      switch (k) {
      case 0: a.push_back(t); break;
      case 1: a.push_back(a[i]); break;
      case 2: a.emplace_back(7u); break;
      case 3: a.emplace_back(std::as_const(a)[i]); break;
      case 4: a.reserve(cap + 2); break;
      case 5: a.resize(m.n + 2); break;
      }
    });
    if (thrown) {
      xs_check(intact(a, m, cap), "a failed operation leaves the array as it was");
      xs_check(W.live == live0, "a failed operation creates and destroys nothing");
      xs_check(raw(t) == tv, "argument kept");
      xs_reach("strong fault");
    } else xs_reach("strong success");
    for (std::size_t j = 0; j < a.size(); j++) a[j].ok();
    a.emplace_back(9u); xs_check(raw(a.back()) == 9, "usable afterwards");
  }
  LEAKCHECK;
}
XS_ENTRY(e_strong_push) { strong<Trk>(0, 3); }
XS_ENTRY(e_strong_store) { strong<Trk>(4, 5); }
XS_ENTRY(e_strong_push_mt) { strong<TrkMT>(0, 3); }
XS_ENTRY(e_strong_store_mt) { strong<TrkMT>(4, 5); }
// constructors: nothing remains
template <typename T> static void ctors() {
  W.reset(); uint64_t h0 = xs_live_heap();
  {
    u32 src[3] = {fresh(), fresh(), fresh()}; typename InIt<T>::Src s{src, src + 3}; xme::Array<T> o; Model m; any_state(o, m, 3, 1);
    int n = xs_choice(0, 3, "n"); int k = xs_choice(0, 4, "constructor"); T t(5); long live0 = W.live; auto cap = o.capacity();
    bool thrown = faulty([&] {
      switch (k) {
      case 0: { xme::Array<T> a((std::size_t)n, t); break; }
      case 1: { xme::Array<T> a(src + 0, src + n); break; }
      case 2: { xme::Array<T> a(InIt<T>{&s}, std::default_sentinel); break; }
      case 3: { xme::Array<T> a(o); break; }
      case 4: { xme::Array<T> a{t, t}; break; }
      }
    });
    xs_check(W.live == live0, "a construction that fails, or a finished lifetime, leaves no element");
    xs_check(intact(o, m, cap), "the source is untouched");
    if (thrown) xs_reach("ctor fault");
  }
  LEAKCHECK;
}
XS_ENTRY(e_ctors) { ctors<Trk>(); }
XS_ENTRY(e_ctors_mt) { ctors<TrkMT>(); }
// assignment: strong; insertions, range operations, erase: no leak, no double destruction, still usable
template <typename T> static void basic(int lo, int hi) {
  W.reset(); uint64_t h0 = xs_live_heap();
  {
    xme::Array<T> a, b; Model m, q; any_state(a, m, 2, QT(1, 2)); auto cap = a.capacity();
    u32 src[2] = {fresh(), fresh()}; typename InIt<T>::Src s{src, src + 2};
    int k = xs_choice(lo, hi, "operation"); T t(5);
    int p = (k >= 2 && k <= 6) ? xs_choice(0, m.n - (k >= 5 ? 1 : 0), "position") : 0;
    if (p < 0) xs_stop_path();
    if (k < 2) any_state(b, q, 2, 0); 
    bool thrown = faulty([&] {
      switch (k) {
      case 0: a = b; break;
      case 1: a = {t, t}; break;
      case 2: a.insert(a.begin() + p, t); break;
      case 3: a.insert(a.begin() + p, src + 0, src + 2); break;
      case 4: a.insert(a.begin() + p, InIt<T>{&s}, std::default_sentinel); break;
      case 5: a.insert(a.begin() + p, std::as_const(a)[m.n - 1]); break;
      case 6: a.erase(a.begin() + p); break;
      case 7: a.push_back(src + 0, src + 2); break;
      case 8: a.push_back(InIt<T>{&s}, std::default_sentinel); break;
      }
    });
    if (thrown && k < 2) xs_check(intact(a, m, cap), "a failed assignment leaves the array as it was");
    if (thrown) xs_reach("basic fault");
    xs_check(W.live == (long)a.size() + (long)b.size() + 1, "exactly the elements of the arrays are alive");
    for (std::size_t j = 0; j < a.size(); j++) a[j].ok();
    a.clear(); a.emplace_back(9u); xs_check(a.size() == 1 && raw(a[0]) == 9, "usable afterwards");
  }
  LEAKCHECK;
}
XS_ENTRY(e_basic_assign) { basic<Trk>(0, 1); }
XS_ENTRY(e_basic_insert) { basic<Trk>(2, 5); }
XS_ENTRY(e_basic_other) { basic<Trk>(6, 8); }
XS_ENTRY(e_basic_insert_mt) { basic<TrkMT>(2, 5); }
XS_ENTRY(e_basic_other_mt) { basic<TrkMT>(6, 8); }
