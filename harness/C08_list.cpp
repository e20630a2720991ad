// @configs none, ndebug
// @opt maxsteps=40000000
// @bounds every list of up to 4 (thorough: 5) symbolic 32-bit elements, any one operation at any position with a range of up to 3; lists of 9 to 130 (260) elements with one operation; ranges and counts of 67 and 260 (520) elements; lists of 66000 elements; every 3-step history from the empty list
#include "list_ops.hpp"
using namespace hx;
template <typename T> static void step(int lo, int hi) { xme::LinkedList<T> l; Model m; any_list(l, m, QT(4, 5)); one_op(l, m, lo, hi, 3); same(l, m); u32 x = fresh(); l.push_front(T(x)); m.insert(0, x); same(l, m); for (auto &e : l) xs_obs_u64("e", raw(e)); }
XS_ENTRY(e_int_a) { step<u32>(L_PUSH, L_INSERT_RANGE); }
XS_ENTRY(e_int_b) { step<u32>(L_ERASE, L_LAST); }
XS_ENTRY(e_val_a) { step<Val>(L_PUSH, L_INSERT_RANGE); }
XS_ENTRY(e_val_b) { step<Val>(L_ERASE, L_LAST); }
static const int hist[] = {L_PUSH, L_INSERT, L_INSERT_ITERS, L_ERASE, L_ERASE_RANGE, L_CLEAR, L_ASSIGN_ITERS, L_REVERSE};
XS_ENTRY(e_hist) { xme::LinkedList<Val> l; Model m; for (int s = 0; s < QT(3, 4); s++) { int o = hist[xs_choice(0, 7, "kind")]; one_op(l, m, o, o, 2); } same(l, m); }
template <typename T> static void ctor() {
  u32 src[3]; int k = xs_choice(0, 3, "length"); Model m, full, f; for (int i = 0; i < 3; i++) { src[i] = fresh(); full.push(src[i]); } for (int i = 0; i < k; i++) { m.push(src[i]); f.push(src[0]); }
  typename InIt<T>::Src s{src, src + k};
  switch (xs_choice(0, 9, "constructor")) {
  case 0: { xme::LinkedList<T> l; Model e; same(l, e); break; }
  case 1: { xme::LinkedList<T> l((std::size_t)k); Model z; for (int i = 0; i < k; i++) z.push(0); same(l, z); break; }
  case 2: { xme::LinkedList<T> l((std::size_t)k, T(src[0])); same(l, f); break; }
  case 3: { xme::LinkedList<T> l(src + 0, src + k); same(l, m); break; }
  case 4: { xme::LinkedList<T> l(InIt<T>{&s}, std::default_sentinel); same(l, m); break; }
  case 5: { xme::LinkedList<T> l{T(src[0]), T(src[1]), T(src[2])}; same(l, full); break; }
  case 6: { xme::LinkedList<T> l(src + 0, src + k); xme::LinkedList<T> c(std::as_const(l)); same(c, m); if (k) { l.front() = T(9u); } l.push_front(T(8u)); same(c, m); break; }
  case 7: { xme::LinkedList<T> l(src + 0, src + k); auto *p = k ? &l.front() : nullptr; xme::LinkedList<T> c(std::move(l)); same(c, m); xs_check(!k || p == &c.front(), "moving transfers the nodes"); Model e; same(l, e); l.push_front(T(8u)); same(c, m); break; }
  case 8: { xme::LinkedList<T> l(src + 0, src + k), c(src + 1, src + 3); c = std::move(l); same(c, m); Model e; same(l, e); l.push_front(T(8u)); same(c, m); break; }
  case 9: { xme::LinkedList<T> l(src + 0, src + k); auto &r = l; l = r; same(l, m); break; }
  }
  xs_reach("ctor");
}
XS_ENTRY(e_ctor_int) { ctor<u32>(); }
XS_ENTRY(e_ctor_val) { ctor<Val>(); }
static const int longs[] = {9, 17, 33, 65, 130, 260};
XS_ENTRY(e_long_int) { long_list<u32>(longs[xs_choice(0, QT(4, 5), "length")]); } XS_ENTRY(e_long_val) { long_list<Val>(longs[xs_choice(1, QT(3, 5), "length")]); }
// long sources and counts
template <typename T> static void long_source(int n) {
  static T src[600]; u32 s = fresh(), x = fresh(); for (int i = 0; i < n; i++) src[i] = T(s + 5 * (u32)i);
  auto run = [&](auto it, int from, int k, auto want) { for (int i = 0; i < k; i++, ++it) { bool more = it != decltype(it){nullptr}; xs_check(more, "length"); if (!more) xs_stop_path(); xs_check(raw(*it) == want(from + i), "element"); } return it; };
  auto val = [&](int i) { return s + 5 * (u32)i; }; auto same_x = [&](int) { return x; };
  switch (xs_choice(0, 7, "operation")) {
  case 0: { xme::LinkedList<T> l((std::size_t)n, T(x)); xs_check(run(l.begin(), 0, n, same_x) == l.end(), "length"); break; }
  case 1: { xme::LinkedList<T> l((std::size_t)n); int c = 0; for (auto &e : l) { (void)e; c++; } xs_check(c == n, "length"); break; }
  case 2: { xme::LinkedList<T> l(src, src + n); xs_check(run(l.begin(), 0, n, val) == l.end(), "length"); break; }
  case 3: { xme::LinkedList<T> l((std::size_t)3, T(x)); auto it = l.insert_after(at(l, 0), src, src + n); xs_check(raw(*it) == val(n - 1), "the last inserted"); auto e = run(run(run(l.begin(), 0, 1, same_x), 0, n, val), 0, 2, same_x); xs_check(e == l.end(), "length"); break; }
  case 4: { xme::LinkedList<T> l((std::size_t)3, T(x)); l.assign(src, src + n); xs_check(run(l.begin(), 0, n, val) == l.end(), "length"); l.assign(src + 1, src + 3); xs_check(run(l.begin(), 1, 2, val) == l.end(), "length"); break; }
  case 5: { xme::LinkedList<T> l((std::size_t)n, T(x)); l.assign(src, src + (n - 1)); xs_check(run(l.begin(), 0, n - 1, val) == l.end(), "length"); break; }
  case 6: { xme::LinkedList<T> l(src, src + n); auto b = at(l, 0), e = at(l, n - 1); l.erase_after(b, e); xs_check(run(run(l.begin(), 0, 1, val), n - 1, 1, val) == l.end(), "length"); break; }
  default: { xme::LinkedList<T> l(src, src + n), o((std::size_t)n + 2, T(x)); o = l; xs_check(run(o.begin(), 0, n, val) == o.end() && run(l.begin(), 0, n, val) == l.end(), "length"); break; }
  }
  xs_reach("long source");
}
XS_ENTRY(e_long_source) { long_source<u32>(xs_choice(0, 1, "length") ? QT(260, 520) : 67); } XS_ENTRY(e_long_source_val) { long_source<Val>(QT(67, 260)); }
// beyond sixteen bits
XS_ENTRY(e_huge) {
  static u32 src[70000]; const int n = 66000; u32 s = fresh(), x = fresh(); int k = xs_choice(0, QT(2, 4), "operation"); for (int i = 0; i < n; i++) src[i] = (u32)i * 3; src[n - 1] = s; src[65536] = s + 1; xme::LinkedList<u32> l; bool same_value = false;
  if (k == 2) { xme::LinkedList<u32> z((std::size_t)n); int c = 0; for (auto it = z.begin(); it != z.end(); ++it) c++; xs_check(c == n, "as many nodes as asked for"); }
  switch (k) {
  case 0: { l = xme::LinkedList<u32>(src, src + n); l.reverse(); l.reverse(); break; }
  case 1: { for (int i = n; i-- > 0;) l.push_front(src[i]); break; }
  case 2: { l = xme::LinkedList<u32>((std::size_t)n, x); same_value = true; break; }
  case 3: { xme::LinkedList<u32> o(src, src + n); l = o; xs_check(!o.empty(), "copied"); break; }
  default: { l.push_front(x); l.insert_after(l.before_begin(), src, src + n); auto it = l.begin(); for (int i = 0; i + 1 < n; i++) ++it; l.erase_after(it); break; }
  }
  bool ok = true; int c = 0; for (auto &e : l) { if (c < n) ok &= e == (same_value ? x : src[c]); c++; } xs_check(c == n && ok, "every element"); l.clear(); xs_check(l.empty(), "cleared"); xs_reach("huge");
}
// sources of every kind, into every place
#include "range_kinds.hpp"
template <typename T> static void ranges_of_every_kind(int what) {
  u32 src[4]; int k = xs_choice(0, QT(2, 3), "source length"); for (int i = 0; i < 4; i++) src[i] = fresh(); int kind = xs_choice(0, RANGE_KINDS, "kind");
  if (what == 0) { Model m; for (int i = 0; i < k; i++) m.push(src[i]); every_range<T>(src, k, kind, [&](auto &&r) { xme::LinkedList<T> a(r); same(a, m); a.push_front(T(1u)); m.insert(0, 1); same(a, m); }, [&](auto i, auto e) { xme::LinkedList<T> a(i, e); same(a, m); a.push_front(T(1u)); m.insert(0, 1); same(a, m); }); return; }
  xme::LinkedList<T> a; Model m; any_list(a, m, QT(3, 4)); int p = xs_choice(0, m.n, "position");
  if (what == 1) { every_range<T>(src, k, kind, [&](auto &&r) { auto it = a.insert_after(at(a, p - 1), r); xs_check(it == at(a, p - 1 + k), "the last inserted"); }, [&](auto i, auto e) { auto it = a.insert_after(at(a, p - 1), i, e); xs_check(it == at(a, p - 1 + k), "the last inserted"); }); m.insert(p, src, k); }
  else { if (p) xs_stop_path(); every_range<T>(src, k, kind, [&](auto &&r) { a.assign(r); }, [&](auto i, auto e) { a.assign(i, e); }); m.n = 0; m.insert(0, src, k); }
  same(a, m); a.push_front(T(1u)); m.insert(0, 1); same(a, m);
}
XS_ENTRY(e_range_ctor_int) { ranges_of_every_kind<u32>(0); } XS_ENTRY(e_range_ctor_val) { ranges_of_every_kind<Val>(0); }
XS_ENTRY(e_range_insert_int) { ranges_of_every_kind<u32>(1); } XS_ENTRY(e_range_insert_val) { ranges_of_every_kind<Val>(1); }
XS_ENTRY(e_range_assign_int) { ranges_of_every_kind<u32>(2); } XS_ENTRY(e_range_assign_val) { ranges_of_every_kind<Val>(2); }
